// P07: quote content is exact and independent of where the quote is indented.
#include "refxmq.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

// Where the quote stands: text before it (last line decides the column) and after it, and how to find its value.
struct Ctx { const char *name,*pre,*post; int where; };
static const Ctx CTX[]={
    {"element value","a=","",0},{"spaced element value","a = ","\n",0},{"attribute value","a(b=",")",1},{"compound element value","a=(",")",0},
    {"body text","a{\n    ","\n}",0},{"body text after brace","a{","}",0},{"second attribute","a(c=1\n  b = ",")",1},{"value after wide character","// \xc3\xa5\na(\xe2\x80\x83" "b=('')",")",-1},
    {"compound attribute value","a(b=( ","))",1},{"after comment","a{/* c */","}",2},{"nested","x{y{\n\n         a=","}}",3},{"after attributes","a(b=1)=","",0}};
static const int NCTX=12;
static string q3(const string &s, int n) { string o(n,'\''); return o+s+o; }
static string value(XMQDoc *d, int where)
{
    xmlDoc *x=(xmlDoc*)xmqGetImplementationDoc(d); xmlNode *r=xmlDocGetRootElement(x);
    if (!r) fail("no root");
    if (where==3) { r=r->children; if (r) r=r->children; }
    if (!r) fail("no element");
    xmlNode *k=NULL;
    if (where==1) { xmlAttr *a=r->properties; while (a&&strcmp(cs(a->name),"b")) a=a->next; if (!a) fail("no attribute"); k=a->children; }
    else k=r->children;
    if (where==2&&k) k=k->next;
    string v; for (;k;k=k->next) { if (k->type!=XML_TEXT_NODE) fail("unexpected node"); v+=cs(k->content); }
    return v;
}
static string parsed(const string &src, int where)
{
    Parsed p; if (!parse(p,src)) fail("does not parse: %s\n  source: %s",p.msg.c_str(),mc::esc(src).c_str());
    return value(p.doc.d,where);
}
static size_t column(const string &pre) { size_t n=0; for (size_t i=pre.rfind('\n')==string::npos?0:pre.rfind('\n')+1;i<pre.size();i++) if ((pre[i]&0xc0)!=0x80) n++; return n; }
static int depth(const string &c, int extra)
{   // legal number of apostrophes around c
    int m=0,r=0; for (char ch:c) { if (ch=='\'') { if (++r>m) m=r; } else r=0; }
    int n=m+1; if (n==2) n=3; n+=extra; if (n==2) n=3; return n;
}
static bool quotable(const string &c) { return c.size()&&c[0]!='\''&&c.back()!='\''; }

static void check(const Ctx &x, const string &c, int n)
{
    bool un=false; string want=ref::trim_quote(c,column(x.pre)+n,&un); if (un) { mc::count(1); return; }
    string src=x.pre+q3(c,n)+x.post;
    string got=parsed(src,x.where); mc::outcome(got); mc::count(0);
    if (got!=want) fail("value of %s\n  want %s\n  got  %s",mc::esc(src).c_str(),q(want).c_str(),q(got).c_str());
}
static const Ctx *ctx() { int i=choose(NCTX); if (i==7) i=0; return &CTX[i]; }
static void content()
{
    static vector<string> A={"x"," ","\n","'","\xc3\xa5","\r\n"};
    int n=1+choose(mc::tier_pick(6,7)); string c; for (int i=0;i<n;i++) c+=A[choose(A.size())];
    const Ctx *x=&CTX[choose(7)]; int e=choose(2);
    if (!quotable(c)) return;
    if (!run(string(x->name)+" quote of depth "+std::to_string(depth(c,e*2))+" "+q(c))) return;
    check(*x,c,depth(c,e*2));
}
static void lines()
{
    static vector<string> L={"","   ","x"," x","  x  ","    x y","     'x' ","         x","\xc3\xa5 x","x\r"};
    int n=2+choose(mc::tier_pick(3,4)); string c; for (int i=0;i<n;i++) { if (i) c+="\n"; c+=L[choose(L.size())]; }
    const Ctx *x=&CTX[(n==4&&!mc::thorough())?choose(6)*2:choose(NCTX)]; if (x->where<0) x=&CTX[11];
    if (!quotable(c)) return;
    if (!run(string(x->name)+" quote "+q(c))) return;
    check(*x,c,depth(c,0));
}
static void shift()
{   // shifting every line of the quote, including the line it starts on, leaves the value alone
    static vector<string> L={"","x"," x","  x","      x 'y","   "};
    int n=2+choose(mc::tier_pick(3,4)); vector<string> l; for (int i=0;i<n;i++) l.push_back(L[choose(L.size())]);
    static int K[]={1,2,3,7,8,64,1000}; int k=K[choose(7)]; int inl=choose(3);
    static const char *PRE[]={"a=","","'t' a=('x' "}; static const char *POST[]={"","",")"};
    auto build=[&](int k){ string s="r{\n"+string(k,' ')+PRE[inl]+"'''"; for (int i=0;i<n;i++) { if (i) s+="\n"+(l[i].find_first_not_of(' ')==string::npos?string():string(k,' ')); s+=l[i]; } return s+"'''"+POST[inl]+"\n}"; };
    if (!run("shift by "+std::to_string(k)+" of "+q(build(0)))) return;
    Parsed a,b; if (!parse(a,build(0))) fail("does not parse: %s",a.msg.c_str());
    if (!parse(b,build(k))) fail("shifted does not parse: %s",b.msg.c_str());
    mc::outcome(dump(a.doc));
    if (dump(a.doc)!=dump(b.doc)) fail("value depends on the indentation\n  unshifted %s\n  shifted   %s",dump(a.doc).c_str(),dump(b.doc).c_str());
}
static void depths()
{   // the number of apostrophes does not matter
    static vector<string> L={"x","x y","''x","x''''y"," x ","\n x\n  y\n","\n\n x\n\n","\n   x\n y","x'y","\n",""," \n ","x\n"};
    string c=L[choose(L.size())]; int e=choose(mc::tier_pick(70,300)); const Ctx *x=ctx();
    int n=depth(c,e); if (n==2) return;
    if (c.empty()||c[0]=='\'') return;
    if (!run(string(x->name)+" depth "+std::to_string(n)+" of "+q(c))) return;
    check(*x,c,n);
}
static void oneline()
{   // a one line quote is verbatim, whatever it holds
    static vector<string> A={"x"," ","\t","\"","&","=","(",")","{","}","/","*","\\","\xc3\xa5","\xc2\xa0","\xf0\x9f\x98\x80","<","&lt;","//","#","\x7f","'","?","!DOCTYPE",":","`"};
    int n=1+choose(3); string c; for (int i=0;i<n;i++) c+=A[choose(A.size())];
    const Ctx *x=&CTX[choose(mc::thorough()?7:4)];
    if (!quotable(c)) return;
    if (!run(string(x->name)+" one line quote "+q(c))) return;
    string got=parsed(x->pre+q3(c,depth(c,0))+x->post,x->where); mc::outcome(got);
    if (got!=c) fail("want %s got %s",q(c).c_str(),q(got).c_str());
}
static void large()
{   // long lines, many lines, deep indentation
    static int N[]={1,7,8,63,64,127,128,255,256,1000,1024,4096,10000}; int kind=choose(6); int n=N[choose(13)]; int m=N[choose(6)]; const Ctx *x=ctx();
    string c;
    switch (kind) {
    case 0: c=string(n,'x')+"\n"+string(m,' ')+"y"; break;
    case 1: c="\n"+string(n,' ')+"x\n"+string(m,' ')+"y\n"; break;
    case 2: for (int i=0;i<n;i++) c+="\n  x"; c+="\n "; for (int i=0;i<m;i++) c+="\n"; break;
    case 3: c=string(n,'\n')+"x"+string(m,'\n'); break;
    case 4: c="x"+string(n,'\n')+"y"+string(m,' '); break;
    case 5: c=string(n,' ')+"\n"+string(m,' ')+"x\n "+string(n,' '); break;
    }
    if (!run(string(x->name)+" kind "+std::to_string(kind)+" n="+std::to_string(n)+" m="+std::to_string(m))) return;
    check(*x,c,depth(c,0));
}
int main(int c, char **v)
{
    quiet(); mc::counter_names[0]="compared"; mc::counter_names[1]="unspecified";
    return mc::main_(c,v,"P07",{{"content",content},{"lines",lines},{"shift",shift},{"depths",depths},{"oneline",oneline},{"large",large}});
}
