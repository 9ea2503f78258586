// P04: any document tree survives printing to XMQ and parsing back.
#include "forms.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;
using namespace forms;
static const Set &setting(int i)
{
    static vector<Set> S;
    if (S.empty()) { Set s; S.push_back(s); s.compact=true; S.push_back(s); s=Set(); s.indent=0; S.push_back(s); s=Set(); s.indent=1; s.nl=true; S.push_back(s); s=Set(); s.tab=true; s.non7=true; S.push_back(s); }
    return S[i];
}
static void roundtrip(xmlDoc *x, const Set &st)
{
    Doc d; adopt(d,x);
    string want=dump(d);
    string out=print(d.d,st); mc::outcome(out);
    Parsed p; if (!parse(p,out)) fail("printed xmq does not parse: %s\n  tree: %s\n  xmq:  %s",mc::esc(p.msg).c_str(),want.c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    if (got!=want&&known_loss(d.x(),got,st.compact)) return;
    if (got!=want) fail("tree changed\n  xmq:  %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
}
#define START D=newdoc(); N root=el((N)D,"root")
static void sequence()
{
    int n=1+choose(3); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NF); int st=choose(mc::tier_pick(2,5));
    string d="children"; for (int i=0;i<n;i++) d+=string(i?", ":" ")+F[f[i]].name;
    if (!run(d+" ("+setname(setting(st))+")")) return;
    START; for (int i=0;i<n;i++) F[f[i]].make(root);
    roundtrip(D,setting(st));
}
static void nested()
{   // pairs inside elements that have attributes and siblings, under all settings
    int a=choose(NF),b=choose(NF),w=choose(4),st=choose(5);
    static const char *W[]={"element with attributes","second child","grandchild","element before text"};
    if (!run(string(F[a].name)+", "+F[b].name+" in "+W[w]+" ("+setname(setting(st))+")")) return;
    START; N p;
    switch (w) { case 0: p=el(root,"p"); at(p,"x","1"); at(p,"yyy","2 3"); break; case 1: el(root,"s"); p=el(root,"p"); break; case 2: p=el(el(root,"o"),"p"); break; default: p=el(root,"p"); tx(root,"end"); }
    F[a].make(p); F[b].make(p); roundtrip(D,setting(st));
}
static void top()
{   // around the root
    static const char *T[]={"nothing","comment","two line comment","pi","pi without content","comment with slashes"};
    int dt=choose(3),a=choose(6),b=choose(6),c=choose(6),d=choose(6),st=choose(mc::tier_pick(2,5));
    if (!run(string(dt==1?"doctype first, ":dt==2?"doctype second, ":"")+T[a]+", "+T[b]+", root, "+T[c]+", "+T[d]+" ("+setname(setting(st))+")")) return;
    D=newdoc(); auto put=[&](int k){ switch(k) { case 1: co((N)D,"c"); break; case 2: co((N)D,"c\n d"); break; case 3: pi((N)D,"q","v"); break; case 4: pi((N)D,"q",NULL); break; case 5: co((N)D,"a//b*/c"); break; } };
    auto doctype=[&](){ xmlCreateIntSubset(D,X("root"),NULL,X("a.dtd")); };
    if (dt==1) doctype();
    put(a);
    if (dt==2) { doctype(); N t=(N)D->intSubset; if (D->children!=t||D->last!=t) { xmlUnlinkNode(t); link_child((N)D,t); D->intSubset=(xmlDtd*)t; } }
    put(b); N r=el((N)D,"root"); el(r,"x"); put(c); put(d);
    roundtrip(D,setting(st));
}
static string chars(const vector<string> &A, int max) { int n=choose(max+1); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())]; return s; }
static void comments()
{
    static vector<string> A={"/","*"," ","x","\n","-","'"};
    string s=chars(A,mc::tier_pick(5,6)); int pos=choose(3),st=choose(2);
    if (!run("comment "+q(s)+" position "+std::to_string(pos)+" ("+setname(setting(st))+")")) return;
    START; if (pos==1) { el(root,"a"); } N p=pos==2?el(root,"b"):root; co(p,s); if (pos) el(p,"z");
    roundtrip(D,setting(st));
}
static void comment_chars()
{   // the characters that are treated in some special way elsewhere, and characters of several bytes
    static vector<string> A={"\t","x","\n","\xc3\xa5","\xe2\x82\xac"," ","\xc2\xa0","\xf0\x9f\x98\x80","\"","(","&#10;","\x7f"};
    string s=chars(A,mc::tier_pick(4,5)); int pos=choose(3),st=choose(2);
    if (!run("comment "+q(s)+" position "+std::to_string(pos)+" ("+setname(setting(st))+")")) return;
    START; if (pos==1) { el(root,"a"); } N p=pos==2?el(root,"b"):root; co(p,s); if (pos) el(p,"z");
    roundtrip(D,setting(st));
}
static void pis()
{
    static vector<string> A={"x"," ","'","\n","=","?","\"","(","&","\xc3\xa5","\t"};
    string s=chars(A,mc::tier_pick(3,4)); int pos=choose(2),st=choose(2);
    if (s.size()&&strchr(" \n\t",s[0])) return;      // not part of a pi
    if (s.size()&&(s[0]=='\''||s.back()=='\'')) { mc::count(1); return; }  // stored with a space, see format_040
    if (!run("pi "+q(s)+" position "+std::to_string(pos)+" ("+setname(setting(st))+")")) return;
    START; N p=pos?root:(N)D; pi(p,"proc-inst",s.c_str()); if (pos) el(root,"e");
    roundtrip(D,setting(st));
}
static void doctypes()
{
    static vector<string> V={"root","html","root PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/x.dtd\"","root SYSTEM \"a b.dtd\"","root SYSTEM \"it's\"","root [<!ELEMENT root (#PCDATA)>]","root [\n<!ENTITY a \"b\">\n<!ENTITY c 'd'>\n]","root SYSTEM \"x\" [ <!ATTLIST root a CDATA #IMPLIED> ]","a:b","root PUBLIC \"p\" ''"};
    int v=choose(V.size()),st=choose(5),w=choose(3);
    if (!run("doctype "+q(V[v])+" variant "+std::to_string(w)+" ("+setname(setting(st))+")")) return;
    string x="<!DOCTYPE "+V[v]+">"+(w?"<!--c-->":"")+"<root><a/>"+(w==2?"<b>1</b>":"")+"</root>";
    D=xmlReadMemory(x.c_str(),x.size(),"x",NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING); if (!D) fail("harness");
    roundtrip(D,setting(st));
}
static void attrs()
{
    static vector<string> V={"","v","a b","'","''","\n","x\ny","  x","\"","=x","&","(","é","'a' ","/*","1"," ","x'","\x01","  \x01 ","\t"};
    static const char *NM[]={"k","longer-key","x_1.2"};
    int n=1+choose(mc::tier_pick(2,3)); int v[3]; for (int i=0;i<n;i++) v[i]=choose(V.size()+3); int body=choose(4),st=choose(mc::tier_pick(3,5));
    string d; for (int i=0;i<n;i++) d+=" "+(v[i]<(int)V.size()?q(V[v[i]]):v[i]==(int)V.size()?"none":v[i]==(int)V.size()+1?"entity":"mixed");
    if (!run("attributes"+d+" body "+std::to_string(body)+" ("+setname(setting(st))+")")) return;
    START; N e=el(root,"e");
    for (int i=0;i<n;i++) { if (v[i]<(int)V.size()) at(e,NM[i],V[v[i]].c_str()); else { xmlAttr *a=at(e,NM[i]); if (v[i]==(int)V.size()+1) ae(a,"foo"); if (v[i]==(int)V.size()+2) { ae(a,"foo"); atx(a,"x'"); ae(a,"bar"); } } }
    if (body==1) tx(e,"v"); if (body==2) el(e,"c"); if (body==3) tx(e,"x\n  y\nz");
    roundtrip(D,setting(st));
}
static void namespaces()
{
    // declarations at up to three levels, element and attribute prefixes at each
    static const char *DECL[]={"",""," xmlns='u'"," xmlns='v'"," xmlns=''"," xmlns:p='pp'"," xmlns:p='other'"," xmlns:q='u' xmlns='u'"," xmlns:p='a b' xmlns:r=\"it's\""};
    static const char *PRE[]={"","p:"}; static const char *AT[]={""," k='1'"," p:k='1'"," xml:lang='sv'"};
    string s="<root xmlns:p='base'>"; string end="</root>";
    for (int i=0;i<2;i++) { int d=1+choose(8),p=choose(2),a=choose(4); s+=string("<")+PRE[p]+"e"+AT[a]+DECL[d]+">"; end=string("</")+PRE[p]+"e>"+end; }
    int sib=choose(2),inner=choose(2),st=choose(2);
    s+=inner?"<p:i/><j>1</j>":"text"; if (sib) end.insert(end.rfind("</root>"),"<p:s/><t/>");
    s+=end;
    if (!run("xml "+s+" ("+setname(setting(st))+")")) return;
    D=xmlReadMemory(s.c_str(),s.size(),"x",NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING); if (!D) fail("harness: %s",s.c_str());
    roundtrip(D,setting(st));
}
static void mixed()
{   // sequences of text, entities and comments that must keep their borders
    static vector<string> A={"x"," ","\n","'","&foo;","&lt;","//","<e>","=","&#10"};
    int n=1+choose(mc::tier_pick(5,6)); vector<int> v; for (int i=0;i<n;i++) v.push_back(choose(8)); int st=choose(2),at_=choose(2);
    bool el_=false; for (int k:v) el_|=k>=6; if (at_&&el_) return;
    string d; for (int k:v) d+=A[k];
    if (!run(string(at_?"attribute":"body")+" of "+q(d)+" ("+setname(setting(st))+")")) return;
    START; xmlAttr *a=at_?at(root,"k"):NULL;
    string t; auto flush=[&](){ if (t.size()) { if (at_) atx(a,t); else tx(root,t); t=""; } };
    for (int k:v) { if (k<4) t+=A[k]; else { flush(); if (k==4) { if (at_) ae(a,"foo"); else en(root,"foo"); } else if (k==5) { if (at_) ae(a,"lt"); else en(root,"lt"); } else if (k==6) co(root,"c"); else if (k==7) el(root,"e"); } }
    flush();
    roundtrip(D,setting(st));
}
static void names()
{
    static const char *CH[]={"a","Z","_","x1","a-b","a.b","a_b","xmlns2","html","true","null","DOCTYPE","x--","a..","verylongelementnamethatisalignedwiththeothers"};
    int a=choose(15),b=choose(15),k=choose(15),st=choose(3);
    if (!run(string("names ")+CH[a]+" "+CH[b]+" attribute "+CH[k]+" ("+setname(setting(st))+")")) return;
    D=newdoc(); N r=el((N)D,CH[a]); tx(el(r,CH[b]),"1"); N e=el(r,CH[a]); at(e,CH[k],"v"); at(e,"zz"); el(r,CH[k]);
    roundtrip(D,setting(st));
}
static void large()
{
    int kind=choose(6); static int NN[]={1,2,9,10,63,64,100,255,256,500,1000}; int n=NN[choose(11)],st=choose(3);
    if (!run("kind "+std::to_string(kind)+" size "+std::to_string(n)+" ("+setname(setting(st))+")")) return;
    START; N p=root;
    for (int i=0;i<n;i++) switch (kind) {
        case 0: p=el(p,"d"); if (i==n-1) tx(p,"x\ny"); break;
        case 1: tx(el(root,(string("k")+std::to_string(i)).c_str()),std::to_string(i)); break;
        case 2: at(root,(string("k")+std::to_string(i)).c_str(),"v w"); break;
        case 3: co(root,string(i%7,'/')); break;
        case 4: en(root,"foo"); tx(root,i%2?"'":"x"); break;
        case 5: tx(el(root,string(i+1,'n').c_str()),"v"); break; }
    roundtrip(D,setting(st));
}
static void deep()
{   // every form at every depth
    static int DP[]={1,2,3,4,5,6,7,8,9,10,12,16,33,70}; int d=DP[choose(14)], f=choose(NF), style=choose(4), st=choose(3);
    if (!run(string(F[f].name)+" below "+std::to_string(d)+" elements, chain "+std::to_string(style)+" ("+setname(setting(st))+")")) return;
    START; N p=chain(root,d,style); F[f].make(p); if (!F[f].istext&&style!=1) tx(el(p,"e"),"x y");
    roundtrip(D,setting(st));
}
static void position()
{   // every form as the last, or the second last, of n children of the same form
    static int C[]={3,4,5,6,7,8,9,16,17,33,65}; int g=choose(NF), f=choose(NF), n=C[choose(11)], last=choose(2), st=choose(2);
    if (!run(std::to_string(n)+" x "+F[g].name+" and "+F[f].name+(last?" last":" second last")+" ("+setname(setting(st))+")")) return;
    START; for (int i=0;i<n;i++) { if (last?i==n-1:i==n-2) F[f].make(root); else { if (F[g].istext&&i%2) el(root,"s"); F[g].make(root); } }
    roundtrip(D,setting(st));
}
int main(int c, char **v)
{
    quiet(); mc::counter_names[1]="pi with outer quote (unspecified)";
    return mc::main_(c,v,"P04",{{"sequence",sequence},{"nested",nested},{"top",top},{"comments",comments},{"comment characters",comment_chars},{"pis",pis},{"doctypes",doctypes},{"attrs",attrs},{"namespaces",namespaces},{"mixed",mixed},{"names",names},{"large",large},{"deep",deep},{"position",position}});
}
