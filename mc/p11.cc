// P11: heuristic trimming removes white space only, keeps relative indentation, and is the same at load time and later.
#include "xq.h"
#include <functional>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;
static bool ws(char c) { return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static bool blank(const string &s) { for (char c:s) if (!ws(c)) return false; return true; }
static string solid(const string &s) { string o; for (char c:s) if (!ws(c)) o+=c; return o; }
static vector<string> lines_(const string &s)
{
    vector<string> r(1); for (size_t i=0;i<s.size();i++) { if (s[i]=='\n'||s[i]=='\r') { if (s[i]=='\r'&&i+1<s.size()&&s[i+1]=='\n') i++; r.push_back(""); } else r.back()+=s[i]; }
    return r;
}
static string rtrim(string s) { while (s.size()&&(s.back()==' '||s.back()=='\t')) s.pop_back(); return s; }
static string lead(const string &s) { size_t i=0; while (i<s.size()&&(s[i]==' '||s[i]=='\t')) i++; return s.substr(0,i); }
// The rule: false when it does not say what the result is (tabs and spaces mixed within the indentation).
static bool spec(const string &t, string &out)
{
    out.clear(); if (blank(t)) return true;
    size_t a=0,b=t.size(); while (t[a]==' ') a++; while (t[b-1]==' ') b--;
    string s=t.substr(a,b-a); vector<string> L=lines_(s);
    if (L.size()==1) { out=s; return s==rtrim(s)&&lead(s).empty(); }
    size_t f=0,l=L.size(); while (blank(L[f])) f++; while (blank(L[l-1])) l--;
    bool sure=true;
    if (s.find('\r')!=string::npos) { for (size_t i=0;i<s.size();i++) if (s[i]=='\r'&&!(i+1<s.size()&&s[i+1]=='\n')) sure=false; }
    // common indentation of the lines that begin on a line of their own
    string common; bool any=false;
    for (size_t i=f;i<l;i++) { if (i==0||blank(L[i])) continue; string d=lead(L[i]);
        if (!any) common=d,any=true; else { size_t k=0; while (k<common.size()&&k<d.size()&&common[k]==d[k]) k++; if (k<common.size()&&k<d.size()) sure=false; common=common.substr(0,k); } }
    // the first line counts as indented like the second: a blank second line limits what is incidental
    if (f==0&&any&&blank(L[1])) { if ((L[1]+common).find('\t')!=string::npos) sure=false; if (L[1].size()<common.size()) common=common.substr(0,L[1].size()); }
    vector<string> R; 
    for (size_t i=f;i<l;i++) { if (blank(L[i])) { R.push_back(""); continue; } string x=L[i]; if (i==0) { if (lead(x).size()) sure=false; } else x=x.substr(common.size()); if (i+1<L.size()) x=rtrim(x); else if (x!=rtrim(x)) sure=false; R.push_back(x); }
    // one line break less at either end
    for (size_t i=1;i<f;i++) out+="\n"; for (size_t i=0;i<R.size();i++) out+=(i?"\n":"")+R[i]; for (size_t i=l+1;i<L.size();i++) out+="\n";
    return sure;
}
static bool texty(xmlNode *n) { return is_text(n)||n->type==XML_COMMENT_NODE; }
// compare the tree before with the trimmed tree, node by node
static void match(xmlNode *b, xmlNode *a, const string &ctx)
{
    for (;;) {
        while (b&&texty(b)&&blank(cs(b->content))) b=b->next; // white space only: gone
        while (a&&texty(a)&&blank(cs(a->content))) fail("a white space text is left: %s",ctx.c_str());
        if (!b||!a) { if (b||a) fail("a node was %s: %s",b?"removed":"added",ctx.c_str()); return; }
        if (b->type!=a->type) fail("node type %d became %d: %s",b->type,a->type,ctx.c_str());
        if (texty(b)) {
            string w,g=cs(a->content),t=cs(b->content); bool sure=spec(t,w);
            if (solid(g)!=solid(t)) fail("text %s became %s (not only white space changed)",q(t).c_str(),q(g).c_str());
            if (sure&&g!=w) fail("text %s became %s, expected %s",q(t).c_str(),q(g).c_str(),q(w).c_str());
            if (!sure) { // relative order of the lines is kept in any case
                if (blank(g)) fail("text is gone"); }
        } else {
            if (string(cs(a->name))!=cs(b->name)) fail("name changed: %s",ctx.c_str());
            if (b->type==XML_PI_NODE&&string(cs(a->content))!=cs(b->content)) fail("content of a processing instruction changed: %s",ctx.c_str());
            if (b->type==XML_ELEMENT_NODE) {
                xmlAttr *x=b->properties,*y=a->properties; for (;x&&y;x=x->next,y=y->next) { string s1,s2; dump_list(x->children,s1,"+"); dump_list(y->children,s2,"+"); if (s1!=s2||string(cs(x->name))!=cs(y->name)) fail("attribute %s became %s: %s",s1.c_str(),s2.c_str(),ctx.c_str()); }
                if (x||y) fail("attributes changed: %s",ctx.c_str());
                match(b->children,a->children,ctx);
            }
            if (b->type==XML_DTD_NODE) { string s1,s2; dump_node(b,s1); dump_node(a,s2); if (s1!=s2) fail("doctype changed: %s",ctx.c_str()); }
        }
        b=b->next; a=a->next;
    }
}
static void trimmed(XMQDoc *d, int flags=XMQ_FLAG_TRIM_HEURISTIC)
{
    xmlDoc *x=(xmlDoc*)xmqGetImplementationDoc(d),*before=xmlCopyDoc(x,1); string ctx=dump(before);
    xmqTrimWhitespace(d,flags);
    string one=dump(x); mc::outcome(one);
    match(before->children,x->children,ctx);
    // a document that needs no trimming is left alone
    bool left=false; std::function<void(xmlNode*)> look=[&](xmlNode *n){ for (;n;n=n->next) { if (texty(n)) { string s=cs(n->content),w; if (!spec(s,w)||w!=s) left=true; } else if (n->type==XML_ELEMENT_NODE) look(n->children); } }; look(x->children);
    xmqTrimWhitespace(d,flags); string two=dump(x);
    if (!left&&two!=one) fail("trimming again changes the document\n  once:  %s\n  twice: %s",one.c_str(),two.c_str());
    xmlFreeDoc(before);
}
static void place(int w, const string &s, Doc &x)
{
    xmlDoc *D=newdoc(); xmlNode *r=add_elem(D,NULL,"r");
    switch (w) {
    case 0: add_text(D,r,s); break;
    case 1: add_text(D,r,s); add_elem(D,r,"e"); break;
    case 2: add_elem(D,r,"e"); add_text(D,r,s); break;
    case 3: add_elem(D,r,"e"); add_text(D,r,s); add_elem(D,r,"f"); break;
    case 4: link_child(r,xmlNewDocComment(D,X(s))); break;
    case 5: link_child(r,xmlNewCDataBlock(D,X(s),s.size())); break;
    case 6: { xmlNode *p=r; for (int i=0;i<5;i++) p=add_elem(D,p,"d"); add_text(D,p,s); add_attr(D,p,"k",s); break; }
    case 7: link_child(r,xmlNewReference(D,X("foo"))); add_text(D,r,s); link_child(r,xmlNewReference(D,X("foo"))); break;
    default: link_child((xmlNode*)D,xmlNewDocComment(D,X(s))); add_text(D,r,"\n "); add_elem(D,r,"e"); add_text(D,r,s); link_child(r,xmlNewDocComment(D,X("c"))); add_text(D,r,s); break;
    }
    adopt(x,D);
}
static void texts()
{
    static vector<string> A={" ","\n","x","\t","yz","\r","\r\n"};
    int n=choose(mc::tier_pick(8,9)); string s; for (int i=0;i<n;i++) s+=A[choose(n<6?7:n<7?5:3)]; int w=choose(n<6?9:1);
    if (!run("trim "+q(s)+" in place "+std::to_string(w))) return;
    Doc x; place(w,s,x); trimmed(x.d);
}
static void lines()
{
    static vector<string> A={"x","","  a","    b c","  ","\td","\t\te","f  "," g\t","\xc2\xa0h"};
    int n=2+choose(mc::tier_pick(4,5)); string s; static const char *S[]={"","\n","  ","\n\n\n"}; int st=choose(4); s=S[st];
    for (int i=0;i<n;i++) s+=(i?"\n":"")+A[choose(n<5?10:n<6?6:5)];
    static const char *E[]={"","\n","\n  ","\n\n"}; s+=E[choose(4)]; int w=choose(n<4?3:1);
    if (!run("trim lines "+q(s)+" in place "+std::to_string(w))) return;
    Doc x; place(w==0?0:w==1?4:3,s,x); trimmed(x.d);
}
// ------------------------------------------------ at load time and later
static string trimmed_tree(Doc &d) { return dump(d); }
static void loaded(const string &src, XMQContentType ct)
{
    Parsed none; if (!parse(none,src,ct,XMQ_FLAG_TRIM_NONE)) { mc::outcome("rejected"); Parsed h; if (parse(h,src,ct,0)) fail("rejected untrimmed, accepted trimmed: %s",mc::esc(src).c_str()); return; }
    Parsed keep; parse(keep,src,ct,XMQ_FLAG_TRIM_NONE);
    Parsed def,heu; if (!parse(def,src,ct,0)||!parse(heu,src,ct,XMQ_FLAG_TRIM_HEURISTIC)) fail("rejected when trimming: %s",mc::esc(src).c_str());
    xmqTrimWhitespace(none.doc.d,XMQ_FLAG_TRIM_HEURISTIC);
    string a=trimmed_tree(none.doc),b=trimmed_tree(heu.doc),c=trimmed_tree(def.doc);
    bool xmlish=ct==XMQ_CONTENT_XML||ct==XMQ_CONTENT_HTML;
    if (a!=b) fail("trimmed while loading: %s\n  trimmed later: %s\n  source: %s",b.c_str(),a.c_str(),mc::esc(src).c_str());
    if (xmlish&&c!=b) fail("trimmed by default: %s\n  on request: %s\n  source: %s",c.c_str(),b.c_str(),mc::esc(src).c_str());
    if (!xmlish&&c!=dump(keep.doc)) fail("trimmed without being asked: %s\n  source: %s",c.c_str(),mc::esc(src).c_str());
    match(keep.doc.x()->children,none.doc.x()->children,src);
    mc::outcome(a);
}
static void xmls()
{
    static vector<string> A={" ","\n  ","x"," y\n  z\n ","<b/>","<b> <c/>\n</b>","<!-- c -->","<![CDATA[ ]]>","<![CDATA[ d\n  e]]>","<?p q ?>","&lt;","&e;","&#10;&#32;","<b>\n  t\n</b>","<!-- -->","<b xml:space='preserve'> </b>","<b k=' v\n '> w</b>"};
    int n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(n<4?17:10)]; int p=choose(n<4?3:1);
    if (!run("xml content "+q(s)+" prolog "+std::to_string(p))) return;
    static const char *P[]={"","<!DOCTYPE a [<!ENTITY e ' v '>]>\n","<?xml version='1.0'?>\n<!-- p -->\n <?q r?>\n"};
    loaded(string(P[p])+"<a>"+s+"</a>"+(p==2?"\n<!--\n e\n-->\n":""),XMQ_CONTENT_XML);
}
static void models()
{   // with element content models libxml2 knows which white space is ignorable
    static vector<string> A={" ","\n  ","x","<b/>","<b> </b>","<b>t </b>","<!-- c -->","<c>\n</c>"};
    int n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(8)]; int m=choose(3);
    if (!run("xml content "+q(s)+" model "+std::to_string(m))) return;
    static const char *M[]={"(b|c)*","(#PCDATA|b|c)*","ANY"};
    loaded(string("<!DOCTYPE a [\n<!ELEMENT a ")+M[m]+">\n<!ELEMENT b (#PCDATA)>\n]>\n<a>"+s+"</a>",XMQ_CONTENT_XML);
}
static void htmls()
{
    static vector<string> A={" ","\n  ","x","<p>","</p>","<br>","<b> y </b>","<pre>\n  a\n b\n</pre>","<script> if (a<b) {\n  c }\n</script>","<!-- c -->","&nbsp;","<i>z</i>","<textarea> \n t</textarea>","<ul> <li> 1 <li>2</ul>"};
    int n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(n<4?14:9)]; int p=choose(n<4?3:1);
    if (!run("html content "+q(s)+" page "+std::to_string(p))) return;
    loaded(p==0?"<html><body>"+s+"</body></html>":p==1?"<!DOCTYPE html>\n<html>\n<head> <title> t </title></head>\n <body>\n"+s+"\n</body>\n</html>\n":"<div>"+s+"</div>",XMQ_CONTENT_HTML);
}
static void xmqs()
{
    static vector<string> A={" ","b","' x '","'\n\n  y\n    z\n  '","&#32;","(k=' ')","{c=' '}","/* \n */","//  c\n","=(' '&foo;' ')","?p=' '","=\xc2\xa0"};
    int n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=" "+A[choose(12)];
    if (!run("xmq content "+q(s))) return;
    loaded("a{"+s+"}",XMQ_CONTENT_XMQ);
}
static void sizes()
{
    static int N[]={1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,500,1000,3000}; int n=N[choose(25)],k=choose(7),w=choose(3);
    if (!run("size "+std::to_string(n)+" kind "+std::to_string(k)+" place "+std::to_string(w))) return;
    string s; switch (k) {
    case 0: for (int i=0;i<n;i++) s+="\n"+string(4+i%5,' ')+"l"+std::to_string(i); s+="\n"; break;
    case 1: s="\n"+string(n,' ')+"a\n"+string(n+3,' ')+"b\n"+string(n,' '); break;
    case 2: s="a"; for (int i=0;i<n;i++) s+="\n"+string(i,' ')+"x"; break;
    case 3: s=string(n,'\n')+"x"+string(n,'\n'); break;
    case 4: s=string(n,' ')+"x"+string(n,' '); break;
    case 5: s="\n"; for (int i=0;i<n;i++) s+="\t"; s+="x\n"; for (int i=0;i<n+1;i++) s+="\t"; s+="y"; break;
    default: s="x\n"+string(n,'\n')+"    y\n"+string(n,' ')+"\n  z"; }
    Doc x; place(w==0?0:w==1?4:6,s,x); trimmed(x.d);
}
static void depth()
{
    int n=1+choose(mc::tier_pick(60,300)),k=choose(4);
    if (!run("depth "+std::to_string(n)+" kind "+std::to_string(k))) return;
    string s,e; for (int i=0;i<n;i++) { string nl=k==0?"\n"+string(i,' '):k==1?" ":k==2?"\n\n":""; s+=nl+"<d>"; e=nl+"</d>"+e; }
    loaded("<a>"+s+" x\n   y "+e+"</a>",XMQ_CONTENT_XML);
}
int main(int argc, char **argv)
{
    quiet();
    return mc::main_(argc,argv,"P11",{{"texts",texts},{"lines",lines},{"xmls",xmls},{"models",models},{"htmls",htmls},{"xmqs",xmqs},{"sizes",sizes},{"depth",depth}});
}
