// P25: a document printed as JSON and loaded back is the same document.
#include "forms.h"
#include "refjson.h"
using namespace xq; using namespace rj; using namespace forms;
using mc::choose; using mc::run; using mc::fail;
static void unique(const J &j, const string &out)
{
    std::set<string> k; for (auto &m:j.m) { if (!k.insert(m.first).second) fail("the key %s occurs twice in one object: %s",q(m.first).c_str(),mc::esc(out).c_str()); unique(m.second,out); }
    for (auto &a:j.a) unique(a,out);
}
static void roundtrip(xmlDoc *x, bool compact)
{
    Doc d; adopt(d,x); string want=dump(d);
    Set s; s.fmt=XMQ_CONTENT_JSON; s.compact=compact;
    string out=print(d.d,s); mc::outcome(out);
    if (dump(d)!=want) fail("printing changed the document");
    J j; if (rj::parse(out,j)!=OK) fail("the output is not JSON: %s\n  tree: %s",mc::esc(out).c_str(),want.c_str());
    unique(j,out);
    Parsed p; if (!parse(p,out,XMQ_CONTENT_JSON)) fail("the output is rejected: %s\n  tree: %s\n  json: %s",mc::esc(p.msg).c_str(),want.c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    if (got!=want) fail("the document changed\n  json: %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
    // and through the detected type
    Parsed a; if (!parse(a,out,XMQ_CONTENT_DETECT)||dump(a.doc)!=want) fail("the output is not detected as JSON: %s",mc::esc(out).c_str());
}
#define START D=newdoc(); N root=el((N)D,"root")
// the forms without entities and processing instructions
struct JF { const char *name; void (*make)(N p); bool istext; };
static const JF G[]={
 {"leaf",[](N p){ el(p,"a"); }},
 {"value",[](N p){ tx(el(p,"b"),"1"); }},
 {"same value",[](N p){ tx(el(p,"b"),"x"); }},
 {"same with child",[](N p){ el(el(p,"b"),"a"); }},
 {"value with space",[](N p){ tx(el(p,"c"),"x y"); }},
 {"quote value",[](N p){ tx(el(p,"d"),"\"'\\/"); }},
 {"two line value",[](N p){ tx(el(p,"e"),"x\n y\r\t"); }},
 {"word true",[](N p){ tx(el(p,"f"),"true"); }},
 {"word null",[](N p){ tx(el(p,"f"),"null"); }},
 {"value with comment",[](N p){ N n=el(p,"i"); tx(n,"x"); co(n,"c"); }},
 {"attribute",[](N p){ at(el(p,"j"),"k","v"); }},
 {"bare attribute",[](N p){ at(el(p,"j"),"k"); }},
 {"attributes and value",[](N p){ N n=el(p,"j"); at(n,"k","a b"); at(n,"ll","\n"); tx(n,"v"); }},
 {"attribute and number",[](N p){ N n=el(p,"j"); at(n,"k","12"); tx(n,"12"); }},
 {"attributes and children",[](N p){ N n=el(p,"j"); at(n,"k","'"); el(n,"x"); tx(el(n,"yy"),"1"); }},
 {"attribute and child of the same name",[](N p){ N n=el(p,"j"); at(n,"k","'"); tx(el(n,"k"),"1"); el(n,"k"); }},
 {"text",[](N p){ tx(p,"t"); },true},
 {"number text",[](N p){ tx(p,"17"); },true},
 {"text with newline",[](N p){ tx(p,"t\nu"); },true},
 {"space",[](N p){ tx(p," "); },true},
 {"comment",[](N p){ co(p,"c"); }},
 {"empty comment",[](N p){ co(p,""); }},
 {"two line comment",[](N p){ co(p,"c\nd"); }},
 {"child elements",[](N p){ N n=el(p,"m"); el(n,"x"); el(n,"y"); }},
 {"two of a name",[](N p){ N n=el(p,"m"); tx(el(n,"x"),"1"); el(n,"x"); }},
 {"deep",[](N p){ N n=el(el(el(p,"m"),"n"),"o"); tx(n,"1"); el(p,"last"); }},
 {"child text",[](N p){ N n=el(p,"m"); tx(n,"x"); el(n,"y"); tx(n,"z"); }},
 {"prefix",[](N p){ N n=el(p,"q"); n->ns=xmlNewNs(n,X("u"),X("p")); at(n,"k","v"); }},
 {"default namespace",[](N p){ N n=el(p,"q"); n->ns=xmlNewNs(n,X("u"),NULL); N m=el(n,"r"); m->ns=n->ns; }},
};
static const int NG=sizeof(G)/sizeof(G[0]);
static bool only_text(N r) { if (r->properties||r->nsDef) return false; for (N n=r->children;n;n=n->next) if (!is_text(n)) return false; return r->children; }
static void sequence()
{
    int n=1+choose(3); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NG); int c=choose(2);
    string d="children"; for (int i=0;i<n;i++) d+=string(i?", ":" ")+G[f[i]].name; bool t=true; for (int i=0;i<n;i++) t&=G[f[i]].istext;
    for (int i=1;i<n;i++) if (G[f[i]].istext&&G[f[i-1]].istext) return;
    if (t) return; // a root with nothing but text has no place for its name
    if (!run(d+(c?" compact":" pretty"))) return;
    START; for (int i=0;i<n;i++) G[f[i]].make(root);
    roundtrip(D,c);
}
static void nested()
{
    int a=choose(NG),b=choose(NG),w=choose(4),c=choose(2); if (G[a].istext&&G[b].istext) return;
    static const char *W[]={"element with attributes","second child","grandchild","element before text"};
    if (!run(string(G[a].name)+", "+G[b].name+" in "+W[w]+(c?" compact":""))) return;
    START; N p;
    switch (w) { case 0: p=el(root,"p"); at(p,"x","1"); at(p,"yyy","2 3"); break; case 1: el(root,"s"); p=el(root,"p"); break; case 2: p=el(el(root,"o"),"p"); break; default: p=el(root,"p"); tx(root,"end"); }
    G[a].make(p); G[b].make(p); roundtrip(D,c);
}
static void top()
{
    static const char *T[]={"nothing","comment","two line comment"};
    int dt=choose(2),a=choose(3),b=choose(3),e=choose(3),f=choose(3),body=choose(4),c=choose(2);
    if (!run(string(dt==1?"doctype, ":"")+T[a]+", "+T[b]+", root "+std::to_string(body)+", "+T[e]+", "+T[f]+(c?" compact":""))) return;
    D=newdoc(); if (dt) xmlCreateIntSubset(D,X("root"),NULL,X("a.dtd"));
    auto put=[&](int k,const char *t){ if (k==1) co((N)D,t); if (k==2) co((N)D,string(t)+"\n d"); };
    put(a,"c1"); put(b,"c2"); N r=el((N)D,"root"); if (body==0) el(r,"x"); if (body==1) at(r,"k","v"); if (body==2) { tx(r,"t"); co(r,"i"); } put(e,"c3"); put(f,"c4");
    roundtrip(D,c);
}
static void texts()
{
    static vector<string> A={"a","\"","\\","/","\n","\t"," ","1",".","-","e","{","&","\xc3\xa5","\xf0\x9f\x98\x80","_","'"};
    int n=1+choose(mc::tier_pick(3,4)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())]; int w=choose(4);
    if (!run("text "+q(s)+" place "+std::to_string(w))) return;
    START; switch (w) { case 0: tx(el(root,"a"),s); break; case 1: at(root,"a",s.c_str()); break; case 2: el(root,"b"); tx(root,s); break; default: co(root,s); el(root,"z"); }
    roundtrip(D,false);
}
static void words()
{   // the words that JSON writes without quotes, and names that look like what the mapping uses
    static const char *W[]={"true","false","null","0","-0","1","-1","1.5","1e5","1E+5","01","1.","+1",".5","0x10","-","1e","NaN","Infinity","True","nul","truee","12345678901234567890123","1.0000000000000000000000001","[]","{}","[1]","\"x\""};
    static const char *NM[]={"a","b.c","x-y","true","null","A","S","html","DOCTYPE","k1","xmlns2","a__"};
    int w=choose(28),n=choose(12),m=choose(12),at_=choose(3);
    if (at_&&(string(NM[m])=="A"||string(NM[m])=="S")) return; // the attributes that mark arrays and strings
    if (!run(string("value ")+W[w]+" names "+NM[n]+" "+NM[m]+" "+std::to_string(at_))) return;
    START; N e=el(root,NM[n]); if (at_) at(e,NM[m],at_==2?W[w]:NULL); else el(root,NM[m]); tx(e,W[w]); roundtrip(D,false);
}
static void namespaces()
{
    static const char *DECL[]={""," xmlns='u'"," xmlns='v'"," xmlns:p='pp'"," xmlns:p='other'"," xmlns:q='u' xmlns='u'"," xmlns:p='a b' xmlns:r=\"it's\""};
    static const char *PRE[]={"","p:"}; static const char *AT[]={""," k='1'"," p:k='1'"," xml:lang='sv'"," k='2' p:k='1'"};
    string s="<root xmlns:p='base'>"; string end="</root>";
    for (int i=0;i<2;i++) { int d=choose(7),p=choose(2),a=choose(5); s+=string("<")+PRE[p]+"e"+AT[a]+DECL[d]+">"; end=string("</")+PRE[p]+"e>"+end; }
    int sib=choose(2),inner=choose(3); s+=inner==1?"<p:i/><j>1</j>":inner==2?"<p:i/><i/><p:i>2</p:i>":"text"; if (sib) end.insert(end.rfind("</root>"),"<p:s/><t/><s/>"); s+=end;
    if (!run("xml "+s)) return;
    D=xmlReadMemory(s.c_str(),s.size(),"x",NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING); if (!D) fail("harness: %s",s.c_str());
    roundtrip(D,false);
}
static void repeated()
{   // n children in a pattern of kinds: element names, texts and comments that occur several times get an index each
    int n=1+choose(mc::tier_pick(6,7)); int k[8]; for (int i=0;i<n;i++) k[i]=choose(5);
    bool t=true; string d; for (int i=0;i<n;i++) { d+="abtck"[k[i]]; t&=k[i]==2; if (i&&k[i]==2&&k[i-1]==2) return; } if (t) return;
    if (!run("children "+d)) return;
    START; for (int i=0;i<n;i++) switch (k[i]) { case 0: tx(el(root,"a"),std::to_string(i)); break; case 1: el(el(root,"b"),"x"); break; case 2: tx(root,"t"+std::to_string(i)); break; case 3: co(root,"c"+std::to_string(i)); break; default: at(el(root,"b"),"k","v"); }
    roundtrip(D,false);
}
static void large()
{
    int kind=choose(8); static int NN[]={1,2,3,9,10,11,12,63,64,99,100,101,128,255,256,257,512,1000,1001,1024}; int n=NN[choose(20)],c=choose(2);
    if (!run("kind "+std::to_string(kind)+" size "+std::to_string(n)+(c?" compact":""))) return;
    START; N p=root; el(root,"first");
    for (int i=0;i<n;i++) switch (kind) {
        case 0: p=el(p,"d"); if (i==n-1) tx(p,"x\ny"); break;
        case 1: tx(el(root,("k"+std::to_string(i)).c_str()),std::to_string(i)); break;
        case 2: at(root,("k"+std::to_string(i)).c_str(),"v w"); break;
        case 3: co(root,std::to_string(i)); break;
        case 4: tx(el(root,"b"),std::to_string(i)); break;
        case 5: tx(root,std::to_string(i)); el(root,i%2?"b":"c"); break;
        case 6: if (!i) { tx(el(root,string(n,'n').c_str()),string(n,'v')); at(root,"k",string(n,'\n').c_str()); } break;
        case 7: { N e=el(root,i%3?"b":"c"); at(e,"k","v"); tx(el(e,"x"),std::to_string(i)); } break; }
    roundtrip(D,c);
}
static void codepoints()
{
    int c=1+choose(0x10ffff); if (c<32&&c!=9&&c!=10&&c!=13) return; if ((c>=0xd800&&c<0xe000)||c==0xfffe||c==0xffff) return; if (c>0x3000&&!mc::thorough()&&c%61&&(c&0xffff)<0xfff0&&(c&0xffff)>15) return;
    if (!run("code point "+std::to_string(c))) return;
    START; string u=utf8(c); tx(el(root,"a"),u); at(root,"k",("x"+u+"y").c_str()); el(root,"b"); tx(root,u+u); co(root,"c"+u); roundtrip(D,false);
}
int main(int c, char **v)
{
    quiet();
    return mc::main_(c,v,"P25",{{"sequence",sequence},{"nested",nested},{"top",top},{"texts",texts},{"words",words},{"namespaces",namespaces},{"repeated",repeated},{"large",large},{"codepoints",codepoints}});
}
