// P24: text output, clines output and C strings say what the document says.
#include "forms.h"
#include "cli.h"
#include <map>
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;
using forms::D; using forms::el; using forms::tx; using forms::en; using forms::co; using forms::pi; using forms::at; using forms::ae; using forms::atx; using forms::F; using forms::NF; using forms::N;
static string out(XMQDoc *d, XMQContentType t, int v=0) { Set s; s.fmt=t; if (v==1) s.compact=true; if (v==2) { s.compact=true; s.nl=s.tab=true; s.non7=true; } return print(d,s); }
// what an entity reference denotes
static string entity(xmlNode *n)
{
    string s=cs(n->name); if (predefined(n)) return predefined(n);
    if (s[0]=='#') return utf8(s[1]=='x'?strtoul(s.c_str()+2,0,16):strtoul(s.c_str()+1,0,10));
    if (n->doc&&n->doc->intSubset) if (xmlEntityPtr e=xmlGetDocEntity(n->doc,n->name)) return cs(e->content);
    static const std::map<string,unsigned> T={{"nbsp",160},{"eacute",0xe9},{"Omega",0x3a9},{"euro",0x20ac},{"hellip",0x2026},{"copy",169}};
    auto i=T.find(s); if (i!=T.end()) return utf8(i->second);
    return "&"+s+";";
}
static void text_of(xmlNode *n, string &o) { for (;n;n=n->next) { if (is_text(n)) o+=cs(n->content); else if (n->type==XML_ENTITY_REF_NODE) o+=entity(n); else if (n->type==XML_ELEMENT_NODE) text_of(n->children,o); } }
struct Line { string path, value; xmlNode *node; };
static string pname(const xmlNs *ns, const xmlChar *n) { return (ns&&ns->prefix?string(cs(ns->prefix))+":":string())+cs(n); }
static void lines_of(xmlNode *n, const string &path, vector<Line> &L)
{
    for (;n;n=n->next) {
        if (is_text(n)||n->type==XML_ENTITY_REF_NODE) { string v; xmlNode *m=n; for (;m&&(is_text(m)||m->type==XML_ENTITY_REF_NODE);m=m->next) { v+=is_text(m)?cs(m->content):entity(m); n=m; } L.push_back({path,v,n->parent}); }
        else if (n->type==XML_ELEMENT_NODE) {
            string p=path+"/"+pname(n->ns,n->name);
            for (xmlAttr *a=n->properties;a;a=a->next) { string v; for (xmlNode *k=a->children;k;k=k->next) v+=is_text(k)?cs(k->content):entity(k); L.push_back({p+"/@"+pname(a->ns,a->name),v,(xmlNode*)a}); }
            if (!n->children) L.push_back({p,"",n}); else lines_of(n->children,p,L);
        }
    }
}
// an independent reader of C string literals (ISO C escapes)
static bool cstring(const string &s, size_t &i, string &v)
{
    v.clear(); if (i>=s.size()||s[i]!='"') return false; i++;
    for (;;) {
        if (i>=s.size()) return false; unsigned char c=s[i];
        if (c=='"') { i++; return true; }
        if (c<32||c==127) return false;
        if (c!='\\') { v+=c; i++; continue; }
        i++; if (i>=s.size()) return false; c=s[i];
        static const char *E="abfnrtv\\\"'?",*V="\a\b\f\n\r\t\v\\\"'?"; if (const char *p=strchr(E,c)) { if (!c) return false; v+=V[p-E]; i++; continue; }
        if (c>='0'&&c<='7') { int x=0,k=0; while (k<3&&i<s.size()&&s[i]>='0'&&s[i]<='7') { x=x*8+s[i]-'0'; i++; k++; } v+=(char)x; continue; }
        if (c=='x') { i++; unsigned x=0; int k=0; while (i<s.size()&&isxdigit((unsigned char)s[i])) { x=x*16+strtoul(string(1,s[i]).c_str(),0,16); i++; k++; } if (!k||x>255) return false; v+=(char)x; continue; }
        return false;
    }
}
static void check_doc(XMQDoc *d, bool xpath=true)
{
    xmlDoc *x=(xmlDoc*)xmqGetImplementationDoc(d); string before=dump(x);
    string want; text_of(x->children,want);
    vector<Line> L; lines_of(x->children,"",L);
    for (int v=0;v<3;v++) {
        string t=out(d,XMQ_CONTENT_TEXT,v); if (t!=want) fail("text is %s, expected %s\n  document %s",q(t).c_str(),q(want).c_str(),before.c_str());
        string c=out(d,XMQ_CONTENT_CLINES,v); mc::outcome(c+t);
        size_t i=0; for (auto &l:L) {
            if (c.compare(i,l.path.size(),l.path)!=0||i+l.path.size()>=c.size()||c[i+l.path.size()]!='=') fail("expected %s= at %s\n  document %s",l.path.c_str(),q(c.substr(i,60)).c_str(),before.c_str());
            i+=l.path.size()+1; string s; size_t b=i; if (!cstring(c,i,s)) fail("not a C string: %s",q(c.substr(b,80)).c_str());
            if (s!=l.value) fail("%s decodes to %s, expected %s",q(c.substr(b,i-b)).c_str(),q(s).c_str(),q(l.value).c_str());
            if (i>=c.size()||c[i]!='\n') fail("no line end at %s",q(c.substr(i,40)).c_str()); i++;
        }
        if (i!=c.size()) fail("more lines than values: %s\n  document %s",q(c.substr(i,80)).c_str(),before.c_str());
    }
    if (dump(x)!=before) fail("printing changed the document");
    if (!xpath) return;
    // the path selects the node
    for (auto &l:L) {
        if (l.path.empty()) continue; bool defns=false; for (xmlNode *n=l.node->type==XML_ATTRIBUTE_NODE?l.node->parent:l.node;n&&n->type==XML_ELEMENT_NODE;n=n->parent) if (n->ns&&!n->ns->prefix) defns=true; if (defns) continue;
        xmlXPathContext *xc=xmlXPathNewContext(x); xmlNode *e=l.node->type==XML_ATTRIBUTE_NODE?l.node->parent:l.node; xmlNs **ns=xmlGetNsList(x,e); xc->namespaces=ns; xc->nsNr=0; if (ns) while (ns[xc->nsNr]) xc->nsNr++;
        xmlXPathObject *o=xmlXPathEvalExpression(X(l.path),xc); bool found=false; if (o&&o->nodesetval) for (int k=0;k<o->nodesetval->nodeNr;k++) if (o->nodesetval->nodeTab[k]==l.node) found=true;
        bool shadow=false; for (xmlNode *n=e->parent;n&&n->type==XML_ELEMENT_NODE;n=n->parent) for (xmlNs *s=n->nsDef;s;s=s->next) for (xmlNode *m=e;m!=n;m=m->parent) for (xmlNs *t=m->nsDef;t;t=t->next) if (s->prefix&&t->prefix&&string(cs(s->prefix))==cs(t->prefix)) shadow=true;
        if (o) xmlXPathFreeObject(o); xc->namespaces=NULL; xmlXPathFreeContext(xc); if (ns) xmlFree(ns);
        if (!found&&!shadow) fail("path %s does not select the node\n  document %s",l.path.c_str(),before.c_str());
    }
}
static void nodes()
{
    int n=1+choose(3),w=choose(n<3?3:1); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NF);
    string d; for (int i=0;i<n;i++) d+=string(i?", ":"")+F[f[i]].name;
    if (!run("print "+d+" in "+std::to_string(w))) return;
    D=newdoc(); N r=el((N)D,"root"),p=r; if (w==1) { p=el(el(r,"a"),"b"); tx(r,"t"); } if (w==2) { co((N)D,"c"); p=el(r,"in"); at(p,"k","v"); el(r,"in"); }
    for (int i=0;i<n;i++) F[f[i]].make(p);
    Doc x; adopt(x,D); check_doc(x.d,false);
}
static void texts()
{
    static vector<string> A={"\"","\\","\n","\t","\r","\x01","\x07","\b","\x0b","\x0c","\x1b","\x1f","\x7f","é","\xf0\x9f\x98\x80","a","f","0","7","9"," ","'","?","x","\xc2\x80"};
    int w=choose(6),n=choose(mc::tier_pick(4,5)); if (n>2&&w>2) return; string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("text "+q(s)+" in place "+std::to_string(w))) return;
    D=newdoc(); N r=el((N)D,"r");
    switch (w) { case 0: tx(r,s); break; case 1: tx(el(r,"a"),s); el(r,"b"); break; case 2: at(r,"k",s.c_str()); break; case 3: tx(r,"x"); en(r,"#10"); tx(r,s); break; case 4: link_child(r,xmlNewCDataBlock(D,X(s),s.size())); break; default: { N p=r; for (int i=0;i<5;i++) p=el(p,"d"); tx(p,s); co(p,s); tx(p,s); } }
    Doc x; adopt(x,D); check_doc(x.d);
}
static void entities()
{
    static const char *E[]={"amp","lt","gt","quot","apos","nbsp","#10","#x41","#233","#x10FFFF","#x1","eacute","Omega","euro","foo","hellip","#32"};
    int n=1+choose(3),w=choose(4); int e[3]; for (int i=0;i<n;i++) e[i]=choose(17); int t=choose(n<3?4:1);
    string d; for (int i=0;i<n;i++) d+=string("&")+E[e[i]]+";";
    if (!run("entities "+d+" place "+std::to_string(w)+" text "+std::to_string(t))) return;
    D=newdoc(); N r=el((N)D,"r"),p=w==0?r:el(r,"a");
    if (w==2) { xmlAttr *a=xmlNewDocProp(D,X("k"),NULL); a->parent=r; r->properties=a; p=(N)a; }
    if (t&1) tx(p,"b\""); for (int i=0;i<n;i++) { if (i==1&&w==3) el(p,"z"); N k=xmlNewReference(D,X(E[e[i]])); if (!k) fail("harness"); link_child(p,k); k->parent=p; } if (t&2) tx(p,"\\e");
    Doc x; adopt(x,D); check_doc(x.d);
}
static void sources()
{
    static const char *S[]={"<a>x<b/>y<b k='v'>z</b></a>","<p:a xmlns:p='u' p:k='v'><p:b/><c xmlns='w'><d/></c><p:d>x</p:d></p:a>","<a><![CDATA[x\"<]]>t<b><![CDATA[]]></b></a>","<!DOCTYPE a [<!ENTITY e 'v\"'><!ENTITY f 'w'><!ELEMENT a ANY>]><a k='&e;'>x&e;&f;</a>","<?p q?><!--c--><a><?p q?>t<!--c-->u</a><!--d-->","<html><body>x<br>y<p title='&eacute;\"'>z&nbsp;</p><script>if (a<\"b\") {}</script></body></html>","<!DOCTYPE html><html><head><title>a\"b</title></head><body a=b c>x</body></html>","a{'x'&nbsp;'y'}","?p=q a=1 //c","a(k l='x\ny'){b=('x'&#10;'y') c=''}","!DOCTYPE=html html{body='x'}","x:y(xmlns:x=u x:k=1){x:z=2}","a{}","a","a=''","a(b)","a{a{a{a(b=c)='d'}}}","a{b=1 b=2 b{c=3 c=4}}","[1,\"x\",{\"a\":null}]","{\"a\":{\"b\":\"\\u0001\\\"\"}}","a=(&#x10FFFF;&amp;'x'&bar;)","_(_='k k')=v"};
    int s=choose(sizeof S/sizeof *S),f=choose(3);
    if (!run(string("source ")+q(S[s])+" flags "+std::to_string(f))) return;
    Parsed p; if (!parse(p,S[s],XMQ_CONTENT_DETECT,f==1?XMQ_FLAG_TRIM_NONE:f==2?XMQ_FLAG_NOMERGE:0)) fail("rejected %s",p.msg.c_str());
    check_doc(p.doc.d);
}
static void trees()
{   // shapes: elements nested with equal names, texts and attributes
    string desc; D=NULL; int budget=mc::tier_pick(6,7); vector<int> ops; int depth=0;
    for (int i=0;i<budget;i++) { int c=choose(depth>0?6:5); if (c==0) break; ops.push_back(c); if (c==3) depth++; if (c==5) depth--; }
    for (int c:ops) desc+="-ta(e)"[c];
    if (!run("tree "+desc)) return;
    D=newdoc(); N p=el((N)D,"r"); int k=0; for (int c:ops) { if (c==1) tx(p,"t"+std::to_string(k++)); if (c==2) at(p,("a"+std::to_string(k++)).c_str(),"v"); if (c==3) p=el(p,k++&1?"r":"q"); if (c==4) el(p,"e"); if (c==5) p=p->parent; }
    Doc x; adopt(x,D); check_doc(x.d);
}
static void sizes()
{   // every dimension of a document, across the sizes of buffers and counters
    int kind=choose(forms::NSIZED), n=forms::pick_size(kind); 
    if (!run("sizes kind "+std::to_string(kind)+" size "+std::to_string(n))) return;
    Doc x; adopt(x,forms::sized(kind,n)); check_doc(x.d);
}
// ------------------------------------------------ the tool's quote-c and unquote-c
static void quoting()
{
    static vector<string> A={"\"","\\","\n","\t","\r","\x01","\x0b","\x1f","\x7f","é","\xf0\x9f\x98\x80","a","0","x","n"," "};
    int n=choose(mc::tier_pick(4,5)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("quote-c "+q(s))) return;
    cli::R a=cli::run({"--text","quote-c","to-text"},s); if (!a.ok()) fail("exit status %d %s",a.status,a.err.c_str());
    size_t i=0; string v; if (!cstring(a.out,i,v)||i!=a.out.size()) fail("not a C string: %s",q(a.out).c_str()); if (v!=s) fail("quoted as %s which is %s",q(a.out).c_str(),q(v).c_str());
    cli::R b=cli::run({"--text","unquote-c","to-text"},a.out); if (!b.ok()) fail("exit status %d %s",b.status,b.err.c_str());
    if (b.out!=s) fail("quoted as %s unquoted to %s",q(a.out).c_str(),q(b.out).c_str());
    if (n<=2) { cli::R c=cli::run({"--text","quote-c","--add-nl","to-text"},s); if (!c.ok()||c.out!=a.out+"\n") fail("with --add-nl: %s",q(c.out).c_str()); }
    mc::outcome(a.out);
}
static void unquoting()
{   // literals written by others
    static vector<string> A={"\\\\","\\\"","\\n","\\t","\\x41","\\101","\\7","\\x4","\\'","\\?","a","\\a","\\v","\\0601","é","\\b","\\f","\\r"};
    int n=1+choose(mc::tier_pick(3,4)); string s="\""; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+="\"";
    if (!run("unquote-c "+q(s))) return;
    size_t i=0; string v; if (!cstring(s,i,v)||i!=s.size()) return;
    cli::R b=cli::run({"--text","unquote-c","to-text"},s); if (!b.ok()) fail("exit status %d %s",b.status,b.err.c_str());
    if (b.out!=v) fail("%s unquoted to %s",q(s).c_str(),q(b.out).c_str());
    mc::outcome(b.out);
}
static void characters()
{   // every character, alone between others and with a digit after it
    int nb=mc::thorough()?0x110000/64:0x3100/64+8, blk=choose(nb), ctx=choose(4); unsigned base=mc::thorough()||blk<0x3100/64?blk*64:0xff00+(blk-0x3100/64)*0x1340;
    static const char *C[]={"","0","f","\\"};
    string s; for (unsigned c=base;c<base+64;c++) if (c&&!(c>=0xd800&&c<0xe000)&&c!=0xfffe&&c!=0xffff) s+=utf8(c)+C[ctx];
    if (s.empty()) return;
    char h[32]; snprintf(h,32,"U+%04X",base);
    if (!run(string("quote-c of the characters from ")+h+" each followed by "+q(C[ctx]))) return;
    cli::R a=cli::run({"--text","quote-c","to-text"},s); if (!a.ok()) fail("exit status %d %s",a.status,a.err.c_str());
    size_t i=0; string v; if (!cstring(a.out,i,v)||i!=a.out.size()) fail("not a C string: %s",q(a.out).c_str()); if (v!=s) fail("quoted as %s which is %s",q(a.out).c_str(),q(v).c_str());
    cli::R b=cli::run({"--text","unquote-c","to-text"},a.out); if (!b.ok()) fail("exit status %d %s",b.status,b.err.c_str());
    if (b.out!=s) fail("quoted as %s unquoted to %s",q(a.out).c_str(),q(b.out).c_str());
    // as a text in a document
    bool legal=true; for (unsigned char c:s) if (c<32&&c!=9&&c!=10&&c!=13) legal=false;
    if (legal) { D=newdoc(); N r=el((N)D,"r"); tx(r,s); at(r,"k",s.c_str()); Doc x; adopt(x,D); check_doc(x.d); }
    mc::outcome(a.out);
}
int main(int argc, char **argv)
{
    quiet();
    return mc::main_(argc,argv,"P24",{{"nodes",nodes},{"texts",texts},{"entities",entities},{"sources",sources},{"trees",trees},{"sizes",sizes},{"quoting",quoting},{"unquoting",unquoting},{"characters",characters}});
}
