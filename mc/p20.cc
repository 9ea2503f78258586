// P20: the editing commands of the tool against a reference that applies the documented effect of each command to a DOM.
#include "xq.h"
#include "cli.h"
using namespace xq; using mc::choose; using mc::fail; using mc::run;
struct In { const char *name; vector<string> args; const char *text; XMQContentType type; int flags; };
static const vector<In> &ins()
{
    static const vector<In> v={
        {"empty",{"-z"},NULL,XMQ_CONTENT_DETECT,0},
        {"nested",{"-i"},"a{b=1 c{d=x b=2}b=3}",XMQ_CONTENT_DETECT,0},
        {"entities",{"-i"},"a(x=(&e;'1'&f;) y=&e; z){&e; b=('u'&e;'v') c=(&e;'w') 'm' &f; &e;} &e;",XMQ_CONTENT_DETECT,0},
        {"comments",{"-i"},"//top\na(x=1 y=&e; z){b='q r'/*in*/ c &e; b(x=2)} //end",XMQ_CONTENT_DETECT,0},
        {"chars",{"--no-merge","-i"},"!DOCTYPE='a [ <!ENTITY e \"E1\"> ]' /*h*/ a(x=('p'&#65;'q')){b=('1'&#66;) &#67; c=('2'&e;'3'&#65;) d=&#65; &lt;} //t",XMQ_CONTENT_DETECT,XMQ_FLAG_NOMERGE},
        {"xml",{"--trim=none","-i"},"<?xml version=\"1.0\"?><!--h--><?pi x?><a x=\"1\"><![CDATA[c<]]><b>t&amp;u<d/>v</b><!--k--><p:c xmlns:p=\"u\"><p:b x=\"2\"/><c/></p:c>w</a><!--t-->",XMQ_CONTENT_DETECT,XMQ_FLAG_TRIM_NONE},
        {"roots",{"-i"},"a{b(x=1)} b{c{b}} 't' c 'u'",XMQ_CONTENT_DETECT,0},
        {"deep",{"-i"},"b{b(x=1 y=2){b=&e; b}b='`echo HEJ` $HOME ${c} \" '}",XMQ_CONTENT_DETECT,0},
        {"default ns",{"-i"},"<a xmlns=\"u:d\" xmlns:q=\"u:q\"><b q:x=\"1\"><c/></b><q:b/></a>",XMQ_CONTENT_DETECT,0},
        {"top",{"-i"},"&e; 'x' &f; b=&e; 'y' &e; &e;",XMQ_CONTENT_DETECT,0},
        {"json",{"-i"},"{\"a\":[1,{\"b\":\"x y\"}],\"b\":null,\"c\":{\"b\":[]}}",XMQ_CONTENT_DETECT,0},
    };
    return v;
}
enum Op { SELECT,DELETE,DELENT,REPENT,REPFILE,REPTEXT,REPLACE,SUBENT,SUBCHARS,ADD,ADDROOT,FOREACH };
struct Cmd { Op op; string a,b; };
static const char *NAME[]={"select","delete","delete-entity","replace-entity","replace-entity","replace-entity","replace","substitute-entity","substitute-char-entities","add","add-root","for-each"};
static const char *FILES[][2]={{"w1.xmq","n(k=v){m=1}"},{"w2.xmq","n 't' m{o='x'} //c\nn"},{"w3.xmq","'just text'"},{"w4.xml","<n><m>1</m><!--c--></n>"}};
static const string TEXTFILE="line <1>\n& 'two' \"\n";
static const char *SHELL0="printf \"[%s]\" \"${..}\"";
static const char *SHELL1="printf \"[%s|%s|%s]\" \"${b}\" \"${.}\" \"${c}\"";
static vector<string> args(const Cmd &c)
{
    vector<string> v={NAME[c.op]};
    switch (c.op) {
        case REPFILE: v.push_back(c.a); v.push_back("--with-file="+c.b); break;
        case REPTEXT: v.push_back(c.a); v.push_back("--with-text-file="+c.b); break;
        case REPENT: v.push_back(c.a); v.push_back(c.b); break;
        case FOREACH: v.push_back(c.a); v.push_back("--shell="+c.b); break;
        case SUBCHARS: break;
        default: v.push_back(c.a);
    }
    return v;
}
static vector<Cmd> cmds(int level) // level 0: all, 1: for pairs, 2: for triples
{
    vector<Cmd> v;
    if (level==3) return {Cmd{SELECT,"//b",""},{SELECT,"//@x",""},{SELECT,"/*",""},{DELETE,"//b",""},{DELETE,"//text()",""},{DELENT,"e",""},{REPENT,"e","zz"},{REPFILE,"e","w2.xmq"},{SUBENT,"e",""},{SUBCHARS,"",""},{ADD,"n{m} b=2",""},{ADDROOT,"r",""}};
    vector<string> paths={"//b","//b|//c","//@x","//text()","/*","//comment()","/a/c","//b/..","//node()"};
    if (level<=1) for (auto p:{"//@*","//processing-instruction()","//c/ancestor-or-self::*"}) paths.push_back(p);
    if (level==0) for (auto p:{"//zzz","//*","(//b)[last()]","//*[local-name()='b']","//*[@x]","/a","//b/@x|//b","//b//b","//comment()|//b|//@x","/*/node()","//c/following::node()","//d/preceding-sibling::node()","/comment()","count(//b)","//[","//nope:b","/","//namespace::*","//@x/..","//*/namespace::*|//b","/|//b"}) paths.push_back(p);
    for (auto &p:paths) { v.push_back({SELECT,p,""}); v.push_back({DELETE,p,""}); }
    for (auto e:{"e","f","#65","lt"}) { if (level==2&&e[0]!='e') continue; v.push_back({DELENT,e,""}); }
    v.push_back({REPENT,"e","zz"}); v.push_back({REPENT,"e","<&\"'\n"});
    if (level<=1) { v.push_back({REPENT,"e",""}); v.push_back({REPENT,"f","select"}); v.push_back({REPENT,"#65","sixty five"}); v.push_back({REPENT,"zzz","q"}); }
    for (int k=0;k<4;++k) if (level<=1||k==1) v.push_back({REPFILE,"e",FILES[k][0]});
    if (level<=1) v.push_back({REPTEXT,"e","t.txt"});
    if (level==0) { v.push_back({REPLACE,"//b",""}); v.push_back({REPLACE,"//zzz",""}); }
    for (auto e:{"e","#65","f","lt"}) { if (level==2&&e[0]!='e') continue; v.push_back({SUBENT,e,""}); }
    v.push_back({SUBCHARS,"",""});
    for (auto x:{"n=1","'txt'","&e;","n{m} b=2","//cm",""}) { if (level==2&&(x[0]=='/'||!x[0])) continue; v.push_back({ADD,x,""}); }
    if (level==0) { v.push_back({ADD,"a{",""}); v.push_back({ADD,"<a/>",""}); }
    v.push_back({ADDROOT,"r",""}); if (level<=1) v.push_back({ADDROOT,"b",""});
    for (auto p:{"//b","//c|//b","//@x","//text()","/*"}) { if (level&&strstr(p,"text")) continue; if (level==2&&p[1]!='/') continue; if (level==2&&p[2]!='b') continue; v.push_back({FOREACH,p,SHELL0}); v.push_back({FOREACH,p,SHELL1}); }
    if (level==0) v.push_back({FOREACH,"//[",SHELL0});
    return v;
}
// ---- the reference
struct Skip {}; // the outcome is not specified: only that the tool does not crash
struct Stop {}; // the command must fail
static vector<xmlNode*> find(xmlDoc *d, const string &path, bool elements)
{
    xmlXPathContext *c=xmlXPathNewContext(d); xmlXPathObject *o=xmlXPathEvalExpression((const xmlChar*)path.c_str(),c);
    if (!o) { xmlXPathFreeContext(c); throw Stop(); }
    if (o->type!=XPATH_NODESET) { xmlXPathFreeObject(o); xmlXPathFreeContext(c); throw Skip(); }
    vector<xmlNode*> v; bool skip=false;
    for (int i=0;o->nodesetval&&i<o->nodesetval->nodeNr;++i) {
        xmlNode *n=o->nodesetval->nodeTab[i];
        if (n->type==XML_NAMESPACE_DECL||n->type==XML_DOCUMENT_NODE) { skip=true; continue; }
        if (elements&&n->type==XML_ATTRIBUTE_NODE) n=n->parent;
        if (std::find(v.begin(),v.end(),n)==v.end()) v.push_back(n);
    }
    xmlXPathFreeObject(o); xmlXPathFreeContext(c); if (skip) throw Skip();
    return v;
}
static void cut(xmlNode *n) { xmlUnlinkNode(n); xmlFreeNode(n); }
// adds below the document or an element without joining texts
static void append(xmlNode *parent, xmlNode *n)
{
    n->parent=parent; n->prev=parent->last; n->next=NULL; if (parent->last) parent->last->next=n; else parent->children=n; parent->last=n;
}
static void before(xmlNode *at, xmlNode *n)
{
    n->parent=at->parent; n->next=at; n->prev=at->prev; if (at->prev) at->prev->next=n; else at->parent->children=n; at->prev=n;
}
static void refs(xmlNode *n, vector<xmlNode*> &v)
{
    if (n->type==XML_ENTITY_REF_NODE) { v.push_back(n); return; }
    if (n->type==XML_DTD_NODE) return;
    if (n->type==XML_ELEMENT_NODE) for (xmlAttr *a=n->properties;a;a=a->next) for (xmlNode *c=a->children;c;c=c->next) refs(c,v);
    if (n->type==XML_ELEMENT_NODE||n->type==XML_DOCUMENT_NODE) for (xmlNode *c=n->children;c;c=c->next) refs(c,v);
}
static string uni(int c) { string s; if (c<0x80) s=(char)c; else if (c<0x800) { s=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); } else { s=(char)(0xe0|c>>12); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); } return s; }
static string charvalue(const string &name) { if (name[0]!='#') return ""; return uni(name[1]=='x'?strtol(name.c_str()+2,NULL,16):atoi(name.c_str()+1)); }
static bool entvalue(xmlDoc *d, const string &name, string &out)
{
    if (name[0]=='#') { out=charvalue(name); return true; }
    static const std::map<string,string> P={{"lt","<"},{"gt",">"},{"amp","&"},{"quot","\""},{"apos","'"}};
    xmlEntity *e=d->intSubset?(xmlEntity*)xmlHashLookup((xmlHashTable*)d->intSubset->entities,(const xmlChar*)name.c_str()):NULL;
    if (e) { out=(char*)e->content; return true; }
    auto p=P.find(name); if (p!=P.end()) { out=p->second; return true; }
    return false;
}
static string text(xmlNode *n) // throws Skip on an entity without a value
{
    if (n->type==XML_TEXT_NODE||n->type==XML_CDATA_SECTION_NODE) return n->content?(char*)n->content:"";
    if (n->type==XML_ENTITY_REF_NODE) { string v; if (!entvalue(n->doc,(char*)n->name,v)) throw Skip(); return v; }
    string s; if (n->type==XML_ELEMENT_NODE) for (xmlNode *c=n->children;c;c=c->next) s+=text(c); return s;
}
static string child(xmlNode *n, const char *name)
{
    string s; for (xmlNode *c=n->children;c;c=c->next) if (c->type==XML_ELEMENT_NODE&&!strcmp((char*)c->name,name)) { for (xmlNode *k=c->children;k;k=k->next) if (k->type==XML_ELEMENT_NODE) throw Skip(); s+=text(c); } return s;
}
static string content(const string &f) { if (f=="t.txt") return TEXTFILE; for (auto &x:FILES) if (f==x[0]) return x[1]; return ""; }
struct World { xmlDoc *d; string out; bool known=false; };
static void apply(World &w, const Cmd &c)
{
    xmlDoc *d=w.d;
    switch (c.op) {
    case SELECT: {
        // every matched node once, in document order, without the matched nodes below it
        vector<xmlNode*> v=find(d,c.a,true); xmlDoc *n=xmlNewDoc((const xmlChar*)"1.0"); vector<xmlNode*> copies(v.size());
        for (size_t i=v.size();i-->0;) { copies[i]=xmlDocCopyNode(v[i],n,1); cut(v[i]); }
        for (auto k:copies) append((xmlNode*)n,k);
        xmlFreeDoc(d); w.d=n; break; }
    case DELETE: { vector<xmlNode*> v=find(d,c.a,false); for (size_t i=v.size();i-->0;) cut(v[i]); break; }
    case DELENT: { vector<xmlNode*> v; refs((xmlNode*)d,v); for (auto n:v) if (c.a==(char*)n->name) cut(n); break; }
    case REPENT: case REPTEXT: { string t=c.op==REPTEXT?content(c.b):c.b; vector<xmlNode*> v; refs((xmlNode*)d,v); for (auto n:v) if (c.a==(char*)n->name) { before(n,xmlNewDocText(d,(const xmlChar*)t.c_str())); cut(n); } break; }
    case REPFILE: {
        vector<xmlNode*> v; refs((xmlNode*)d,v); Doc f; string t=content(c.b); if (!xmqParseBufferWithType(f.d,t.c_str(),NULL,NULL,XMQ_CONTENT_DETECT,XMQ_FLAG_TRIM_NONE)) abort();
        for (auto n:v) if (c.a==(char*)n->name) { bool at=n->parent->type==XML_ATTRIBUTE_NODE; for (xmlNode *k=f.x()->children;k;k=k->next) { if (at&&k->type!=XML_TEXT_NODE) throw Skip(); before(n,xmlDocCopyNode(k,d,1)); } cut(n); } break; }
    case REPLACE: w.known=true; break;
    case SUBENT: case SUBCHARS: { vector<xmlNode*> v; refs((xmlNode*)d,v); for (auto n:v) { string t,e=(char*)n->name; if (c.op==SUBCHARS?e[0]!='#':e!=c.a) continue; if (entvalue(d,e,t)) { before(n,xmlNewDocText(d,(const xmlChar*)t.c_str())); cut(n); } } break; }
    case ADD: { Doc f; if (!xmqParseBufferWithType(f.d,c.a.c_str(),NULL,NULL,XMQ_CONTENT_XMQ,0)) throw Stop(); for (xmlNode *k=f.x()->children;k;k=k->next) append((xmlNode*)d,xmlDocCopyNode(k,d,1)); break; }
    case ADDROOT: { xmlNode *r=xmlNewDocNode(d,NULL,(const xmlChar*)c.a.c_str(),NULL); vector<xmlNode*> v; for (xmlNode *k=d->children;k;k=k->next) if (k->type!=XML_DTD_NODE) v.push_back(k); for (auto k:v) { xmlUnlinkNode(k); append(r,k); } append((xmlNode*)d,r); break; }
    case FOREACH: {
        for (xmlNode *n:find(d,c.a,true)) { while (n&&n->type!=XML_ELEMENT_NODE) n=n->parent?n->parent:NULL; if (!n||n->type!=XML_ELEMENT_NODE) continue;
            if (c.b==SHELL0) w.out+=string("[")+(char*)n->name+"]"; else w.out+="["+child(n,"b")+"|"+text(n)+"|"+child(n,"c")+"]"; }
        break; }
    }
}
// the order of namespace declarations carries no meaning
static void sortns(xmlNode *n) { for (;n;n=n->next) if (n->type==XML_ELEMENT_NODE) { vector<xmlNs*> v; for (xmlNs *k=n->nsDef;k;k=k->next) v.push_back(k); std::sort(v.begin(),v.end(),[](xmlNs *a, xmlNs *b){ return string(a->prefix?(char*)a->prefix:"")<string(b->prefix?(char*)b->prefix:""); }); xmlNs **at=&n->nsDef; for (auto k:v) { *at=k; at=&k->next; } *at=NULL; sortns(n->children); } }
static string xmlof(xmlDoc *d) { sortns(d->children); Doc x; xmlDoc *old=x.x(); xmqSetImplementationDoc(x.d,d); Set s; s.fmt=XMQ_CONTENT_XML; string r=print(x.d,s); xmqSetImplementationDoc(x.d,old); return r; }
static bool load(const In &in, XMQDoc *d) { return !in.text||xmqParseBufferWithType(d,in.text,NULL,NULL,in.type,in.flags); }
static void files() { static bool done=false; if (done) return; done=true; for (auto &f:FILES) cli::put(mc::scratch+"/"+f[0],f[1]); cli::put(mc::scratch+"/t.txt",TEXTFILE); }
// the text nodes next to each other are joined in both
static string joined(const string &xmq)
{
    Doc d; if (!xmqParseBufferWithType(d.d,xmq.c_str(),NULL,NULL,XMQ_CONTENT_XMQ,XMQ_FLAG_NOMERGE)) return "the result does not parse: "+string(xmqDocError(d.d)?xmqDocError(d.d):"");
    return xmlof(d.x());
}
static void check(const In &in, const vector<Cmd> &seq, bool xmq)
{
    files();
    vector<string> a=in.args; if (in.text) a.push_back(in.text); for (auto &c:seq) { auto v=args(c); a.insert(a.end(),v.begin(),v.end()); } for (auto &c:in.args) if (in.text&&!strcmp(in.name,"default ns")) xmq=true; // to compare regardless of the order of xmlns
    a.push_back(xmq?"to-xmq":"to-xml");
    string desc; for (auto &x:a) { string e=mc::esc(x); desc+=(desc.empty()?"":" ")+(e.size()>400?e.substr(0,200)+"...("+std::to_string(e.size())+" bytes)":e); } if (desc.size()>2000) desc=desc.substr(0,1000)+"... ("+std::to_string(seq.size())+" commands)";
    if (!run(desc)) return;
    World w; bool stop=false,skip=false; { XMQDoc *q=xmqNewDoc(); if (!load(in,q)) fail("the document does not load"); w.d=xmlCopyDoc((xmlDoc*)xmqGetImplementationDoc(q),1); xmqFreeDoc(q); }
    try { for (auto &c:seq) apply(w,c); } catch (Stop) { stop=true; } catch (Skip) { skip=true; }
    cli::R r=cli::run(a); mc::outcome(r.out);
    if (skip) { xmlFreeDoc(w.d); return; }
    if (stop) { xmlFreeDoc(w.d); if (r.ok()) fail("a command that cannot be carried out, but the exit status is 0"); if (r.out.size()>w.out.size()) fail("output after a failure: %s",q(r.out).c_str()); if (r.err.empty()) fail("no message"); return; }
    int tops=0; for (xmlNode *k=w.d->children;k;k=k->next) tops+=k->type==XML_TEXT_NODE&&k->next&&k->next->type==XML_TEXT_NODE;
    string want=xmlof(w.d); bool kn=w.known; xmlFreeDoc(w.d);
    if (!r.ok()) fail("exit status %d: %s",r.status,q(r.err).c_str());
    if (r.out.compare(0,w.out.size(),w.out)) fail("the shell commands gave %s, expected %s",q(r.out).c_str(),q(w.out).c_str());
    string rest=r.out.substr(w.out.size()),got=xmq?joined(rest):rest;
    if (tops&&got!=want) for (string *x:{&got,&want}) { string y; for (char k:*x) if (k!='\n') y+=k; *x=y; } // top level texts are printed on lines of their own
    if (got!=want) fail("the result is %s\n  expected       %s%s",q(got).c_str(),q(want).c_str(),xmq?("\n  printed as "+q(rest)).c_str():"");
    if (kn) mc::known("KF-replace-noop");
}
static void single() { auto &I=ins(); const In &in=I[choose(I.size())]; static auto C=cmds(0); int c=choose(C.size()),x=choose(2); check(in,{C[c]},x); }
static void pairs() { auto &I=ins(); const In &in=I[choose(I.size())]; static auto C=cmds(1); int c=choose(C.size()),e=choose(C.size()); check(in,{C[c],C[e]},false); }
static void triples() { auto &I=ins(); const In &in=I[choose(I.size())]; static auto C=cmds(mc::thorough()?2:3); vector<Cmd> s; for (int k=0;k<3;++k) s.push_back(C[choose(C.size())]); check(in,s,false); }
static void sizes()
{   // every command on documents whose one dimension has the given size, and long chains of commands
    static const int NN[]={1,2,3,7,8,9,10,11,15,16,17,31,32,33,63,64,65,99,100,101,127,128,129,255,256,257,511,512,513,1000,1024,1025,2048,4096};
    static auto C=cmds(1); static string text; static const bool SOME[]={1,1,0,0,0,1,1,0,0,1,1,0,0,1,0,1,1,0,1,0,0,1,1,0,1,1,0,0,1,0,0,1,0,1}; int kind=choose(8), n=NN[choose(kind==7?23:kind==1?26:34)], c=choose(kind==7?1:C.size()), x=choose(2); auto num=[](int i) { return std::to_string(i); };
    if (kind!=5&&kind!=6&&kind!=7&&C[c].op==FOREACH&&n>65) return;
    if (!mc::thorough()&&(!SOME[std::find(NN,NN+34,n)-NN]||(n>300&&(c+n)%8))) return;
    string s="a{";
    switch (kind) {
    case 0: for (int i=0;i<n;i++) s+="b="+num(i)+" "; s+="c{b}"; break;
    case 1: for (int i=0;i<n;i++) s+=i%2?"c{":"b{"; s+="&e;"; for (int i=0;i<n;i++) s+="}"; break;
    case 2: for (int i=0;i<n;i++) s+=i%3?"&e; ":"'t' "; s+="b(x=&e;)"; break;
    case 3: s+="c("; for (int i=0;i<n;i++) s+="x"+num(i)+(i%2?"=&e; ":"=v "); s+="x=1)=(&e;'z') b"; break;
    case 4: for (int i=0;i<n;i++) s+="c{b(x="+num(i)+")=&e; 't'} "; break;
    case 5: s+="b='"+string(n,'y')+"' c{b(x='"+string(n,'x')+"')='"+string(n,' ')+"'}"; break;
    case 6: s+=string(n,'n')+"(x=1){b} b{"+string(n,'m')+"=&e;}"; break;
    default: s+="b"; }
    s+="}"; text=s; In in={"sized",{"-i"},text.c_str(),XMQ_CONTENT_DETECT,0};
    vector<Cmd> q; if (kind==7) for (int i=0;i<n;i++) { q.push_back(i%3?Cmd{ADD,"b="+num(i),""}:i%2?Cmd{DELETE,"//b[.='"+num(i-2)+"']",""}:Cmd{ADDROOT,"r",""}); } else q.push_back(C[c]);
    check(in,q,x);
}
static void nop(void*,const char*,...) {}
int main(int argc, char **argv)
{
    xmlSetGenericErrorFunc(NULL,nop); xmlSetStructuredErrorFunc(NULL,[](void*,xmlErrorPtr){});
    vector<mc::Phase> p={{"single",single},{"pairs",pairs}}; 
    p.push_back({"triples",triples}); p.push_back({"sizes",sizes});
    return mc::main_(argc,argv,"P20",p);
}
