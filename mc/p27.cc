// P27: logging never changes what is done, and log lines are well formed.
#include "forms.h"
#include "cli.h"
#include "ixrun.h"
#include <libxml/parserInternals.h>
using namespace xq; using namespace forms; using mc::choose; using mc::run; using mc::fail; using ixrun::Stderr;
extern "C" bool xmqVerbose();
static vector<string> lines(const string &s) { vector<string> v; size_t a=0; while (a<s.size()) { size_t b=s.find('\n',a); if (b==string::npos) { v.push_back(s.substr(a)); break; } v.push_back(s.substr(a,b-a)); a=b+1; } return v; }
// one line, one element, valid xmq
static bool logline(const string &l)
{
    Parsed p; if (l.empty()||!parse(p,l,XMQ_CONTENT_XMQ)) return false; int n=0;
    for (xmlNode *c=p.doc.x()->children;c;c=c->next) { if (c->type!=XML_ELEMENT_NODE) return false; n++; }
    return n==1;
}
// a log line for people
static bool hrline(const string &l) { if (l.empty()||l[0]!='(') return false; size_t e=l.find(')'); if (e==string::npos||e==1) return false; for (size_t i=1;i<e;++i) if (!(isalnum((unsigned char)l[i])||strchr("._-",l[i]))) return false; return e+1<l.size()&&l[e+1]==' '; }
static string content(xmlNode *e) { string r; if (e) for (xmlNode *c=e->children;c;c=c->next) { if (const char *p=predefined(c)) r+=p; else if (is_text(c)) r+=cs(c->content); else if (c->type==XML_ENTITY_REF_NODE) { string n=cs(c->name); if (n[0]!='#') fail("an entity %s",n.c_str()); long v=n[1]=='x'?strtol(n.c_str()+2,NULL,16):strtol(n.c_str()+1,NULL,10); char b[8]; int l=xmlCopyCharMultiByte(BAD_CAST b,v); r.append(b,l); } else fail("a node of type %d in a value",c->type); } return r; }
// the messages of the run without logging must be among the lines, in order; gives the other lines
static vector<string> without(const string &what, const vector<string> &all, const vector<string> &base)
{
    vector<string> o; size_t k=0;
    for (auto &l:all) { if (k<base.size()&&l==base[k]) { k++; continue; } o.push_back(l); }
    if (k<base.size()) fail("%s\n  with logging the message is gone: %s\n  all lines: %s",what.c_str(),base[k].c_str(),mc::esc([&]{string s; for (auto &l:all) s+=l+"\n"; return s;}()).substr(0,600).c_str());
    return o;
}
static const char *FILES[][2]={
    {"a.xmq","a { b=1 c{d=x y='z w' d=&e; } // hej\n e(k=v l)='x\ny' }"},{"b.xmq","!DOCTYPE = a a='''it's''' "},{"j.json","{\"a\":[1,\"b\\n\",{\"c\":null}],\"_\":true}"},{"h.html","<html><body><p class=x>hej<br>&amp;</p><script>a<b</script></body></html>"},
    {"x.xml","<a xmlns:p=\"u\"><!--c--><p:b k='v'> t </p:b><![CDATA[x]]></a>"},{"g.ixml","a = b, ','?, c+. b = 'x'. c = ['0'-'9']; -'y'."},{"t.txt","x,12"},{"bad.xmq","a { b="},{"bad.json","{\"a\""},{"bad.xml","<a><b>"},{"bad.ixml","a = b"},{"amb.ixml","a = b | c. b='x'. c='x'."},
    {"s.xslt","<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:param name='p'/><xsl:template match='/'><r p='{$p}'><xsl:value-of select='//b'/></r></xsl:template></xsl:stylesheet>"},
    {"s.xsd","<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'><xs:element name='a' type='xs:string'/></xs:schema>"},
    {"e.ent","hello"},
};
static const vector<vector<string>> SRC={{"a.xmq"},{"b.xmq"},{"j.json"},{"h.html"},{"x.xml"},{"g.ixml"},{"--xml-of-ixml","g.ixml"},{"--text","t.txt"},{"--ixml=g.ixml","t.txt"},{"--ixml=amb.ixml","-i","x"},{"--ixml=g.ixml","-i","q"},{"--ixml=bad.ixml","t.txt"},{"bad.xmq"},{"bad.json"},{"bad.xml"},{"none.xmq"},{"--root=r","a.xmq"},{"--trim=none","x.xml"},{"-z"},{"-i","a{b}"},{"--clines","-i","/a/b = 1"},{"--trim=none","--html","h.html"},{"--nomerge","a.xmq"},{"--ixml=g.ixml","--lines","t.txt"},{"--ixml=amb.ixml","--ixml-all-parses","-i","x"},{"--ixml=g.ixml","--ixml-try-to-recover","-i","x,1q2"}};
static const vector<vector<string>> CMD={{},{"to-xmq","--compact"},{"to-xml"},{"to-html"},{"to-json"},{"to-text"},{"to-clines"},{"render-html"},{"render-tex","--theme=blackbw"},{"render-terminal","--color"},{"tokenize","--type=debugtokens"},
    {"select","//b"},{"select","//nope"},{"select","]["},{"delete","//c"},{"delete","//nope"},{"delete-entity","e"},{"replace","//b","NEW"},{"replace","--with-file=j.json","//b"},{"replace-entity","e","12"},{"add","q{r=1}"},{"add-root","top"},{"add-root"},{"statistics"},{"transform","--stringparam=p=q","s.xslt"},{"transform","nope.xslt"},{"validate","s.xsd"},{"validate","nope.xsd"},
    {"save-to","out.xmq"},{"no-output"},{"for-each","//b","--shell=echo hi"},{"quote-c"},{"unquote-c"},{"substitute-entity","e","x"},{"substitute-char-entities"},{"help"},{"nosuchcommand"},{"to-xmq","--nosuchoption"},{"to-xmq","to-xml"},{"select"},{"save-to","nodir"},{"add-id"},{"entify"}};
static const vector<vector<string>> LEVEL={{"--verbose"},{"--debug"},{"--trace"},{"--verbose","--debug","--trace"}};
static bool set_up() { static pid_t p=0; if (p==getpid()) return true; p=getpid(); if (chdir(mc::scratch.c_str())) fail("no scratch directory"); for (auto &f:FILES) cli::put(f[0],f[1]); return true; }
static vector<string> cat(std::initializer_list<vector<string>> l) { vector<string> o; for (auto &v:l) o.insert(o.end(),v.begin(),v.end()); return o; }
static bool has(const vector<string> &v, const char *s) { for (auto &x:v) if (x.find(s)!=string::npos) return true; return false; }
static void compare(const vector<string> &src, const vector<string> &cmds, const vector<string> &level, int fmt)
{
    static const vector<vector<string>> F={{},{"--log-xmq"},{"-lx"}};
    set_up(); unlink("out.xmq"); cli::R b=cli::run(cat({src,cmds})); string bs=cli::file("out.xmq"); unlink("out.xmq");
    auto av=cat({level,F[fmt],src,cmds}); cli::R r=cli::run(av); string rs=cli::file("out.xmq"); unlink("out.xmq"); string w=cli::join(av);
    if (r.status!=b.status) fail("%s\n  gives exit status %d, without logging it is %d\n  %s",w.c_str(),r.status,b.status,mc::esc(r.err).substr(0,600).c_str());
    if (r.out!=b.out) fail("%s\n  prints  %s\n  without logging it is %s",w.c_str(),mc::esc(r.out).substr(0,900).c_str(),mc::esc(b.out).substr(0,900).c_str());
    if (rs!=bs) fail("%s\n  saves  %s\n  without logging it is %s",w.c_str(),mc::esc(rs).c_str(),mc::esc(bs).c_str());
    auto log=without(w,lines(r.err),lines(b.err)); mc::outcome(string(b.status==0?"ok":"fails"));
    if (log.empty()) { if (level.size()&&b.status==0) fail("%s\n  logs nothing",w.c_str()); return; }
    if (level.empty()) fail("%s\n  logs without being asked to: %s",w.c_str(),log[0].c_str());
    if (has(src,"ixml")) return; // the grammar and the states of the yaep parser are dumped in a format of their own
    for (auto &l:log) { mc::count(0); if (fmt ? !logline(l) : !hrline(l)) { if (!fmt&&l.empty()) continue; fail("%s\n  writes the line: %s",w.c_str(),mc::esc(l).c_str()); } }
}
static void ph_cli()
{
    int s=choose(SRC.size()),c=choose(CMD.size()),l=choose(LEVEL.size()),f=choose(2);
    if (!run([&]()->string{ return cli::join(cat({LEVEL[l],SRC[s],CMD[c]}))+(f?" xmq":" hr"); }())) return;
    compare(SRC[s],CMD[c],LEVEL[l],f);
}
static void ph_chains()
{
    vector<string> c; int n=2; vector<int> k; for (int i=0;i<n;++i) { k.push_back(choose(CMD.size())); auto &v=CMD[k.back()]; c.insert(c.end(),v.begin(),v.end()); } int s=choose(mc::tier_pick(1,4)),f=1+choose(2),l=choose(mc::tier_pick(1,3));
    static const int S[]={0,4,2,3}; if (!run([&]()->string{ return cli::join(cat({SRC[S[s]],c}))+" "+std::to_string(f)+std::to_string(l); }())) return;
    compare(SRC[S[s]],c,mc::thorough()?LEVEL[l]:LEVEL[2],f);
}
// what is logged about arguments and contents with every character
static const vector<string> CH={"a"," ","'","\"","\n","\t","\\","%","%s","%n","{","}","(",")","=","&","/","//","/*","#","\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80","\r"};
static void ph_words()
{
    int place=choose(6); string t; for (int i=0,n=choose(3);i<n;++i) t+=CH[choose(CH.size())]; int f=choose(2);
    if (!run([&]()->string{ return std::to_string(place)+" "+mc::esc(t)+(f?" xmq":" hr"); }())) return;
    vector<string> src={"a.xmq"},c; 
    if (place==0) c={"select",t}; else if (place==1) c={"replace-entity","e",t}; else if (place==2) c={"transform","--stringparam=p="+t,"s.xslt"}; else if (place==3) src={"-i",t},c={"to-xml"}; else if (place==4) c={"add",t}; else src={"-z"},c={"quote-c",t};
    if (f==0) { // a line for people shows the word as it is
        set_up(); cli::R b=cli::run(cat({src,c})),r=cli::run(cat({{"--debug"},src,c})); auto w=cli::join(cat({src,c}));
        if (r.status!=b.status||r.out!=b.out) fail("%s\n  --debug gives %d %s, without it is %d %s",w.c_str(),r.status,mc::esc(r.out).c_str(),b.status,mc::esc(b.out).c_str());
        without(w,lines(r.err),lines(b.err)); return;
    }
    compare(src,c,LEVEL[1],f);
}
// the library: everything it gives is the same, nothing is logged by default, every log line is well formed
struct Seen { bool ok; int err; string msg,tree,x,c,j,xm,h,t; int n; bool operator==(const Seen &o) const { return ok==o.ok&&err==o.err&&msg==o.msg&&tree==o.tree&&x==o.x&&c==o.c&&j==o.j&&xm==o.xm&&h==o.h&&t==o.t&&n==o.n; } string str() const { return mc::esc(std::to_string(ok)+" "+std::to_string(err)+" "+msg+" "+tree+" "+x+c+j+xm+h+t).substr(0,900); } };
static XMQProceed look(XMQDoc*, XMQNode*, void *u) { ++*(int*)u; return XMQ_CONTINUE; }
static Seen see(const string &s, XMQContentType ct, int flags, XMQDoc *g, string &log)
{
    Seen r; r.n=0; Stderr se; { Doc d; mc::Exact e(s);
    r.ok=g?xmqParseBufferWithIXML(d.d,e.start,e.stop,g,flags):xmqParseBufferWithType(d.d,e.start,e.stop,NULL,ct,flags); r.err=xmqDocErrno(d.d); const char *m=xmqDocError(d.d); r.msg=m?m:"";
    if (r.ok) { r.tree=dump(d.x()); xmqForeach(d.d,"//*",look,&r.n); Set a; r.x=print(d.d,a); a.compact=true; r.c=print(d.d,a); a=Set(); a.render=XMQ_RENDER_HTML; a.color=true; r.h=print(d.d,a); a=Set(); a.fmt=XMQ_CONTENT_TEXT; r.t=print(d.d,a); a.fmt=XMQ_CONTENT_XML; r.xm=print(d.d,a); if (xmqGetRootNode(d.d)) { a.fmt=XMQ_CONTENT_JSON; r.j=print(d.d,a); } } }
    log=se.done(); return r;
}
static void levels(int l, bool hr) { xmqSetVerbose(l>=1); xmqSetDebug(l>=2); xmqSetTrace(l>=3); xmqSetLogHumanReadable(hr); }
static void same(const string &what, const std::function<Seen(string&)> &f, int l, bool hr, bool shaped)
{
    static int o=-1; if (o<0) { o=memfd_create("stdout",0); fflush(stdout); dup2(o,1); setvbuf(stdout,NULL,_IONBF,0); }
    string b,g; levels(0,false); Seen x=f(b); levels(l,hr); Seen y=f(g); levels(0,false);
    if (!(x==y)) fail("%s\n  at level %d gives %s\n  otherwise %s",what.c_str(),l,y.str().c_str(),x.str().c_str());
    fflush(stdout); struct stat st; fstat(1,&st); if (st.st_size) { string o(st.st_size,0); ssize_t n=pread(1,&o[0],o.size(),0); (void)n; if (ftruncate(1,0)) {} fail("%s\n  writes on standard output: %s",what.c_str(),mc::esc(o).substr(0,600).c_str()); }
    auto log=without(what,lines(g),lines(b));
    if (shaped) for (auto &q:log) { mc::count(0); if (!(hr?hrline(q)||q.empty():logline(q))) fail("%s\n  at level %d writes the line: %s",what.c_str(),l,mc::esc(q).c_str()); }
    mc::outcome(string(x.ok?"ok":"rejected"));
}
static void ph_xmq()
{
    static const vector<string> A={"a","{","}","=","'"," ","\n","&","(",")","//","x","!","/*","\"","1",":",";","<",">","[","]",","}; static const XMQContentType CT[]={XMQ_CONTENT_XMQ,XMQ_CONTENT_HTMQ,XMQ_CONTENT_XML,XMQ_CONTENT_HTML,XMQ_CONTENT_JSON,XMQ_CONTENT_DETECT,XMQ_CONTENT_TEXT,XMQ_CONTENT_CLINES};
    string s; for (int i=0,n=choose(mc::tier_pick(4,5));i<n;++i) s+=A[choose(A.size())]; int c=choose(8);
    if (!run([&]()->string{ return mc::esc(s)+" type "+std::to_string(CT[c]); }())) return;
    same(mc::esc(s),[&](string &g){ return see(s,CT[c],0,NULL,g); },3,false,CT[c]!=XMQ_CONTENT_DETECT);
}
static void ph_docs()
{
    int n=1+choose(2); vector<int> k; for (int i=0;i<n;++i) k.push_back(choose(NF)); int l=1+choose(3),hr=choose(2),fl=choose(3); static const int FL[]={0,XMQ_FLAG_TRIM_NONE,XMQ_FLAG_NOMERGE};
    if (!run([&]()->string{ string s; for (int i:k) s+=std::to_string(i)+" "; return "forms "+s+"level "+std::to_string(l)+(hr?" hr":"")+" flags "+std::to_string(fl); }())) return;
    Doc d; xmlNode *r=xmlNewDocNode(d.x(),NULL,BAD_CAST "root",NULL); xmlDocSetRootElement(d.x(),r); D=d.x(); for (int i:k) F[i].make(r);
    Set a; string x=print(d.d,a); a.fmt=XMQ_CONTENT_XML; string xm=print(d.d,a);
    same(mc::esc(x),[&](string &g){ return see(x,XMQ_CONTENT_XMQ,FL[fl],NULL,g); },l,hr,true);
    same(mc::esc(xm),[&](string &g){ return see(xm,XMQ_CONTENT_XML,FL[fl],NULL,g); },l,hr,true);
}
static void ph_ixml()
{
    static const vector<string> G={"a = b, ','?, c+. b = 'x'. c = ['0'-'9']; -'y'.","a = b | c. b='x'. c='x'.","a = 'x'*, @k. k = ['y';'0'-'9']*.","a = ~['x'], +'in', -b. ^b = [L]**','.","a = b","a = 'x","a = #41, #e5, 'x'++','.","S: A, S; . A: 'x' | 'y'; '0'.","-a = b, c. b>k='x'. @c='y'|."};
    static const vector<string> W={"x","y",",","0","\xc3\xa5","A"}; int g=choose(G.size()); string t; for (int i=0,n=choose(4);i<n;++i) t+=W[choose(W.size())]; int l=1+choose(3),fl=choose(3); static const int FL[]={0,XMQ_FLAG_IXML_ALL_PARSES,XMQ_FLAG_IXML_TRY_TO_RECOVER};
    if (!run([&]()->string{ return mc::esc(G[g])+" on "+mc::esc(t)+" level "+std::to_string(l)+" flags "+std::to_string(fl); }())) return;
    auto f=[&](string &log){ Stderr se; Doc gr; Seen r; if (!xmqParseBufferWithType(gr.d,G[g].c_str(),NULL,NULL,XMQ_CONTENT_IXML,0)) { r.ok=false; r.n=0; r.err=xmqDocErrno(gr.d); const char *m=xmqDocError(gr.d); r.msg=m?m:""; log=se.done(); return r; } string l2; r=see(t,XMQ_CONTENT_DETECT,FL[fl],gr.d,l2); log=se.done(); log=l2+log; return r; };
    same(G[g]+" on "+t,f,l,false,false);
}
// what was set is what is told
static void ph_switches()
{
    vector<int> ops; for (int i=0,n=choose(6);i<n;++i) ops.push_back(choose(8));
    if (!run([&]()->string{ string s="switches"; for (int o:ops) s+=" "+std::to_string(o); return s; }())) return;
    levels(0,false); bool v=false,d=false,t=false; Stderr se;
    for (int o:ops) { bool e=o&1; switch (o/2) { case 0: xmqSetVerbose(e); v=e; break; case 1: xmqSetDebug(e); d=e; break; case 2: xmqSetTrace(e); t=e; break; default: xmqSetLogHumanReadable(e); }
        if (xmqDebugging()!=d||xmqTracing()!=t||xmqVerbose()!=v) fail("after switch %d: verbose %d debug %d trace %d, it is %d %d %d",o,v,d,t,xmqVerbose(),xmqDebugging(),xmqTracing()); }
    levels(0,false); string s=se.done(); if (s.size()) fail("switching logging writes %s",mc::esc(s).c_str());
}
// lines made by the user of the library
static const vector<string> VAL={"","a","a b","it's","''","\n","x\ny","'\n'","%d","a=b","{}","(x)","\xc3\xa5","&#10;","//c","42","\\"};
static string call(XMQLineConfig *lc, const string &name, const vector<std::pair<string,string>> &kv)
{
    char *l=NULL; const char *n=name.c_str();
#define KV(i) kv[i].first.c_str(),"%s",kv[i].second.c_str()
    switch (kv.size()) { case 0: l=xmqLinePrintf(lc,n,"}"); break; case 1: l=xmqLinePrintf(lc,n,KV(0),"}"); break; case 2: l=xmqLinePrintf(lc,n,KV(0),KV(1),"}"); break; case 3: l=xmqLinePrintf(lc,n,KV(0),KV(1),KV(2),"}"); break; default: l=xmqLinePrintf(lc,n,KV(0),KV(1),KV(2),KV(3),"}"); }
    string r=l; free(l); return r;
}
static void ph_object()
{
    int n=choose(mc::tier_pick(4,5)),nm=choose(2); vector<std::pair<string,string>> kv; static const char *K[]={"k=","size=","a.b=","x-y="}; for (int i=0;i<n;++i) kv.push_back({K[i],VAL[choose(VAL.size())]});
    string name=nm?"xmq.cli{":"car{";
    if (!run([&]()->string{ string s=name; for (auto &p:kv) s+=" "+p.first+mc::esc(p.second); return s; }())) return;
    XMQLineConfig *lc=xmqNewLineConfig(); string x=call(lc,name,kv); xmqSetLineHumanReadable(lc,true); string h=call(lc,name,kv); xmqSetLineHumanReadable(lc,false); string x2=call(lc,name,kv); xmqFreeLineConfig(lc);
    string en=name.substr(0,name.size()-1);
    if (x!=x2) fail("the line is %s, and after human readable lines %s",mc::esc(x).c_str(),mc::esc(x2).c_str());
    if (x.find('\n')!=string::npos) fail("the line has a newline: %s",mc::esc(x).c_str());
    Parsed p; if (!parse(p,x,XMQ_CONTENT_XMQ)) fail("the line is no xmq: %s\n  %s",mc::esc(x).c_str(),p.msg.c_str());
    xmlNode *r=xmlDocGetRootElement(p.doc.x()); if (!r||en!=(const char*)r->name||r->next||r->prev||r->properties) fail("the line %s is not one %s",mc::esc(x).c_str(),en.c_str());
    xmlNode *c=r->children; for (auto &q:kv) { if (!c||c->type!=XML_ELEMENT_NODE||q.first!=string((const char*)c->name)+"="||c->properties) fail("the line %s does not give %s",mc::esc(x).c_str(),q.first.c_str()); string g=content(c); if (g!=q.second) fail("the line %s gives %s%s, it is %s",mc::esc(x).c_str(),q.first.c_str(),mc::esc(g).c_str(),mc::esc(q.second).c_str()); c=c->next; }
    if (c) fail("the line %s says more",mc::esc(x).c_str());
    // for people: (name) followed by the keys and values as they are
    size_t at=0; auto eat=[&](const string &w) { if (h.compare(at,w.size(),w)) fail("the human readable line is %s, at byte %zu it should say %s",mc::esc(h).c_str(),at,mc::esc(w).c_str()); at+=w.size(); };
    eat("("+en+")");
    for (auto &q:kv) { eat(" "+q.first.substr(0,q.first.size()-1)); if (at>=h.size()||(h[at]!='='&&h[at]!=':')) fail("the human readable line is %s, nothing between key and value",mc::esc(h).c_str()); at++; eat(q.second); }
    string rest=h.substr(at); if (rest!=""&&rest!=" ") fail("the human readable line %s ends with %s",mc::esc(h).c_str(),mc::esc(rest).c_str());
}
static void ph_single()
{
    string v; for (int i=0,n=choose(4);i<n;++i) v+=CH[choose(CH.size())]; int form=choose(4);
    if (!run([&]()->string{ return std::to_string(form)+" "+mc::esc(v); }())) return;
    XMQLineConfig *lc=xmqNewLineConfig(); if (form&1) xmqSetLineHumanReadable(lc,true); string big; char *l;
    if (form<2) l=xmqLinePrintf(lc,"xmq=","size=%d name=%s",7,v.c_str()); else { string f; for (char c:v) f+=c=='%'?string("%%"):string(1,c); f+="."; l=xmqLinePrintf(lc,f.c_str()); if (f.back()!='.') {} }
    string r=l; free(l); xmqFreeLineConfig(lc);
    string want=form<2?"size=7 name="+v:v+".";
    if (form==1) { if (r!="(xmq) "+want) fail("human readable: %s, it is %s",mc::esc(r).c_str(),mc::esc(want).c_str()); }
    else if (form==3) { if (r!="(log) "+want) fail("human readable: %s, it is %s",mc::esc(r).c_str(),mc::esc(want).c_str()); }
    else {
        if (r.find('\n')!=string::npos) fail("the line has a newline: %s",mc::esc(r).c_str());
        Parsed p; if (!parse(p,r,XMQ_CONTENT_XMQ)) fail("the line is no xmq: %s",mc::esc(r).c_str()); xmlNode *e=xmlDocGetRootElement(p.doc.x()); string g=content(e);
        if (!e||g!=want||strcmp((const char*)e->name,form?"log":"xmq")||e->next) fail("the line %s gives %s, it is %s",mc::esc(r).c_str(),mc::esc(g).c_str(),mc::esc(want).c_str());
    }
}
// long values: at and around every buffer size
static void ph_sizes()
{
    int base=choose(8),d=choose(7),form=choose(4),kind=choose(3); static const int B[]={64,512,1000,1024,2048,4096,8192,65536}; string v; size_t n=B[base]+d-3; while (v.size()<n) v+=kind==0?"a":kind==1?"'":(v.size()%50==49?"\n":" x"); v.resize(n);
    if (!run([&]()->string{ return "size "+std::to_string(n)+" form "+std::to_string(form)+" kind "+std::to_string(kind); }())) return;
    XMQLineConfig *lc=xmqNewLineConfig(); xmqSetLineHumanReadable(lc,form&1); char *l=form<2?xmqLinePrintf(lc,"xmq=","%s",v.c_str()):xmqLinePrintf(lc,"xmq{","k=","%s",v.c_str(),"z=","%d",5,"}"); string r=l; free(l); xmqFreeLineConfig(lc);
    if (form==1) { if (r!="(xmq) "+v) fail("a line of %zu bytes came out with %zu",v.size(),r.size()); return; }
    if (form==3) { if (r.find(v)==string::npos||r.find("z")==string::npos) fail("a value of %zu bytes came out damaged",v.size()); return; }
    if (r.find('\n')!=string::npos) fail("the line has a newline"); Parsed p; if (!parse(p,r,XMQ_CONTENT_XMQ)) fail("the line is no xmq: %s",p.msg.c_str());
    xmlNode *e=xmlDocGetRootElement(p.doc.x()); if (form==2) e=e->children; string g=content(e); if (g!=v) fail("a value of %zu bytes came back with %zu",v.size(),g.size());
}
int main(int argc, char **argv)
{
    quiet(); mc::counter_names[0]="log lines checked";
    return mc::main_(argc,argv,"P27",{{"cli",ph_cli},{"chains",ph_chains},{"words",ph_words},{"xmq",ph_xmq},{"docs",ph_docs},{"ixml",ph_ixml},{"switches",ph_switches},{"object",ph_object},{"single",ph_single},{"sizes",ph_sizes}});
}
