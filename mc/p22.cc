// P22: printing is pure, documents are independent, whatever was done before, in between or inside callbacks.
#include "forms.h"
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <map>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

struct Src { const char *name; XMQContentType type; int flags; const char *text; };
static const Src S[]={
    {"xmq",XMQ_CONTENT_XMQ,0,"//before\na(k=v l='x y')\n{\n b='one\n   two'\n c=('q'&#10;'r')\n /*note*/ d(t='\ttab')\n e=\xc3\xa5\xe2\x82\xac {}\n}\n//after"},
    {"xmqns",XMQ_CONTENT_XMQ,0,"p:a(xmlns:p=u xmlns=w p:k=v){q(xmlns=x){p:b}}"},
    {"xml",XMQ_CONTENT_XML,XMQ_FLAG_TRIM_NONE,"<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY e 'ent'>]><?pi do?><a k='v&#10;w'> x &e; <b/><![CDATA[<c>]]><!--com--><b>\n  y\n  z\n</b> </a>"},
    {"xmltrim",XMQ_CONTENT_XML,XMQ_FLAG_TRIM_HEURISTIC,"<a>\n  <b> x\n     y </b>\n  <c k='1'/>\n</a>"},
    {"html",XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_NONE,"<!DOCTYPE html><html><head><script>if (a<b) c();</script><style>p > q {}</style></head><body><p class=x hidden>a&nbsp;b<br>c</p><!--n--><img src=i></body></html>"},
    {"htmltrim",XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_HEURISTIC,"<html>\n<body>\n <p>a <b>b</b> c</p>\n <pre>x\n  y</pre>\n</body>\n</html>"},
    {"htmq",XMQ_CONTENT_HTMQ,0,"!DOCTYPE=html html{head{title=T}body{p='a b' br img(src=x)}}"},
    {"json",XMQ_CONTENT_JSON,0,"{\"_\":\"r\",\"a\":[1,\"2\",true,null,{\"b c\":\"\"},[]],\"//\":\"note\",\"d\":1.5e3,\"e\":{}}"},
    {"jsonarr",XMQ_CONTENT_JSON,0,"[1,[2,\"x\\ny\"],{\"k\":false}]"},
    {"text",XMQ_CONTENT_TEXT,0,"line one\n  line <two> & 'quote'\n"},
    {"deep",XMQ_CONTENT_XMQ,0,"a{b{c{d{e{f(k=v){g=1 h='x\ny'}}}}}}"},
    {"bad",XMQ_CONTENT_XMQ,0,"a{b=1 c{ }"},
    {"badxml",XMQ_CONTENT_XML,0,"<a><b></a>"},
    {"comment",XMQ_CONTENT_XMQ,0,"/* only */"},
    {"numbers",XMQ_CONTENT_XMQ,0,"r{a=0x10 a=077 a=12 f=1.5 t=true u=\"'q'\" v=(&nbsp; x='y')}"},
    {"value",XMQ_CONTENT_XMQ,0,"r{t='true' s(S)=12 n=null arr(A){_=1 _='2'} obj{k(_='a b')=v} &amp; 'x'}"},
};
static const int NS=sizeof S/sizeof*S;
struct St { const char *name; Set s; };
static vector<St> P;
static void add(const char *n, std::function<void(Set&)> f) { Set s; f(s); P.push_back({n,s}); }
static void settings()
{
    add("xmq",[](Set&){}); add("compact",[](Set&s){s.compact=true;}); add("escapes",[](Set&s){s.nl=s.tab=s.non7=true;}); add("indent2",[](Set&s){s.indent=2;}); add("indent0",[](Set&s){s.indent=0;});
    add("compact7",[](Set&s){s.compact=true;s.non7=s.tab=true;});
    add("terminal",[](Set&s){s.render=XMQ_RENDER_TERMINAL;s.color=true;}); add("termlight",[](Set&s){s.render=XMQ_RENDER_TERMINAL;s.color=true;s.dark=false;}); add("html",[](Set&s){s.render=XMQ_RENDER_HTML;s.color=true;}); add("htmlraw",[](Set&s){s.render=XMQ_RENDER_HTML;s.color=true;s.raw=true;s.compact=true;}); add("tex",[](Set&s){s.render=XMQ_RENDER_TEX;s.color=true;});
    add("htmq",[](Set&s){s.fmt=XMQ_CONTENT_HTMQ;});
    add("xml",[](Set&s){s.fmt=XMQ_CONTENT_XML;}); add("xmlomit",[](Set&s){s.fmt=XMQ_CONTENT_XML;s.omit=true;}); add("asHtml",[](Set&s){s.fmt=XMQ_CONTENT_HTML;}); add("json",[](Set&s){s.fmt=XMQ_CONTENT_JSON;}); add("jsoncompact",[](Set&s){s.fmt=XMQ_CONTENT_JSON;s.compact=true;}); add("text",[](Set&s){s.fmt=XMQ_CONTENT_TEXT;}); add("clines",[](Set&s){s.fmt=XMQ_CONTENT_CLINES;});
}
static XMQDoc *load(int i)
{
    mc::Exact e(S[i].text); XMQDoc *d=xmqNewDoc(); xmqParseBufferWithType(d,e.start,e.stop,NULL,S[i].type,S[i].flags); return d;
}
// mutations of a document
enum { TRIM, REPL, NMUT };
static void mutate(XMQDoc *d, int m)
{
    if (m==TRIM) xmqTrimWhitespace(d,XMQ_FLAG_TRIM_HEURISTIC); else { xmlNode *r=xmlDocGetRootElement((xmlDoc*)xmqGetImplementationDoc(d)); if (r) { xmlNodeSetName(r,X("renamed")); xmlSetProp(r,X("k2"),X("a\nb")); } }
}
static string errors(XMQDoc *d) { const char *e=xmqDocError(d); return std::to_string(xmqDocErrno(d))+":"+(e?e:"-"); }
// What a process that does nothing else observes.
static std::map<string,string> base;
static string isolated(const std::function<string()> &f)
{
    int p[2]; if (pipe(p)) exit(3); fflush(NULL); pid_t c=fork();
    if (!c) { close(p[0]); string s=f(); s+='!'; size_t o=0; while (o<s.size()) { ssize_t n=write(p[1],s.data()+o,s.size()-o); if (n<=0) _exit(1); o+=n; } _exit(0); }
    close(p[1]); string s; char b[65536]; ssize_t n; while ((n=read(p[0],b,sizeof b))>0) s.append(b,n); close(p[0]); int st; waitpid(c,&st,0);
    if (s.empty()||s.back()!='!') { return "(crashed)"; } s.pop_back(); return s;
}
static string key(const string &doc, const string &what) { return doc+"|"+what; }
static string docname(int i, const string &muts) { return string(S[i].name)+muts; }
static string getb(const string &k) { auto i=base.find(k); if (i==base.end()) { fprintf(stderr,"no baseline %s\n",k.c_str()); _exit(3); } return i->second; }
static XMQDoc *load2(int i, const string &m) { XMQDoc *d=load(i); for (char c:m) mutate(d,c-'0'); return d; }
static const int HS[]={0,2,4,7}; // sources in histories
static const char *HP[]={"xmq","compact","json","xml","asHtml","terminal"};
static const Set &setting(const string &n) { for (auto &s:P) if (n==s.name) return s.s; _exit(3); }
static const char *XP[]={"//b","//*","//a[last()]","//nothing","/a/b"};
struct Visit { string log; int stop; std::function<void()> inside; };
static XMQProceed visit(XMQDoc *d, XMQNode *n, void *u) { Visit *v=(Visit*)u; v->log+="["; const char *a=xmqGetName(n); v->log+=a?a:"-"; v->log+="="; a=xmqGetContent(n); v->log+=a?a:"-"; v->log+="]"; if (v->inside) v->inside(); return XMQ_CONTINUE; }
static string query(XMQDoc *d, std::function<void()> inside=nullptr)
{
    string o; for (auto x:XP) { Visit v; v.inside=inside; int n=xmqForeach(d,x,visit,&v); o+=std::to_string(n)+v.log; const char *s=xmqGetString(d,x); o+=s?s:"(null)"; o+=" "+std::to_string(xmqGetInt(d,x))+" "+std::to_string(xmqGetDouble(d,x)); }
    return o;
}
static const char *TS[]={"a{b='x\ny' c(d=1)=&nbsp;}//t","a{b='"};
struct CB { std::function<void()> inside; string *o; };
static string tokenize(int t, int mode=0)
{
    mc::Exact e(TS[t]); XMQParseCallbacks *cb=xmqNewParseCallbacks(); XMQOutputSettings *os=xmqNewOutputSettings();
    if (mode==0) xmqSetupParseCallbacksDebugTokens(cb); else { xmqSetRenderFormat(os,XMQ_RENDER_TERMINAL); xmqSetUseColor(os,true); xmqSetRenderRaw(os,true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb,XMQ_RENDER_TERMINAL); }
    char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b); XMQParseState *st=xmqNewParseState(cb,os); bool ok=xmqTokenizeBuffer(st,e.start,e.stop);
    string r=ok?"ok ":"bad "; const char *m=xmqStateErrorMsg(st); if (m) r+=m; if (a) r.append(a,b); free(a); xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os); return r;
}
static void muts(int depth, const string &m, std::function<void(const string&)> f) { f(m); if (depth) for (int k=0;k<NMUT;k++) muts(depth-1,m+char('0'+k),f); }
static void baselines()
{
    for (int i=0;i<NS;i++) {
        for (auto &p:P) base[key(S[i].name,p.name)]=isolated([&]{ XMQDoc *d=load(i); return print(d,p.s); });
        base[key(S[i].name,"tree")]=isolated([&]{ XMQDoc *d=load(i); return dump((xmlDoc*)xmqGetImplementationDoc(d)); });
        base[key(S[i].name,"errors")]=isolated([&]{ XMQDoc *d=load(i); return errors(d); });
        base[key(S[i].name,"query")]=isolated([&]{ XMQDoc *d=load(i); return query(d); });
    }
    for (int h:HS) muts(4,"",[&](const string &m){
        for (auto n:HP) base[key(docname(h,m),n)]=isolated([&]{ XMQDoc *d=load2(h,m); return print(d,setting(n)); });
        base[key(docname(h,m),"query")]=isolated([&]{ XMQDoc *d=load2(h,m); return query(d); }); });
    for (int t=0;t<2;t++) for (int m=0;m<2;m++) base[key("tokens",std::to_string(t*2+m))]=isolated([&]{ return tokenize(t,m); });
    for (auto &b:base) if (b.second=="(crashed)") { } // reported when compared: the harness crashes as well
}
static void same(const string &got, const string &k, const char *when) { string w=getb(k); mc::outcome(got); if (got!=w) fail("%s of %s differs\n  got      %s\n  expected %s",when,k.c_str(),q(got).c_str(),q(w).c_str()); }

// every document, every ordered pair of settings; a second document printed in between
static void pairs()
{
    int i=choose(NS),a=choose(P.size()),b=choose(P.size()),between=choose(3);
    if (!run(string(S[i].name)+" print "+P[a].name+", "+(between==1?"another document, ":between==2?"tokenize, ":"")+P[b].name+", "+P[a].name)) return;
    Doc d(load(i)); string t=getb(key(S[i].name,"tree"));
    auto tree=[&]{ if (dump(d)!=t) fail("the document changed\n  was %s\n  is  %s",t.c_str(),dump(d).c_str()); };
    tree(); same(print(d.d,P[a].s),key(S[i].name,P[a].name),"first print"); tree();
    if (between==1) { int j=(i*7+3)%NS; Doc e(load(j)); same(print(e.d,P[b].s),key(S[j].name,P[b].name),"print between"); same(print(e.d,P[a].s),key(S[j].name,P[a].name),"print between"); }
    if (between==2) same(tokenize(0,1),key("tokens","1"),"tokens");
    same(print(d.d,P[b].s),key(S[i].name,P[b].name),"second print"); tree();
    same(print(d.d,P[a].s),key(S[i].name,P[a].name),"third print"); tree();
    same(errors(d.d),key(S[i].name,"errors"),"error"); same(query(d.d),key(S[i].name,"query"),"query"); tree();
}
// one settings object for several prints and documents, changed in between by the setters
static string take(XMQOutputSettings *os, XMQDoc *d, char *&a, char *&b, size_t &skip) { a=b=NULL; skip=3; xmqPrint(d,os); string r; if (a) r.assign(a+skip,b); free(a); a=b=NULL; return r; }
static void apply(XMQOutputSettings *os, const Set &s)
{
    xmqSetCompact(os,s.compact); xmqSetAddIndent(os,s.compact?0:s.indent); xmqSetEscapeNewlines(os,s.nl||s.compact); xmqSetEscapeTabs(os,s.tab); xmqSetEscapeNon7bit(os,s.non7); xmqSetOutputFormat(os,s.fmt); xmqSetOmitDecl(os,s.omit);
}
static void reuse()
{
    int i=choose(NS),j=choose(3),x=choose(P.size()),y=choose(P.size()),z=choose(2); const Set &A=P[x].s,&B=P[y].s; int jj=j==0?i:(i+j*5)%NS;
    bool again=z==1; if (!again&&(A.render||B.render)) return; // themes are set up once
    if (again&&y>0) return;
    if (!run(string("one settings object: ")+S[i].name+" "+P[x].name+", "+S[jj].name+" "+(again?P[x].name:P[y].name)+", "+S[i].name+" "+P[x].name)) return;
    Doc d(load(i)),e(load(jj)); XMQOutputSettings *os; char *a=NULL,*b=NULL; size_t skip=0;
    if (again) os=make_settings(A); else { os=xmqNewOutputSettings(); apply(os,A); xmqSetupDefaultColors(os); }
    xmqSetupPrintMemory(os,&a,&b); xmqSetupPrintSkip(os,&skip);
    same(take(os,d.d,a,b,skip),key(S[i].name,P[x].name),"first print");
    if (!again) apply(os,B);
    same(take(os,e.d,a,b,skip),key(S[jj].name,again?P[x].name:P[y].name),"second print");
    if (!again) apply(os,A);
    same(take(os,d.d,a,b,skip),key(S[i].name,P[x].name),"third print");
    xmqFreeOutputSettings(os);
}
// one settings object, set up again for another rendering
static void reconfigure()
{
    static const char *T[]={NULL,"lightbg","darkbg"}; Set s[2]; string n[2]; int i=choose(4),only=choose(2);
    for (int k=0;k<2;k++) { int r=choose(4),c=choose(2),d=choose(2),w=choose(2),t=choose(3); if (!r&&(c||d||w||t)) return; s[k].render=(XMQRenderFormat)(r==0?XMQ_RENDER_PLAIN:r==1?XMQ_RENDER_TERMINAL:r==2?XMQ_RENDER_HTML:XMQ_RENDER_TEX); s[k].color=c; s[k].dark=d; s[k].raw=w; s[k].theme=T[t]; n[k]=std::to_string(r)+(c?" color":"")+(d?" dark":" light")+(w?" raw":"")+(t?string(" ")+T[t]:""); }
    if (!run(string("set up again: ")+S[i].name+" as "+n[0]+" then as "+n[1]+(only?", only what differs is set":""))) return;
    Doc d(load(i)); string fresh[2]; for (int k=0;k<2;k++) fresh[k]=print(d.d,s[k]);
    auto go=[&]{ XMQOutputSettings *os=xmqNewOutputSettings(); char *a=NULL,*b=NULL; size_t skip=0; xmqSetupPrintMemory(os,&a,&b); xmqSetupPrintSkip(os,&skip);
        Set *was=NULL; for (int k:{0,1,1,0}) { Set *now=s+k; auto ch=[&](bool differs) { return !only||!was||differs; };
            if (ch(was&&was->render!=now->render)) xmqSetRenderFormat(os,now->render); if (ch(was&&was->color!=now->color)) xmqSetUseColor(os,now->color); if (ch(was&&was->dark!=now->dark)) xmqSetBackgroundMode(os,now->dark); if (ch(was&&was->raw!=now->raw)) xmqSetRenderRaw(os,now->raw); if (ch(was&&was->theme!=now->theme)) xmqSetRenderTheme(os,now->theme);
            was=now; xmqSetupDefaultColors(os);
            string got=take(os,d.d,a,b,skip); if (got!=fresh[k]) { size_t p=0; while (p<got.size()&&p<fresh[k].size()&&got[p]==fresh[k][p]) p++; fail("as %s printed ...%s, with new settings ...%s",n[k].c_str(),mc::esc(got.substr(p>20?p-20:0,80)).c_str(),mc::esc(fresh[k].substr(p>20?p-20:0,80)).c_str()); } }
        xmqFreeOutputSettings(os); };
    if (i==0) mc::leakcheck(go); else go();
    mc::outcome(fresh[0]+fresh[1]);
}
// Only what is set again has to be set again: compact does not leave anything behind.
static void toggles()
{
    int i=choose(NS),f=choose(3),n=choose(4); static const XMQContentType FT[]={XMQ_CONTENT_XMQ,XMQ_CONTENT_JSON,XMQ_CONTENT_XML};
    if (!run(string("compact on and off: ")+S[i].name+" format "+std::to_string(f)+" toggle "+std::to_string(n))) return;
    Doc d(load(i)); XMQOutputSettings *os=xmqNewOutputSettings(); char *a=NULL,*b=NULL; size_t skip=0; xmqSetOutputFormat(os,FT[f]); xmqSetupPrintMemory(os,&a,&b); xmqSetupPrintSkip(os,&skip); xmqSetupDefaultColors(os);
    string first=take(os,d.d,a,b,skip);
    if (n==0) xmqSetCompact(os,true); if (n==1) xmqSetEscapeNewlines(os,true); if (n==2) xmqSetEscapeTabs(os,true); if (n==3) xmqSetAddIndent(os,1);
    string other=take(os,d.d,a,b,skip); mc::outcome(other);
    if (n==0) xmqSetCompact(os,false); if (n==1) xmqSetEscapeNewlines(os,false); if (n==2) xmqSetEscapeTabs(os,false); if (n==3) xmqSetAddIndent(os,4);
    string third=take(os,d.d,a,b,skip); if (third!=first) fail("a setting stays in effect after being reset\n  first %s\n  third %s",q(first).c_str(),q(third).c_str());
    xmqFreeOutputSettings(os);
}
// all histories over two document slots
struct Slot { XMQDoc *d=NULL; int src=-1; string m; };
static void histories()
{
    enum { LOAD=0, PRINT=4, MUT=PRINT+6, QUERY=MUT+NMUT, FREE, TOK, BADPARSE, NOPS };
    int depth=mc::tier_pick(3,4); struct Op { int slot,op; }; vector<Op> ops; string desc; int loaded[2]={-1,-1}; int mutn[2]={0,0};
    // both slots start loaded: slot 0 with one of the sources, slot 1 with one
    int a=choose(4),b=choose(4); loaded[0]=a; loaded[1]=b; desc=string(S[HS[a]].name)+" "+S[HS[b]].name+":";
    bool prev0=true;
    for (int k=0;k<depth;k++) {
        int c=choose(NOPS*2); int s=c%2,o=c/2; if (o>=TOK&&s) return; if (loaded[s]<0&&o>=PRINT&&o<TOK) return; if (o<PRINT&&o>=2&&k>0) return;
        (void)prev0; if (o>=MUT&&o<QUERY) { if (mutn[s]>=3) return; mutn[s]++; }
        if (o<PRINT) { loaded[s]=o; mutn[s]=0; } if (o==FREE) loaded[s]=-1;
        ops.push_back({s,o}); desc+=" "; desc+=o<PRINT?"load"+std::to_string(o):o<MUT?HP[o-PRINT]:o==MUT?"trim":o==MUT+1?"edit":o==QUERY?"query":o==FREE?"free":o==TOK?"tokenize":"badparse"; if (o<TOK) desc+=std::to_string(s);
    }
    if (!run(desc)) return;
    Slot w[2]; for (int s=0;s<2;s++) { int x=s?b:a; w[s].d=load(HS[x]); w[s].src=HS[x]; }
    auto look=[&](int s, const char *n) { same(print(w[s].d,setting(n)),key(docname(w[s].src,w[s].m),n),"print"); };
    for (auto &o:ops) { Slot &x=w[o.slot];
        if (o.op<PRINT) { XMQDoc *d=load(HS[o.op]); if (x.d) xmqFreeDoc(x.d); x.d=d; x.src=HS[o.op]; x.m.clear(); }
        else if (o.op<MUT) look(o.slot,HP[o.op-PRINT]);
        else if (o.op<QUERY) { mutate(x.d,o.op-MUT); x.m+=char('0'+o.op-MUT); }
        else if (o.op==QUERY) same(query(x.d),key(docname(x.src,x.m),"query"),"query");
        else if (o.op==FREE) { xmqFreeDoc(x.d); x.d=NULL; }
        else if (o.op==TOK) { same(tokenize(0,0),key("tokens","0"),"tokens"); same(tokenize(1,1),key("tokens","3"),"tokens"); }
        else { Doc bad(load(11)); same(errors(bad.d),key("bad","errors"),"error"); Doc bx(load(12)); same(errors(bx.d),key("badxml","errors"),"error"); }
    }
    for (int s=0;s<2;s++) if (w[s].d) { look(s,"compact"); look(s,"xml"); look(s,"json"); same(query(w[s].d),key(docname(w[s].src,w[s].m),"query"),"query"); }
    for (int s=0;s<2;s++) if (w[s].d) xmqFreeDoc(w[s].d);
}
// an operation inside the k:th callback of another one
static string *sink; static long at,seen; static std::function<void()> inside;
static void tick() { if (seen++==at&&inside) { auto f=inside; inside=nullptr; f(); } }
static bool nested_write(void *, const char *start, const char *stop) { tick(); if (!stop) stop=start+strlen(start); sink->append(start,stop); return true; }
static string print_cb(XMQDoc *d, const Set &s)
{
    string o; XMQOutputSettings *os=make_settings(s); sink=&o; XMQWriter w; w.writer_state=NULL; w.write=nested_write; xmqSetWriterContent(os,w); xmqSetWriterError(os,w); xmqPrint(d,os); xmqFreeOutputSettings(os); sink=NULL; return o;
}
static void nested()
{
    int i=choose(NS),outer=choose(8),op=choose(7);
    static const char *OP[]={"print another","print the same","load and free","query the same","tokenize","trim another","fail"}; static const char *OU[]={"xmq","compact","terminal","json","xml","clines","text","query"};
    // the number of callbacks is found by a dry run in the baseline
    static std::map<string,long> total; string kk=string(S[i].name)+OU[outer]; if (!total.count(kk)) { string t=isolated([&]{ XMQDoc *d=load(i); at=-1; seen=0; if (outer==7) query(d,tick); else print_cb(d,setting(OU[outer])); return std::to_string(seen); }); total[kk]=atol(t.c_str()); }
    long n=total[kk]; long cap=mc::tier_pick(40,400); if (n>cap) n=cap; if (n==0) return;
    int k=choose(n);
    if (!run(string(S[i].name)+" "+OU[outer]+", at callback "+std::to_string(k)+" "+OP[op])) return;
    Doc d(load(i)); int j=(i*3+5)%NS; Doc e(load(j)); at=k; seen=0; bool did=false;
    inside=[&] { did=true; string *sv=sink;
        if (op==0) { same(print(e.d,setting("compact")),key(S[j].name,"compact"),"inner print"); same(print(e.d,setting("json")),key(S[j].name,"json"),"inner print"); }
        if (op==1) { for (auto p:{"xmq","terminal","json","xml","asHtml"}) same(print(d.d,setting(p)),key(S[i].name,p),"inner print"); }
        if (op==2) { for (int x:{0,2,4,7}) { Doc f(load(x)); same(print(f.d,setting("xmq")),key(S[x].name,"xmq"),"inner print"); } }
        if (op==3) same(query(d.d),key(S[i].name,"query"),"inner query");
        if (op==4) { same(tokenize(0,0),key("tokens","0"),"tokens"); same(tokenize(1,0),key("tokens","2"),"tokens"); }
        if (op==5) { xmqTrimWhitespace(e.d,XMQ_FLAG_TRIM_HEURISTIC); xmqFreeDoc(e.d); e.d=NULL; }
        if (op==6) { Doc bad(load(11)); same(errors(bad.d),key("bad","errors"),"error"); Doc bx(load(12)); same(errors(bx.d),key("badxml","errors"),"error"); }
        sink=sv; };
    string got=outer==7?query(d.d,tick):print_cb(d.d,setting(OU[outer]));
    inside=nullptr; if (!did) return;
    if (outer==4&&0) return;
    same(got,key(S[i].name,OU[outer]),"outer operation"); if (dump(d)!=getb(key(S[i].name,"tree"))) fail("the document changed");
}
// objects are freed in every order
static void lifetimes()
{
    int i=choose(NS),ok=choose(2); vector<int> order; { vector<int> left={0,1,2,3,4}; while (left.size()) { int c=choose(left.size()); order.push_back(left[c]); left.erase(left.begin()+c); } }
    string desc=string(S[i].name)+(ok?" tokenized":" tokenize error")+" freed:"; static const char *N[]={"doc","doc2","settings","state","callbacks"}; for (int o:order) desc+=string(" ")+N[o];
    if (!run(desc)) return;
    mc::leakcheck([&]{
        XMQDoc *d=load(i),*e=load((i+1)%NS); XMQOutputSettings *os=make_settings(P[6].s); char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b);
        XMQParseCallbacks *cb=xmqNewParseCallbacks(); xmqSetupParseCallbacksColorizeTokens(cb,XMQ_RENDER_TERMINAL); XMQParseState *st=xmqNewParseState(cb,os);
        xmqPrint(d,os); free(a); a=b=NULL; mc::Exact x(TS[ok?0:1]); xmqTokenizeBuffer(st,x.start,x.stop); free(a); a=b=NULL; xmqPrint(e,os); free(a); a=b=NULL;
        for (int o:order) switch (o) { case 0: xmqFreeDoc(d); break; case 1: xmqFreeDoc(e); break; case 2: xmqFreeOutputSettings(os); break; case 3: xmqFreeParseState(st); break; case 4: xmqFreeParseCallbacks(cb); break; }
    });
    mc::outcome(desc);
}
// every node form in every position stays as it is
static void nodes()
{
    int a=choose(forms::NF),b=choose(forms::NF),p=choose(P.size()),pos=choose(3);
    if (!run("node forms "+std::to_string(a)+","+std::to_string(b)+" position "+std::to_string(pos)+" printed "+P[p].name+" in between")) return;
    forms::D=newdoc(); forms::N r=add_elem(forms::D,NULL,"r"),at=r;
    if (pos==1) { forms::tx(r,"t"); at=forms::el(r,"m"); forms::at(at,"k","v"); }
    if (pos==2) { forms::co(r,"c"); for (int k=0;k<5;k++) at=forms::el(at,"n"); }
    forms::F[a].make(at); forms::F[b].make(at);
    Doc d; adopt(d,forms::D); string t=dump(d); vector<string> first; static const char *L[]={"xmq","compact","xml","json","text","clines","asHtml","terminal"};
    for (auto n:L) first.push_back(print(d.d,setting(n)));
    string x=print(d.d,P[p].s); mc::outcome(x); if (dump(d)!=t) fail("the document changed by printing %s\n  was %s\n  is  %s",P[p].name,t.c_str(),dump(d).c_str());
    size_t k=0; for (auto n:L) { string y=print(d.d,setting(n)); if (y!=first[k]) fail("printing %s again gives %s, was %s",n,q(y).c_str(),q(first[k]).c_str()); k++; }
    if (print(d.d,P[p].s)!=x) fail("printing %s twice differs",P[p].name);
    Doc dc; adopt(dc,xmlCopyDoc(d.x(),1)); k=0; for (auto n:L) { string y=print(dc.d,setting(n)); if (y!=first[k]) fail("a copy prints %s as %s, the document as %s",n,q(y).c_str(),q(first[k]).c_str()); k++; }
}
int main(int argc, char **argv)
{
    quiet(); settings(); baselines();
    return mc::main_(argc,argv,"P22",{{"pairs",pairs},{"reuse",reuse},{"reconfigure",reconfigure},{"toggles",toggles},{"histories",histories},{"nested",nested},{"lifetimes",lifetimes},{"nodes",nodes}});
}
