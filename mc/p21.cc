// P21: the command line tool against the library, a reference of its command line, and every short write.
#include "xq.h"
#include "cli.h"
#include <fstream>
using namespace xq; using mc::choose; using mc::fail; using mc::run;
struct F { const char *name; string text; };
static const vector<F> &files()
{
    static const vector<F> v={
        {"a.xmq","// head\na(x=1 y='p q') { b = 1 c = 'x y' 'text &' d(e) { f = 'åäö\tz' } }"},
        {"a.xml","<?xml version=\"1.0\"?>\n<a x=\"1\">\n  <b> one </b>\n  <c><![CDATA[<z>]]> two\n  three</c>&amp;<!-- k -->\n</a>\n"},
        {"a.html","<!DOCTYPE html><html><head><title>T</title></head><body><p class=\"k\">one <b>two</b> <br> three</p><script>if (a<b) c();</script></body></html>"},
        {"a.json","{\"a\":[1,\"x y\",true,null],\"b\":{\"c\":-1.5e3,\"d\":\"\\u00e5\\n\"},\"\":{}}"},
        {"a.txt","just some text {\nand more\n"},
        {"a.htmq","!DOCTYPE=html html { head { title = T } body { p(class=k) = 'hello there' br } }"},
        {"two.xmq","a=1 b=2"},
        {"empty.xmq",""},
        {"long.xmq","a='"+string(5000,'q')+"' b{c=&#10; d='''it's\n   ok'''}"},
        {"chars.xmq","a=('x'&#10;'y') b=&e; c='\xc3\xa5\t\n'"},
        {"bad.xmq","a{b="},
        {"bad.xml","<a><b></a>"},
        {"bad.json","{\"a\":[1,}"},
        {"quote.xmq","a='never ends"},
        {"brace.xmq","a=1 }"},
    };
    return v;
}
static const char *GRAMMAR="ws: line+. line: word, nl. word: ['a'-'z']*. -nl: -#a.";
static void setup() { for (auto &f:files()) cli::put(f.name,f.text); cli::put("g.ixml",GRAMMAR); cli::put("badg.ixml","ws: line+"); cli::put("lines.txt","ab\ncd\n"); mkdir("dir",0755); }
static void once() { static pid_t p=0; if (p!=getpid()) { p=getpid(); if (chdir(mc::scratch.c_str())) fail("no scratch directory"); setup(); } }
// ---- what the library makes of it
struct Load { XMQContentType type=XMQ_CONTENT_DETECT; int flags=0; bool root=false; string rootname; };
struct Out { // in the words of the manual
    string cmd; bool compact=false, omit=false, nl=false, n7=false, tab=false, color=false, raw=false, only=false; int indent=4; bool dark=true;
    string klass,id,theme,cr,es,et,is,nls; bool has_class=false,has_id=false,has_theme=false,over=false; bool o_cr=false,o_es=false,o_et=false,o_is=false,o_nl=false;
};
static string libprint(XMQDoc *d, const Out &o)
{
    XMQOutputSettings *s=xmqNewOutputSettings();
    XMQContentType t=o.cmd=="to-xml"?XMQ_CONTENT_XML:o.cmd=="to-html"?XMQ_CONTENT_HTML:o.cmd=="to-htmq"?XMQ_CONTENT_HTMQ:o.cmd=="to-json"?XMQ_CONTENT_JSON:o.cmd=="to-text"?XMQ_CONTENT_TEXT:o.cmd=="to-clines"?XMQ_CONTENT_CLINES:XMQ_CONTENT_XMQ;
    XMQRenderFormat r=o.cmd=="render-html"?XMQ_RENDER_HTML:o.cmd=="render-tex"?XMQ_RENDER_TEX:o.cmd=="render-terminal"?XMQ_RENDER_TERMINAL:o.cmd=="render-raw"?XMQ_RENDER_RAW:XMQ_RENDER_PLAIN;
    if (o.color&&r==XMQ_RENDER_PLAIN) r=XMQ_RENDER_TERMINAL; // a terminal
    xmqSetCompact(s,o.compact); xmqSetAddIndent(s,o.indent); xmqSetEscapeNewlines(s,o.nl); xmqSetEscapeNon7bit(s,o.n7); xmqSetEscapeTabs(s,o.tab);
    xmqSetOutputFormat(s,t); xmqSetRenderFormat(s,r); xmqSetUseColor(s,o.color); xmqSetBackgroundMode(s,o.dark); xmqSetOmitDecl(s,o.omit);
    xmqSetRenderRaw(s,o.raw); xmqSetRenderOnlyStyle(s,o.only); xmqRenderHtmlSettings(s,o.has_id?o.id.c_str():NULL,o.has_class?o.klass.c_str():NULL);
    xmqSetRenderTheme(s,o.has_theme?o.theme.c_str():NULL);
    xmqSetupDefaultColors(s);
    if (o.over) xmqOverrideSettings(s,o.o_is?o.is.c_str():NULL,o.o_es?o.es.c_str():NULL,o.o_et?o.et.c_str():NULL,o.o_cr?o.cr.c_str():NULL,o.o_nl?o.nls.c_str():NULL);
    char *a=NULL,*b=NULL; size_t skip=0; xmqSetupPrintMemory(s,&a,&b); xmqSetupPrintSkip(s,&skip);
    xmqPrint(d,s); string x; if (a) x.assign(a+skip,b); free(a); xmqFreeOutputSettings(s); return x;
}
static bool starts(const string &s, const char *p) { return !s.compare(0,strlen(p),p); }
static string after(const string &s) { return s.substr(s.find('=')+1); }
static bool is_to(const string &c) { return starts(c,"to-"); }
static bool is_render(const string &c) { return starts(c,"render-"); }
// an option of a to/render command: false when the command has no such option
static bool option(Out &o, const string &a, bool &bad)
{
    bool r=is_render(o.cmd), x=r||o.cmd=="to-xmq"||o.cmd=="to-htmq";
    if (a=="--compact") { o.compact=true; o.indent=0; return true; }
    if ((a=="-o"||a=="--omit-decl")&&o.cmd=="to-xml") { o.omit=true; return true; }
    if (x) {
        if (a=="--escape-newlines") { o.nl=true; return true; }
        if (a=="--escape-non-7bit") { o.n7=true; return true; }
        if (a=="--escape-tabs") { o.tab=true; return true; }
        if (starts(a,"--indent=")) { string v=after(a); for (char c:v) if (c<'0'||c>'9') bad=true; o.indent=atoi(v.c_str()); return true; }
    }
    if (r) {
        if (a=="--color") { o.color=true; return true; }
        if (a=="--mono") { o.color=false; return true; }
        if (a=="--nostyle") { o.raw=true; return true; }
        if (a=="--onlystyle") { o.only=true; return true; }
        if (starts(a,"--class=")) { o.has_class=true; o.klass=after(a); return true; }
        if (starts(a,"--id=")) { o.has_id=true; o.id=after(a); return true; }
        if (starts(a,"--theme=")) { o.has_theme=true; o.theme=after(a); return true; }
        if (starts(a,"--use-")) {
            string k=a.substr(6,2), v=after(a); if (a.size()<9||a[8]!='=') return false; o.over=true;
            if (k=="cr") { o.o_cr=true; o.cr=v; } else if (k=="es") { o.o_es=true; o.es=v; } else if (k=="et") { o.o_et=true; o.et=v; } else if (k=="is") { o.o_is=true; o.is=v; } else if (k=="nl") { o.o_nl=true; o.nls=v; } else return false;
            return true;
        }
    }
    return false;
}
static void no_success(const vector<string> &av, const cli::R &r, const char *why, const string &already="")
{
    if (r.status==0) fail("%s, but the exit status is 0: %s\n  stdout %s",why,cli::join(av).c_str(),mc::esc(r.out).substr(0,300).c_str());
    if (r.out!=already) fail("%s, but there is output: %s\n  stdout %s",why,cli::join(av).c_str(),mc::esc(r.out).substr(0,300).c_str());
    if (r.err.empty()) fail("%s, and the failure is silent: %s",why,cli::join(av).c_str());
}
static void success(const vector<string> &av, const cli::R &r, const string &want)
{
    if (r.status!=0) fail("exit status %d: %s\n  stderr %s",r.status,cli::join(av).c_str(),mc::esc(r.err).substr(0,400).c_str());
    if (r.out!=want) fail("%s\n  printed  %s\n  expected %s",cli::join(av).c_str(),mc::esc(r.out).substr(0,500).c_str(),mc::esc(want).substr(0,500).c_str());
}
static const vector<string> TOS={"to-xmq","to-htmq","to-xml","to-html","to-json","to-text","to-clines","render-terminal","render-html","render-tex","render-raw"};
static const vector<string> OPTS={"--compact","--omit-decl","-o","--escape-newlines","--escape-non-7bit","--escape-tabs","--indent=0","--indent=2","--indent=x","--color","--mono","--nostyle","--onlystyle","--class=kk","--id=ii","--theme=lightbg","--theme=darkbg","--use-cr=[C]","--use-es=[E]","--use-et=[T]","--use-is=.","--use-nl=[N]\n","--bogus"};

// ---- loading: every input, way of giving it and pair of global options
static void ph_loading()
{
    static const vector<string> G={"","--xmq","--htmq","--xml","--html","--json","--text","--clines","--root=a","--root=rr","--trim=none","--trim=heuristic","--trim=default","--no-merge","--nomerge","--bogus","--trim=bad","--ixml=g.ixml","--ixml=badg.ixml","--ixml=nosuch.ixml","--ixml=dir.ixml","--ixml=g.txt"};
    int fi=choose(files().size()+2); string name=fi<(int)files().size()?files()[fi].name:fi==(int)files().size()?"lines.txt":"nosuch.xmq";
    int src=choose(5); // file, -, nothing, -i, ./file
    string g1=G[choose(G.size())]; string g2=G[choose(G.size())]; if (g1.empty()&&g2.size()) { return; }
    static const vector<string> CM={"","to-xml","to-json"}; string cmd=CM[choose(mc::thorough()?3:g2.size()?1:3)];
    if (name=="nosuch.xmq"&&(src==1||src==2||src==3)) return;
    vector<string> av; if (g1.size()) av.push_back(g1); if (g2.size()) av.push_back(g2);
    if (src==3) av.push_back("-i");
    if (!run(name+" as "+std::to_string(src)+" "+cli::join(av)+" "+cmd)) return;
    once();
    string text; if (name!="nosuch.xmq") text=cli::file(name);
    string in; if (src==0) av.push_back(name); else if (src==4) av.push_back("./"+name); else if (src==1) { av.push_back("-"); in=text; } else if (src==2) in=text; else av.push_back(text);
    if (cmd.size()) av.push_back(cmd);
    Load l; bool bad=false,skip=false; bool trim=false; string ix;
    for (auto &g:{g1,g2}) {
        if (g=="--xmq") l.type=XMQ_CONTENT_XMQ; if (g=="--htmq") l.type=XMQ_CONTENT_HTMQ; if (g=="--xml") l.type=XMQ_CONTENT_XML; if (g=="--html") l.type=XMQ_CONTENT_HTML; if (g=="--json") l.type=XMQ_CONTENT_JSON; if (g=="--text") l.type=XMQ_CONTENT_TEXT; if (g=="--clines") l.type=XMQ_CONTENT_CLINES;
        if (starts(g,"--root=")) { l.root=true; l.rootname=after(g); }
        if (g=="--trim=none"||g=="--trim=heuristic") { int f=g=="--trim=none"?XMQ_FLAG_TRIM_NONE:XMQ_FLAG_TRIM_HEURISTIC; if (trim&&!(l.flags&f)) skip=true; trim=true; l.flags|=f; }
        if (g=="--trim=default") { l.flags&=XMQ_FLAG_NOMERGE; trim=false; }
        if (g=="--no-merge"||g=="--nomerge") l.flags|=XMQ_FLAG_NOMERGE;
        if (g=="--bogus"||g=="--trim=bad") bad=true;
        if (starts(g,"--ixml=")) { if (ix.size()) bad=true; ix=after(g); if (ix!="g.ixml"&&ix!="badg.ixml") bad=true; }
    }
    cli::R r=cli::run(av,in);
    if (skip) return; // two trimming rules at once
    if (bad) { no_success(av,r,"an option is not understood"); mc::outcome("badopt"); return; }
    if (name=="nosuch.xmq") { no_success(av,r,"the input does not exist"); return; }
    Doc d; Doc g; bool ok;
    if (ix.size()) {
        ok=xmqParseBufferWithType(g.d,cli::file(ix).c_str(),NULL,NULL,XMQ_CONTENT_IXML,0);
        if (!ok) { no_success(av,r,"the grammar is broken"); return; }
        if (src==2) { success(av,r,cmd=="to-xml"?libprint(d.d,[]{Out o;o.cmd="to-xml";return o;}()):string()); return; } // only checks the grammar
        ok=xmqParseBufferWithIXML(d.d,text.c_str(),NULL,g.d,0);
    } else ok=xmqParseBufferWithType(d.d,text.c_str(),NULL,l.root?l.rootname.c_str():NULL,l.type,l.flags);
    if (!ok) { no_success(av,r,"the input cannot be parsed"); mc::outcome("noparse"); return; }
    Out o; o.cmd=cmd.size()?cmd:"to-xmq"; string want=libprint(d.d,o); success(av,r,want); mc::outcome(want);
}
// ---- printing: every input, command, one or two options and way of output
static void ph_printing()
{
    static const vector<string> IN={"a.xmq","a.xml","a.html","a.json","two.xmq","chars.xmq","a.htmq","long.xmq","empty.xmq"};
    int nopt=choose(mc::tier_pick(3,4)); // 0, 1, 2 options, 3 options in front of the compact one
    string cmd=TOS[choose(TOS.size())]; string in=IN[choose(nopt<2?IN.size():nopt==3?1:mc::tier_pick(2,7))];
    vector<string> ops; int n=nopt; for (int i=0;i<n;++i) { int k=choose(OPTS.size()); ops.push_back(OPTS[k]); }
    int how=nopt<2?choose(3):0;
    if (!run(in+" "+cmd+" "+cli::join(ops)+" how "+std::to_string(how))) return;
    once();
    vector<string> av={in,cmd}; Out o; o.cmd=cmd; bool bad=false; for (auto &a:ops) { av.push_back(a); if (!option(o,a,bad)) bad=true; }
    if (how==1) av.push_back("print"); string f="out.txt"; if (how==2) { av.push_back("save-to"); av.push_back(f); unlink(f.c_str()); }
    cli::R r=cli::run(av);
    if (bad) { no_success(av,r,"an option is not understood"); if (how==2&&cli::exists(f)) fail("a file was saved: %s",cli::join(av).c_str()); return; }
    Doc d; if (!xmqParseBufferWithType(d.d,cli::file(in).c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0)) fail("the library cannot parse %s",in.c_str());
    string want=libprint(d.d,o); mc::outcome(want);
    if (how==2) { success(av,r,""); string got=cli::file(f); if (got!=want) fail("%s\n  saved    %s\n  expected %s",cli::join(av).c_str(),mc::esc(got).substr(0,500).c_str(),mc::esc(want).substr(0,500).c_str()); unlink(f.c_str()); }
    else success(av,r,want);
}
// ---- syntax: all command lines over an alphabet against a reference of the command line
static const vector<string> CMDS={"add","add-root","br","browse","delete","delete-entity","for-each","help","load","no-output","pa","page","print","render-html","render-raw","render-terminal","render-tex","replace","replace-entity","save-to","select","statistics","substitute-char-entities","substitute-entity","to-html","to-htmq","to-json","to-text","to-xml","to-xmq","to-clines","tokenize","transform","validate","quote-c","unquote-c"};
static bool is_cmd(const string &s) { return std::find(CMDS.begin(),CMDS.end(),s)!=CMDS.end(); }
struct Unspec {}; struct Bad { const char *why; };
struct C { string cmd; vector<string> a; Out o; string tok; bool silent=false; };
static void cutn(xmlNode *n) { xmlUnlinkNode(n); xmlFreeNode(n); }
static vector<xmlNode*> nodes(xmlDoc *d, const string &path)
{
    xmlXPathContext *c=xmlXPathNewContext(d); xmlXPathObject *o=xmlXPathEvalExpression((const xmlChar*)path.c_str(),c); vector<xmlNode*> v; bool ok=o&&o->type==XPATH_NODESET;
    if (ok) for (int i=0;o->nodesetval&&i<o->nodesetval->nodeNr;++i) v.push_back(o->nodesetval->nodeTab[i]);
    if (o) xmlXPathFreeObject(o); xmlXPathFreeContext(c); if (!ok) throw Unspec(); return v;
}
static string toks(const string &text, const string &type, bool &ok)
{
    XMQOutputSettings *s=xmqNewOutputSettings(); char *a=NULL,*b=NULL; size_t skip=0; xmqSetupPrintMemory(s,&a,&b); xmqSetupPrintSkip(s,&skip); XMQParseCallbacks *cb=xmqNewParseCallbacks();
    if (type=="debugtokens") xmqSetupParseCallbacksDebugTokens(cb); else if (type=="debugcontent") xmqSetupParseCallbacksDebugContent(cb);
    else { XMQRenderFormat r=type=="html"?XMQ_RENDER_HTML:type=="tex"?XMQ_RENDER_TEX:XMQ_RENDER_TERMINAL; xmqSetRenderFormat(s,r); xmqSetUseColor(s,type=="terminal"); xmqSetBackgroundMode(s,true); xmqSetupDefaultColors(s); xmqSetupParseCallbacksColorizeTokens(cb,r); }
    XMQParseState *st=xmqNewParseState(cb,s); xmqTokenizeBuffer(st,text.data(),text.data()+text.size()); ok=!xmqStateErrno(st);
    string x; if (a) x.assign(a+skip,b); free(a); xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(s); return x;
}
struct Expect { bool bad=false; string why; string out; string saved; bool saves=false; bool any_out=false; };
// throws Unspec when nothing is said about the command line
static Expect reference(const vector<string> &av, const string &in)
{
    Expect e; size_t i=0; Load l; bool content=false,z=false,version=false,help=false;
    try {
        for (;i<av.size()&&av[i][0]=='-'&&av[i]!="-";++i) {
            const string &a=av[i];
            if (a=="-i") content=true; else if (a=="-z") z=true; else if (a=="--version") version=true; else if (a=="--help") help=true;
            else if (a=="--xml") l.type=XMQ_CONTENT_XML; else if (a=="--xmq") l.type=XMQ_CONTENT_XMQ; else if (a=="--json") l.type=XMQ_CONTENT_JSON; else if (a=="--text") l.type=XMQ_CONTENT_TEXT;
            else if (starts(a,"--root=")) { l.root=true; l.rootname=after(a); } else if (a=="--trim=none") l.flags|=XMQ_FLAG_TRIM_NONE; else if (a=="--no-merge") l.flags|=XMQ_FLAG_NOMERGE;
            else throw Bad{"a global option is not understood"};
        }
        bool given=false; string input;
        if (i<av.size()&&(content||!is_cmd(av[i]))) { given=true; input=av[i++]; }
        if (content&&!given) { if (version||help) throw Unspec(); throw Bad{"there is no content after -i"}; }
        vector<C> cs; int to=-1,output=-1; bool print=true; bool tokenize=false;
        while (i<av.size()) {
            if (!is_cmd(av[i])) throw Bad{"a command is not understood"};
            C c; c.cmd=av[i++]; c.o.cmd=c.cmd;
            size_t positional=c.cmd=="select"||c.cmd=="delete"||c.cmd=="add-root"||c.cmd=="add"||c.cmd=="save-to"||c.cmd=="load"||c.cmd=="validate"||c.cmd=="transform"||c.cmd=="delete-entity"?1:c.cmd=="replace-entity"?2:0;
            if (c.cmd=="replace") throw Unspec();
            for (;i<av.size();++i) {
                const string &a=av[i]; bool bad=false;
                if (c.cmd=="help") { c.a.push_back(a); continue; }
                if (c.cmd=="validate"&&a=="--silent") { c.silent=true; continue; }
                if (is_to(c.cmd)||is_render(c.cmd)) { if (option(c.o,a,bad)) { if (bad) throw Bad{"a bad number"}; continue; } }
                if (c.cmd=="tokenize"&&starts(a,"--type=")) { static const std::set<string> T={"debugtokens","debugcontent","terminal","html","tex","location"}; c.tok=after(a); if (!T.count(c.tok)) throw Bad{"no such type"}; continue; }
                if (c.a.size()<positional) { if ((c.cmd=="load"&&starts(a,"--alias="))||(c.cmd=="replace-entity"&&starts(a,"--with"))) throw Unspec(); c.a.push_back(a); continue; }
                if (is_cmd(a)) break;
                throw Bad{"an option or argument is not understood"};
            }
            if (c.a.size()<positional) throw Bad{"an argument is missing"};
            if (c.cmd=="transform"||c.cmd=="validate") { if (c.a[0]!="t.xslt"&&c.a[0]!="s.xsd") throw Bad{"the file does not exist"}; if ((c.cmd=="validate")!=(c.a[0]=="s.xsd")) throw Bad{"not a schema or transform"}; }
            bool t=is_to(c.cmd)||is_render(c.cmd)||c.cmd=="tokenize"; static const std::set<string> O={"print","save-to","page","pa","browse","br","no-output"};
            if (c.cmd=="browse"||c.cmd=="br") throw Unspec();
            if (t) { if (to>=0) throw Bad{"two to commands"}; to=cs.size(); print=true; if (c.cmd=="tokenize") tokenize=true; }
            if (c.cmd=="no-output"||c.cmd=="for-each") print=false;
            if (c.cmd=="validate") throw Unspec(); // needs a document that fits: phase validate
            if (c.cmd=="for-each"||c.cmd=="statistics"||c.cmd=="quote-c"||c.cmd=="unquote-c"||c.cmd=="substitute-entity") throw Unspec();
            if (O.count(c.cmd)) { if (output>=0) throw Bad{"two output commands"}; output=cs.size(); }
            cs.push_back(c);
        }
        if (tokenize) for (auto &c:cs) if (c.cmd!="tokenize"&&c.cmd!="print"&&c.cmd!="save-to"&&c.cmd!="page"&&c.cmd!="pa"&&c.cmd!="no-output"&&c.cmd!="help") throw Bad{"nothing to edit when tokenizing"};
        if (version||help) { e.any_out=true; return e; }
        if (cs.size()&&cs[0].cmd=="help") { if (cs[0].a.size()>1) throw Unspec(); if (cs[0].a.size()==1&&!is_cmd(cs[0].a[0])) throw Bad{"help on an unknown command"}; e.any_out=true; return e; }
        for (auto &c:cs) if (c.cmd=="help") throw Unspec();
        if (to<0&&print) { C c; c.cmd=c.o.cmd="to-xmq"; if (output<0) cs.push_back(c); else { cs.insert(cs.begin()+output,c); ++output; } }
        if (output<0&&print) { C c; c.cmd="print"; cs.push_back(c); }
        string text=in; bool exists=true;
        if (content) text=input; else if (given&&input!="-") { exists=false; for (auto &f:files()) if (input==f.name) { exists=true; text=f.text; } if (input=="s.xsd"||input=="t.xslt"||input=="lines.txt"||input=="g.ixml"||input=="badg.ixml"||input=="dir") throw Unspec(); }
        Doc d; string buf; bool have=false;
        if (z) { text=""; exists=true; }
        if (!exists) throw Bad{"the input does not exist"};
        if (!tokenize&&!z&&!xmqParseBufferWithType(d.d,text.c_str(),NULL,l.root?l.rootname.c_str():NULL,l.type,l.flags)) throw Bad{"the input cannot be parsed"};
        for (auto &c:cs) {
            if (c.cmd=="tokenize") { if (c.tok=="location") throw Bad{"not implemented"}; bool ok; buf=toks(text,c.tok,ok); if (!ok) throw Bad{"the input cannot be tokenized"}; have=true; }
            else if (is_to(c.cmd)||is_render(c.cmd)) { buf=libprint(d.d,c.o); have=true; }
            else if (c.cmd=="page"||c.cmd=="pa") throw Bad{"not a terminal"};
            else if (c.cmd=="print") { if (!have) throw Bad{"nothing to print"}; e.out=buf; }
            else if (c.cmd=="save-to") { if (!have) throw Bad{"nothing to save"}; if (c.a[0].empty()||c.a[0].find('/')!=string::npos||c.a[0]=="dir") throw Unspec(); e.saves=true; e.saved=c.a[0]; e.why=buf; }
            else if (c.cmd=="no-output") {}
            else if (c.cmd=="load") { Doc n; bool f=false; string t2; for (auto &x:files()) if (c.a[0]==x.name) { f=true; t2=x.text; } if (c.a[0]=="-"||c.a[0]=="t.xslt"||c.a[0]=="s.xsd"||(e.saves&&c.a[0]==e.saved)) throw Unspec(); if (!f) { throw Bad{"the file does not exist"}; } if (!xmqParseBufferWithType(n.d,t2.c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0)) throw Bad{"the file cannot be parsed"}; std::swap(d.d,n.d); }
            else if (c.cmd=="select") { if (c.a[0]!="*/b") throw Unspec(); vector<xmlNode*> v=nodes(d.x(),c.a[0]); xmlDoc *n=newdoc(); vector<xmlNode*> k; for (auto x:v) { bool below=false; for (auto y:v) for (xmlNode *p=x->parent;p;p=p->parent) if (p==y) below=true; if (!below) k.push_back(xmlDocCopyNode(x,n,1)); } for (auto x:k) link_child((xmlNode*)n,x); adopt(d,n); }
            else if (c.cmd=="delete") { if (c.a[0]!="*/b") throw Unspec(); vector<xmlNode*> v=nodes(d.x(),c.a[0]); for (size_t j=v.size();j-->0;) cutn(v[j]); }
            else if (c.cmd=="add-root") { if (c.a[0]!="rr") throw Unspec(); xmlNode *r=xmlNewDocNode(d.x(),NULL,X("rr"),NULL); xmlNode *k=d.x()->children; d.x()->children=d.x()->last=NULL; while (k) { xmlNode *nx=k->next; link_child(r,k); k=nx; } link_child((xmlNode*)d.x(),r); }
            else throw Unspec();
        }
    } catch (Bad &b) { e.bad=true; e.why=b.why; }
    return e;
}
static const char *XSD="<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\" type=\"xs:int\" minOccurs=\"0\" maxOccurs=\"2\"/><xs:element name=\"c\" minOccurs=\"0\"/></xs:sequence><xs:attribute name=\"x\" type=\"xs:int\"/><xs:attribute name=\"y\" use=\"required\"/></xs:complexType></xs:element></xs:schema>";
static const char *XSLT="<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:param name=\"p\"/><xsl:param name=\"q\" select=\"'none'\"/><xsl:template match=\"/\"><r><xsl:value-of select=\"$p\"/>|<xsl:value-of select=\"$q\"/>|<xsl:value-of select=\"count(//*)\"/></r></xsl:template></xsl:stylesheet>";
static void syntax(const vector<string> &A, int lo, int hi)
{
    int n=lo+choose(hi-lo+1); vector<string> av; for (int i=0;i<n;++i) av.push_back(A[choose(A.size())]);
    // the scratch directory contains what is written: no absolute path is ever a word, and no word below names a place outside of it
    for (auto &a:av) if (a.size()&&a[0]=='/') abort();
    if (!run(cli::join(av))) return;
    once(); cli::put("t.xslt",XSLT); cli::put("s.xsd",XSD);
    static const string IN="std{b=in}"; // on stdin
    Expect e; bool unspec=false; try { e=reference(av,IN); } catch (Unspec&) { unspec=true; }
    bool writes=false; for (auto &a:av) if (a=="save-to") writes=true;
    if (e.saves) { bool input=false; for (auto &f:files()) if (e.saved==f.name) input=true; if (!input) unlink(e.saved.c_str()); }
    cli::R r=cli::run(av,IN);
    if (!unspec) {
        if (e.bad) no_success(av,r,e.why.c_str(),e.out);
        else if (e.any_out) { if (r.status!=0) fail("exit status %d: %s",r.status,cli::join(av).c_str()); if (r.out.empty()) fail("no help or version: %s",cli::join(av).c_str()); }
        else { success(av,r,e.out); if (e.saves) { string got=cli::file(e.saved); if (got!=e.why) fail("%s\n  saved    %s\n  expected %s",cli::join(av).c_str(),mc::esc(got).substr(0,300).c_str(),mc::esc(e.why).substr(0,300).c_str()); } }
        mc::outcome(e.bad?e.why:e.out);
    } else if (r.status!=0&&r.err.empty()&&r.out.empty()&&std::find(av.begin(),av.end(),"--silent")==av.end()) fail("a silent failure: %s",cli::join(av).c_str());
    if (writes) { for (size_t i=0;i+1<av.size();++i) if (av[i]=="save-to"&&av[i+1].find('/')==string::npos) unlink(av[i+1].c_str()); setup(); }
    mc::count(unspec?1:0);
}
static void ph_syntax()
{
    static const vector<string> A={"a.xmq","a.xml","bad.xmq","nosuch","-","to-xmq","to-xml","to-json","render-html","render-terminal","tokenize","print","save-to","no-output","select","*/b","delete","add-root","rr","help","--compact","--omit-decl","--indent=2","--color","--onlystyle","--bogus","bogus","-i","-z","--xml","--version","--root=a","load","validate","transform","s.xsd","t.xslt","out.x","--type=debugtokens","--silent"};
    syntax(A,0,mc::tier_pick(3,3));
}
static void ph_syntax_deep()
{
    static const vector<string> A={"a.xmq","-i","to-xml","tokenize","print","save-to","no-output","delete","*/b","--compact","out.x","render-html","nosuch"};
    syntax(A,4,mc::tier_pick(4,5));
}
// ---- pipelines that are all right, in every order
static void ph_pipelines()
{
    static const vector<vector<string>> P={{"select","*/b"},{"delete","*/b"},{"add-root","rr"},{"load","a.xml"},{"load","bad.xmq"},{"load","nosuch"},{"to-xml","--omit-decl"},{"to-xmq","--compact"},{"to-json"},{"render-html","--nostyle"},{"to-clines"},{"print"},{"save-to","out.x"},{"no-output"},{"page"}};
    static const vector<string> IN={"a.xmq","a.json","-","bad.xml","two.xmq"};
    vector<string> av={IN[choose(IN.size())]}; int n=choose(mc::tier_pick(4,5)); for (int i=0;i<n;++i) { auto &p=P[choose(P.size())]; av.insert(av.end(),p.begin(),p.end()); }
    if (!run(cli::join(av))) return;
    once(); unlink("out.x"); static const string S="std{b=in}"; Expect e; try { e=reference(av,S); } catch (Unspec&) { fail("machinery: not specified"); }
    cli::R r=cli::run(av,S);
    if (e.bad) {
        // what came out before the failing command stays
        if (r.status==0) fail("%s, but the exit status is 0: %s",e.why.c_str(),cli::join(av).c_str());
        if (r.err.empty()) fail("%s, and the failure is silent: %s",e.why.c_str(),cli::join(av).c_str());
        if (r.out!=e.out) fail("%s: %s\n  printed  %s\n  expected %s",e.why.c_str(),cli::join(av).c_str(),mc::esc(r.out).substr(0,300).c_str(),mc::esc(e.out).substr(0,300).c_str());
    } else success(av,r,e.out);
    bool saved=e.saves; if (saved!=cli::exists("out.x")) fail("%s: the file was %ssaved",cli::join(av).c_str(),saved?"not ":"");
    if (saved) { string got=cli::file("out.x"); if (got!=(e.bad?got:e.why)) fail("%s\n  saved    %s\n  expected %s",cli::join(av).c_str(),mc::esc(got).substr(0,300).c_str(),mc::esc(e.why).substr(0,300).c_str()); }
    mc::outcome(e.bad?e.why:e.out); unlink("out.x");
}
// ---- tokenizing
static void ph_tokenize()
{
    static const vector<string> T={"","debugtokens","debugcontent","terminal","html","tex","location","bogus",""}; const F &f=files()[choose(files().size())]; string t=T[choose(T.size())]; int src=choose(4),how=choose(4);
    vector<string> av; if (src==3) av.push_back("-i");
    if (!run(string(f.name)+" type "+t+" source "+std::to_string(src)+" how "+std::to_string(how))) return;
    once(); string in; if (src==0) av.push_back(f.name); else if (src==1) { av.push_back("-"); in=f.text; } else if (src==2) in=f.text; else av.push_back(f.text);
    av.push_back("tokenize"); if (t.size()) av.push_back("--type="+t); if (how==1) av.push_back("print"); if (how==2) { av.push_back("save-to"); av.push_back("out.t"); unlink("out.t"); } if (how==3) av.push_back("no-output");
    bool ok; string want=toks(f.text,t,ok); cli::R r=cli::run(av,in);
    if (t=="location"||t=="bogus") { no_success(av,r,"there is no such type"); return; }
    if (!ok) { no_success(av,r,"the input cannot be tokenized"); if (how==2&&cli::exists("out.t")) fail("a file was saved: %s",cli::join(av).c_str()); mc::outcome("fails"); return; }
    if (how==2) { success(av,r,""); if (cli::file("out.t")!=want) fail("%s saved %s expected %s",cli::join(av).c_str(),mc::esc(cli::file("out.t")).substr(0,300).c_str(),mc::esc(want).substr(0,300).c_str()); unlink("out.t"); }
    else success(av,r,how==3?"":want);
    mc::outcome(want);
}
// ---- every short write, and outputs and inputs that do not work
static void ph_short_writes()
{
    static const vector<string> IN={"a.xmq","two.xmq","big"}; static const vector<string> CM={"to-xmq","to-xml","to-json","render-html","tokenize"};
    int fi=choose(3); string in=IN[fi]; string cmd=CM[choose(CM.size())]; int how=choose(2); string text; if (in=="big") { text="a{"; for (int i=0;i<3000;++i) text+="b="+std::to_string(i)+" "; text+="}"; } else text=[&]{ for (auto &f:files()) if (in==f.name) return f.text; return string(); }();
    static const long BIG[]={0,1,2,4095,4096,4097,8191,8192,8193,12288,16384,20000}; long at; if (in=="big") at=BIG[choose(12)]; else at=choose(mc::tier_pick(90,400));
    if (!run(in+" "+cmd+" how "+std::to_string(how)+" write stops at "+std::to_string(at))) return;
    once(); cli::put("in.xmq",text); vector<string> av={"in.xmq",cmd}; if (how) { av.push_back("save-to"); av.push_back("out.w"); cli::put("out.w","previous content"); }
    string want; if (cmd=="tokenize") { bool ok; want=toks(text,"",ok); } else { Doc d; xmqParseBufferWithType(d.d,text.c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0); Out o; o.cmd=cmd; want=libprint(d.d,o); }
    cli::Opt op; op.fsize=at; cli::R r=cli::run(av,"",op); string got=how?cli::file("out.w"):r.out;
    if ((long)want.size()<=at) { if (r.status!=0) fail("exit status %d though everything could be written: %s (limit %ld)\n  stderr %s",r.status,cli::join(av).c_str(),at,mc::esc(r.err).c_str()); if (got!=want) fail("%s wrote %s, expected %s",cli::join(av).c_str(),mc::esc(got).substr(0,300).c_str(),mc::esc(want).substr(0,300).c_str()); mc::outcome("whole"); }
    else { if (r.status==0) fail("only %ld of %zu bytes could be written, but the exit status is 0: %s",at,want.size(),cli::join(av).c_str()); if (r.err.empty()) fail("only %ld of %zu bytes could be written, and there is no message: %s",at,want.size(),cli::join(av).c_str()); if (want.compare(0,got.size(),got)) fail("what was written is not the beginning of the output: %s\n  %s\n  status %d %s",cli::join(av).c_str(),mc::esc(got).c_str(),r.status,mc::esc(r.err).c_str()); mc::outcome("short"); }
    unlink("out.w"); unlink("in.xmq");
}
static void ph_faults()
{
    static const vector<string> CM={"to-xmq","to-xml","to-json","to-text","to-clines","render-html","tokenize","to-html","statistics"};
    string cmd=CM[choose(CM.size())]; int kind=choose(15); int size=choose(4); static const int N[]={1,200,800,20000}; string text="a{"; for (int i=0;i<N[size];++i) text+="bcd=1 "; text+="}";
    static const char *K[]={"full device","closed stdout","save to full device","save to a directory","save below a missing directory","save to an empty name","stdin is a directory","closed stdin","input is a directory","missing input","input below a file","empty file name","load a directory","save over a longer file","read only stdout"};
    if (!run(cmd+" "+K[kind]+" size "+std::to_string(N[size]))) return;
    if (cmd=="statistics"&&kind>=2&&kind<=5) return;
    once(); cli::put("in.xmq",text); vector<string> av={"in.xmq",cmd}; cli::Opt op; bool must=true; string out;
    auto save=[&](const string &f){ av.push_back("save-to"); av.push_back(f); };
    int fd=-1;
    switch (kind) {
        case 0: fd=op.outfd=open("/dev/full",O_WRONLY); break;
        case 1: op.closed_out=true; break;
        case 2: save("/dev/full"); break;
        case 3: save("dir"); break;
        case 4: save("nodir/x"); break;
        case 5: save(""); break;
        case 6: av[0]="-"; fd=op.infd=open("dir",O_RDONLY|O_DIRECTORY); break;
        case 7: av[0]="-"; op.closed_in=true; break;
        case 8: av[0]="dir"; break;
        case 9: av[0]="nosuch.xmq"; break;
        case 10: av[0]="in.xmq/x"; break;
        case 11: av[0]=""; break;
        case 12: if (cmd=="tokenize") return; av.insert(av.begin()+1,{"load","dir"}); break;
        case 13: if (cmd=="statistics") return; cli::put("long.out",string(100000,'z')); save("long.out"); must=false; break;
        case 14: fd=op.outfd=open("dir",O_RDONLY|O_DIRECTORY); break;
    }
    cli::R r=cli::run(av,"",op); if (fd>=0) close(fd);
    if (must) {
        if (r.status==0) fail("%s, but the exit status is 0: %s",K[kind],cli::join(av).c_str());
        if (r.err.empty()) fail("%s, and there is no message: %s",K[kind],cli::join(av).c_str());
        if (kind>=2&&kind!=14&&r.out.size()) fail("%s, and something is printed: %s %s",K[kind],cli::join(av).c_str(),mc::esc(r.out).substr(0,200).c_str());
    } else { Doc d; xmqParseBufferWithType(d.d,text.c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0); Out o; o.cmd=cmd; bool ok; string want=cmd=="tokenize"?toks(text,"",ok):libprint(d.d,o); success(av,r,""); if (cli::file("long.out")!=want) fail("the file is not replaced: %s",cli::join(av).c_str()); unlink("long.out"); }
    mc::outcome(r.err);
}
// ---- validation against a schema whose language is known
static void ph_validate()
{
    static const vector<string> KID={"<b>1</b>","<b>x</b>","<c/>","<c>t</c>","<d/>","text","<!--k-->","<b/>"}; static const vector<string> AT={""," x=\"1\""," y=\"k\""," x=\"1\" y=\"k\""," x=\"q\" y=\"k\""," y=\"k\" z=\"1\""};
    int a=choose(AT.size()),n=choose(mc::tier_pick(4,5)); vector<int> k; for (int i=0;i<n;++i) k.push_back(choose(KID.size())); int root=choose(2); int silent=choose(3);
    string body; for (int x:k) body+=KID[x]; string el=root?"r":"a"; string doc="<"+el+AT[a]+">"+body+"</"+el+">";
    if (!run(doc+" "+std::to_string(silent))) return;
    once(); cli::put("s.xsd",XSD); cli::put("v.xml",doc);
    bool valid=root==0&&(a==2||a==3); { int b=0,c=0; for (int x:k) { if (x==6) continue; if (x==0) { if (c||++b>2) valid=false; } else if (x==2||x==3) { if (++c>1) valid=false; } else valid=false; } }
    vector<string> av={"--trim=none","v.xml","validate"}; if (silent==1) av.push_back("--silent"); av.push_back("s.xsd"); if (silent==2) av.push_back("no-output");
    cli::R r=cli::run(av); Doc d; xmqParseBufferWithType(d.d,doc.c_str(),NULL,NULL,XMQ_CONTENT_DETECT,XMQ_FLAG_TRIM_NONE); Out o; o.cmd="to-xmq";
    if (valid) success(av,r,silent==2?"":libprint(d.d,o));
    else if (silent==1) { if (r.status==0) fail("the document is not valid, but the exit status is 0: %s %s",cli::join(av).c_str(),doc.c_str()); if (r.out.size()) fail("output for an invalid document: %s",doc.c_str()); if (r.err.size()) fail("--silent speaks: %s: %s",doc.c_str(),mc::esc(r.err).c_str()); }
    else { // the verdict is on stdout (pinned by tests), the document is not
        if (r.status==0) fail("the document is not valid, but the exit status is 0: %s %s",cli::join(av).c_str(),doc.c_str());
        if (r.out.empty()&&r.err.empty()) fail("the document is not valid, and the failure is silent: %s",doc.c_str());
        if (r.out.size()&&!starts(r.out,"xmq: Document cannot be validated")) fail("the document is not valid, but there is output: %s\n  stdout %s",doc.c_str(),mc::esc(r.out).substr(0,300).c_str());
        string p=libprint(d.d,o); if (r.out.find(p)!=string::npos) fail("the document is not valid, but it is printed: %s",doc.c_str());
    }
    mc::outcome(valid?1:2); unlink("v.xml");
}
// ---- transforms: parameters arrive as given, and a transform that fails is a failure
static void ph_params()
{
    static const vector<string> A={"a"," ","'","\"","=","&","<","å","$","1"}; int n=choose(mc::tier_pick(4,5)); string v; for (int i=0;i<n;++i) v+=A[choose(A.size())]; int which=choose(3);
    if (!run(v+" "+std::to_string(which))) return;
    once(); cli::put("t.xslt",XSLT); vector<string> av={"two.xmq","transform"}; if (which==2) av.push_back("t.xslt"); av.push_back("--stringparam=p="+v); if (which==1) av.push_back("--stringparam=q=Q"); if (which!=2) av.push_back("t.xslt");
    for (auto x:{"to-xml","--omit-decl"}) av.push_back(x);
    cli::R r=cli::run(av); bool both=v.find('\'')!=string::npos&&v.find('"')!=string::npos;
    if (both) { no_success(av,r,"a string with both kinds of quotes"); return; }
    string x; for (char c:v) x+=c=='&'?"&amp;":c=='<'?"&lt;":string(1,c); success(av,r,"<r>"+x+"|"+(which==1?"Q":"none")+"|2</r>\n"); mc::outcome(x);
}
static void ph_transform()
{
    static const vector<string> BODY={"<xsl:copy-of select=\".\"/>","<r/>","<xsl:message terminate=\"yes\">stop</xsl:message>","<r><xsl:message>note</xsl:message></r>","<r><xsl:value-of select=\"$nope\"/></r>","<r><xsl:value-of select=\"nofunc(1)\"/></r>","<r><xsl:value-of select=\"((\"/></r>","<r><xsl:call-template name=\"nope\"/></r>","<xsl:bogus/>","text","<r><xsl:value-of select=\"document('two.xmq')/b\"/></r>","<r/><s/>","","<r><xsl:apply-templates mode=\"m\" select=\"//b\"/></r>"};
    // 0 works, 1 must fail
    static const int KIND[]={0,0,1,0,1,1,1,1,2,0,0,0,0,0}; static const vector<string> WANT={"DOC","<r></r>","","<r></r>","","","","","","text","<r>2</r>","<r></r><s></s>","","<r>M</r>"};
    static const vector<string> FILE={"t1.xslt","nosuch.xslt","a.xml","bad.xml","dir","t1.xslq"}; static const vector<string> IN={"two.xmq","a.json","bad.xmq"};
    int b=choose(BODY.size()),f=choose(FILE.size()),in=choose(IN.size()),op=choose(3); if (f&&f!=5&&b) return;
    if (!run("body "+std::to_string(b)+" "+FILE[f]+" "+IN[in]+" "+std::to_string(op))) return;
    once(); string x="<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"/\">"+BODY[b]+"</xsl:template><xsl:template match=\"*\" mode=\"m\">M</xsl:template></xsl:stylesheet>";
    if (f==5) { Doc d; xmqParseBufferWithType(d.d,x.c_str(),NULL,NULL,XMQ_CONTENT_XML,XMQ_FLAG_TRIM_NONE); Set s; x=print(d.d,s); }
    cli::put(f==5?"t1.xslq":"t1.xslt",x);
    vector<string> av={IN[in],"transform",FILE[f]}; if (op==1) { av.push_back("to-xmq"); av.push_back("--compact"); } if (op==2) av.push_back("no-output");
    cli::R r=cli::run(av);
    if (in==2||(f&&f!=5)||KIND[b]==1) { no_success(av,r,in==2?"the input is broken":KIND[b]==1&&(!f||f==5)?("the transform fails: "+BODY[b]).c_str():"the transform cannot be loaded"); return; }
    if (KIND[b]==2) return; // libxslt only warns
    Doc d; string want;
    if (WANT[b]=="DOC") xmqParseBufferWithType(d.d,cli::file(IN[in]).c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0);
    else if (b==12) { }
    else { xmlDoc *n=newdoc(); if (b==9) link_child((xmlNode*)n,xmlNewDocText(n,X("text"))); else if (b==11) { link_child((xmlNode*)n,xmlNewDocNode(n,NULL,X("r"),NULL)); link_child((xmlNode*)n,xmlNewDocNode(n,NULL,X("s"),NULL)); } else { xmlNode *e=xmlNewDocNode(n,NULL,X("r"),NULL); link_child((xmlNode*)n,e); string t=b==10?"2":b==13?(in==0?"M":"M"):""; if (t.size()) link_child(e,xmlNewDocText(n,X(t))); } adopt(d,n); }
    Out o; o.cmd="to-xmq"; if (op==1) { o.compact=true; o.indent=0; } success(av,r,op==2?"":libprint(d.d,o)); mc::outcome(r.out);
}
// ---- the environment, and a terminal
static string pty_run(const vector<string> &av, const vector<string> &env, cli::R &r)
{
    int m=posix_openpt(O_RDWR|O_NOCTTY); if (m<0||grantpt(m)||unlockpt(m)) { if (m>=0) close(m); throw Unspec(); }
    int s=open(ptsname(m),O_RDWR|O_NOCTTY); if (s<0) { close(m); throw Unspec(); }
    cli::Opt o; o.outfd=s; o.env=env; r=cli::run(av,"",o); close(s);
    string out; char b[65536]; for (;;) { ssize_t n=read(m,b,sizeof b); if (n<=0) break; out.append(b,n); } close(m);
    string x; for (size_t i=0;i<out.size();++i) if (!(out[i]=='\r'&&i+1<out.size()&&out[i+1]=='\n')) x+=out[i];
    return x;
}
static void ph_environment()
{
    static const vector<string> TH={"","XMQ_THEME=mono","XMQ_THEME=lightbg","XMQ_THEME=darkbg","XMQ_THEME=bogus","XMQ_THEME="}, FG={"","COLORFGBG=0;15","COLORFGBG=15;0","COLORFGBG=0;default;15","COLORFGBG=15;default;0","COLORFGBG=7","COLORFGBG=","COLORFGBG=15;","COLORFGBG=;10"}, TE={"TERM=dumb","TERM=linux","TERM=xterm","TERM=xterm-256color","TERM=","TERM=vt100"};
    static const vector<vector<string>> CM={{},{"to-xmq"},{"to-xml"},{"render-terminal"},{"render-terminal","--color"},{"render-terminal","--mono"},{"render-html"},{"render-tex","--color"},{"to-htmq"},{"render-terminal","--color","--theme=lightbg"},{"render-terminal","--color","--theme=darkbg"},{"to-json"}};
    string th=TH[choose(TH.size())],fg=FG[choose(FG.size())],te=TE[choose(TE.size())]; auto &cm=CM[choose(CM.size())]; int tty=choose(2);
    if (!run(th+" "+fg+" "+te+" "+cli::join(cm)+(tty?" on a terminal":""))) return;
    if (tty&&(te=="TERM=xterm"||te=="TERM=xterm-256color")&&th.empty()) return; // asks the terminal
    once(); vector<string> env={te}; if (th.size()) env.push_back(th); if (fg.size()) env.push_back(fg);
    // the manual: XMQ_THEME decides; else the kind of terminal; else COLORFGBG; else dark
    bool color=true,dark=true,unspec=false;
    if (th.size()) { if (th=="XMQ_THEME=lightbg") dark=false; else if (th!="XMQ_THEME=darkbg") { color=false; dark=false; } if (th=="XMQ_THEME="||th=="XMQ_THEME=bogus") unspec=true; }
    else if (te=="TERM=linux"||te=="TERM=xterm"||te=="TERM=xterm-256color") {}
    else if (fg.size()) { string v=after(fg); size_t p=v.rfind(';'); string bg=p==string::npos?"":v.substr(p+1); if (bg=="0") dark=true; else if (bg=="15") dark=false; else unspec=true; }
    if (!tty) color=false;
    vector<string> av={"a.xmq"}; av.insert(av.end(),cm.begin(),cm.end()); Out o; o.cmd=cm.size()?cm[0]:"to-xmq"; o.color=color; o.dark=dark; bool bad=false; for (size_t i=1;i<cm.size();++i) option(o,cm[i],bad);
    cli::R r; string got; cli::Opt op; op.env=env; if (tty) { try { got=pty_run(av,env,r); } catch (Unspec&) { mc::count(2); return; } } else { r=cli::run(av,"",op); got=r.out; }
    if (r.status!=0) fail("exit status %d: %s",r.status,cli::join(av).c_str());
    if (unspec) return;
    Doc d; xmqParseBufferWithType(d.d,cli::file("a.xmq").c_str(),NULL,NULL,XMQ_CONTENT_DETECT,0); string want=libprint(d.d,o);
    if (got!=want) fail("%s with %s %s %s%s\n  printed  %s\n  expected %s",cli::join(av).c_str(),th.c_str(),fg.c_str(),te.c_str(),tty?" on a terminal":"",mc::esc(got).substr(0,400).c_str(),mc::esc(want).substr(0,400).c_str());
    mc::outcome(want);
}
// ---- options that are accepted have an effect, or they are refused
static void ph_ignored()
{
    int k=choose(2); if (!run(k?"load --alias":"--lines")) return;
    once();
    if (k==0) { // each line is a document of its own
        cli::R one=cli::run({"-i","a=1\nb=2"}), r=cli::run({"--lines","-i","a=1\nb=2"});
        if (r.status==0&&r.out==one.out&&!mc::known("KF-lines")) fail("--lines has no effect and the exit status is 0");
    } else {
        cli::R one=cli::run({"a.xmq","load","two.xmq"}), r=cli::run({"a.xmq","load","--alias=W","two.xmq"});
        if (r.status==0&&r.out==one.out&&!mc::known("KF-load-alias")) fail("load --alias replaces the first document and the exit status is 0");
    }
    mc::outcome(k);
}
int main(int argc, char **argv)
{
    quiet(); mc::counter_names[0]="specified command lines"; mc::counter_names[1]="unspecified command lines"; mc::counter_names[2]="no terminal to be had";
    return mc::main_(argc,argv,"P21",{{"loading",ph_loading},{"printing",ph_printing},{"syntax",ph_syntax},{"syntax, deeper",ph_syntax_deep},{"pipelines",ph_pipelines},{"tokenize",ph_tokenize},{"short writes",ph_short_writes},{"faults",ph_faults},{"validate",ph_validate},{"parameters",ph_params},{"transform",ph_transform},{"environment",ph_environment},{"ignored options",ph_ignored}});
}
