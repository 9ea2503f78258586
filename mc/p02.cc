// P02: every parse of every byte string ends in a document or a reported error, touches nothing outside the supplied
// range, never aborts, and releases everything. The range is a heap block of exactly the right size under the address
// sanitizer; every parse is repeated while the memory in use is compared.
#include "xq.h"
#include <libxml/xpath.h>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

static const XMQContentType T[]={XMQ_CONTENT_DETECT,XMQ_CONTENT_XMQ,XMQ_CONTENT_HTMQ,XMQ_CONTENT_XML,XMQ_CONTENT_HTML,XMQ_CONTENT_JSON,XMQ_CONTENT_IXML,XMQ_CONTENT_TEXT,XMQ_CONTENT_CLINES};
static const char *TN[]={"detect","xmq","htmq","xml","html","json","ixml","text","clines"};
enum {DET,XMQ,HTMQ,XML,HTML,JSON,IXML,TEXT,CLINES,NT};
static void quiet(void *, const char *, ...) {}
static void once() { static bool done; if (done) return; done=true; xmlSetGenericErrorFunc(NULL,quiet); xmlInitParser(); }

static uint64_t walk(xmlNode *n, uint64_t h)
{   // touch everything that was handed over; iterative, a document may be deep
    xmlNode *top=n?n->parent:NULL;
    while (n) {
        auto mix=[&](const xmlChar *s){ if (s) while (*s) h=(h^*s++)*1099511628211ull; h=(h^255)*1099511628211ull; };
        h=(h^n->type)*1099511628211ull;
        if (n->type!=XML_DTD_NODE) mix(n->name);
        if (n->type==XML_ELEMENT_NODE) { for (xmlAttr *a=n->properties;a;a=a->next) { mix(a->name); for (xmlNode *c=a->children;c;c=c->next) if (c->type==XML_TEXT_NODE) mix(c->content); else mix(c->name); }
            for (xmlNs *s=n->nsDef;s;s=s->next) { mix(s->prefix); mix(s->href); } }
        else if (n->type!=XML_ENTITY_REF_NODE&&n->type!=XML_DTD_NODE&&n->type!=XML_DOCUMENT_NODE) mix(n->content);
        if (n->children&&n->type==XML_ELEMENT_NODE) { n=n->children; continue; }
        while (n&&n!=top&&!n->next) n=n->parent;
        if (!n||n==top) break;
        n=n->next;
    }
    return h;
}
static uint64_t verdict(XMQDoc *d, bool ok, const string &how, const string &s, bool silent)
{   // what a finished parse looks like from the outside
    int err=xmqDocErrno(d); const char *m=xmqDocError(d);
    if (ok&&err) fail("%s returned success but the error number is %d: %s\n  input: %s",how.c_str(),err,m?m:"",mc::esc(s.substr(0,400)).c_str());
    if (!ok&&!err) fail("%s failed without an error number\n  input: %s",how.c_str(),mc::esc(s.substr(0,400)).c_str());
    if (!ok&&!silent&&(!m||!*m)) fail("%s failed with error %d without a message\n  input: %s",how.c_str(),err,mc::esc(s.substr(0,400)).c_str());
    uint64_t h=err; xmlDoc *x=(xmlDoc*)xmqGetImplementationDoc(d);
    if (x) h=walk(x->children,h);
    return h;
}
static bool libxml_error(XMQDoc *d) { int e=xmqDocErrno(d); return e==XMQ_ERROR_PARSING_XML||e==XMQ_ERROR_PARSING_HTML; }
static void parse1(const string &s, int t, int flags=0, const char *implicit=NULL)
{
    string how=string("parsing as ")+TN[t]; uint64_t seen=0; bool first=true;
    mc::leakcheck([&]{
        mc::Exact e(s); XMQDoc *d=xmqNewDoc();
        bool ok=xmqParseBufferWithType(d,e.start,e.stop,implicit,T[t],flags);
        uint64_t h=verdict(d,ok,how,s,libxml_error(d));
        if (!first&&h!=seen) { xmqFreeDoc(d); fail("%s the same bytes twice gives different documents\n  input: %s",how.c_str(),mc::esc(s.substr(0,400)).c_str()); }
        seen=h; first=false;
        if (ok&&t==IXML&&s.size()<200) { // a grammar is there to be used
            static const char *IN[]={"","a","x1"};
            for (const char *in:IN) { XMQDoc *c=xmqNewDoc(); string i=in; mc::Exact ie(i); bool r=xmqParseBufferWithIXML(c,ie.start,ie.stop,d,0); verdict(c,r,"parsing "+q(in)+" with this grammar",s,false); xmqFreeDoc(c); }
        }
        xmqFreeDoc(d);
    });
    mc::outcome(seen^((uint64_t)t<<56));
}
static void all(const string &s)
{
    once();
    for (int t=0;t<NT;t++) parse1(s,t);
    mc::Exact e(s); int ct=xmqDetectContentType(e.start,e.stop);
    if (ct<XMQ_CONTENT_UNKNOWN||ct>XMQ_CONTENT_CLINES) fail("detected content type %d",ct);
}
// ------------------------------------------------------------------ short byte strings
static void bytes2()
{
    int n=choose(3); string s; for (int i=0;i<n;i++) s+=(char)choose(256);
    if (!run("bytes "+q(s))) return;
    all(s);
}
static void bytes3()
{
    static const string A=[]{ string a("\0\t\n\r\x0b\x7f\x80\xbf\xc2\xe2\xef\xf0\xff",13); for (char c=' ';c<127;c++) a+=c; return a; }();
    int n=3; string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("bytes "+q(s))) return;
    all(s);
}
static void bytes4()
{
    static const string A("\0\n '\"(){}[]=/*&;a<>.:!?#1,-\\|",sizeof("\0\n '\"(){}[]=/*&;a<>.:!?#1,-\\|")-1);
    int n=mc::tier_pick(4,5); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("bytes "+q(s))) return;
    all(s);
}
static void utf8()
{   // everything that can start a character at the end of the input, after and before something else
    static const vector<string> B={"","a=","'","a='","/*","//","<a>","<a x='","{\"","\"","a:'","a:#","&#","a(b=","((","a=&"};
    static const vector<string> E={"","'","\"","}","1"};
    int b=choose(B.size()),lead=0x80+choose(128),k=choose(4); string s=B[b]+string(1,(char)lead);
    static const unsigned char C[]={0x80,0xbf,0x41,0xc0,0xff};
    for (int i=0;i<k;i++) s+=(char)C[choose(i<2?5:3)];
    s+=E[choose(E.size())];
    if (!run("utf8 "+q(s))) return;
    all(s);
}
// ------------------------------------------------------------------ sequences of tokens of every format
static void tokens()
{
    struct L { int t; vector<string> tok; int q,th; };
    static const vector<L> F={
        {XMQ,{"a","x1","=","'","''","'''","b'c","{","}","(",")","((","))","/*","*/","///*","*///","//","\n"," ","&x;","&#10;","&","!DOCTYPE","?pi","\t","\"",":","xmlns","\\"},4,5},
        {JSON,{"{","}","[","]",",",":","\"a\"","\"","\\","\\u","d83d","\\ude00","1","-","true","nul"," ","\n","\"_\":","\"|\":","\"!DOCTYPE\":","\"?p\":","\"//\":"},4,5},
        {XML,{"<a","<b>","</a>","</",">","/>"," x=","'v'","\"","<!--","-->","<![CDATA[","]]>","<?p","?>","<!DOCTYPE a","[","<!ENTITY e 'v'>","&e;","&#1;","&","t"},4,5},
        {HTML,{"<p>","<html","<!doctype html>","</p>","<br/>","<script>","</script>","<td>","<","&nbsp","&nbsp;","&#x","x='","<!--","--","<pre>","\n","t",">","<svg:a>","</html>"},4,5},
        {IXML,{"a","b",":","=",".",";","|","'x'","\"y\"","#41","[","]","'a'-'c'","L","~","(",")","*","+","**","++","?","^","@","-",">","{","}"," ","ixml version '1.0'","!"},4,5},
    };
    int f=choose(F.size()),n=choose(1+mc::tier_pick(F[f].q,F[f].th)); if (n<1) n=0; string s; for (int i=0;i<n;i++) s+=F[f].tok[choose(F[f].tok.size())];
    if (!run(string(TN[F[f].t])+" tokens "+q(s))) return;
    once();
    parse1(s,F[f].t); if (F[f].t!=IXML) parse1(s,DET);
}
static void grammar_tokens()
{   // ixml needs a longer start before anything interesting happens
    static const vector<string> A={"'x'","\"\"","b","a","c","(",")","*","++","?","-","^","@","[L]","~['a']","|",",",".","b:","#0","+'i'",">z","{","}","'"};
    static const vector<std::pair<string,string>> W={{"a:",". b:'x'."},{"a:",""},{"-a:b",".b:."},{"a:b. @b>c:","."}};
    int w=choose(W.size()),n=1+choose(mc::tier_pick(3,4)); string s=W[w].first; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+=W[w].second;
    if (!run("ixml "+q(s))) return;
    once(); parse1(s,IXML);
}
// ------------------------------------------------------------------ damaged documents
static const vector<std::pair<int,string>> &docs()
{
    static const vector<std::pair<int,string>> D={
        {XMQ,"<"}, // placeholder for an empty detection
        {XMQ,"!DOCTYPE = 'html [<!ENTITY a \"b\">]'\n?pi = 'x y'\n// comment\na(xmlns = 'u' xmlns:p = 'v' p:b = '1' c) {\n    /* multi\n       line */\n    p:d = 'some ''quoted\n         text'\n    e = ((&#10; 'x' &nbsp; '''y'''))\n    'text' &#x1f600;\n    f = http://x/y?a=1&b\n}\n"},
        {XMQ,"a(b=c d=(&#9;'e')f='''g'h''')'x'{i{j=k l}///*m*/n*///}/*o*/"},
        {XMQ,"_(S)=1 _(A){_{x=null y=true z(S)=1}}"},
        {XMQ,"////*a*//*///*b\n  c*////d\n//\n////////e"},
        {XMQ,"''''''''a'''b''''''''=1"},
        {XMQ,"'\n    x\n      y\n    ' z='\n\n'"},
        {XMQ,"\xc3\xa5\xc3\xa4=\xf0\x9f\x98\x80 b='\xe2\x80\x98\xc2\xa0'"},
        {HTMQ,"!DOCTYPE=html html{head{title=x script='<>&'}body{p(class=x id=y){'a' b=c &nbsp; 'd'}br}}"},
        {XML,"<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!DOCTYPE a [<!ENTITY e \"v\"><!ELEMENT a ANY>]>\n<!-- c -->\n<a xmlns='u' xmlns:p='v' p:b='&lt;&e;&#10;'><?pi x?><![CDATA[<>]]]]><b/>\n  text &e; &amp;&#x1F600;<!----></a>\n"},
        {XML,"<?xml version='1.0' encoding='ISO-8859-1'?><a>\xe5\xe4<b c='\xf6'/></a>"},
        {XML,"<a><b> x </b>\n  <c>\n    y\n    z\n  </c>\xe2\x90\x90\xe2\x90\xa4</a>"},
        {XML,"<!DOCTYPE a PUBLIC '-//x//y' 'z.dtd' [<!ENTITY % p '<!ENTITY q \"r\">'> %p; <!ENTITY s SYSTEM 'nofile'><!ATTLIST a b CDATA 'def'><!NOTATION n SYSTEM 'm'>]><a>&q;&s;</a>"},
        {XML,"<!DOCTYPE a [<!ENTITY a 'aaaaaaaaaa'><!ENTITY b '&a;&a;&a;&a;&a;&a;&a;&a;&a;&a;'><!ENTITY c '&b;&b;&b;&b;&b;&b;&b;&b;&b;&b;'><!ENTITY d '&c;&c;&c;&c;&c;&c;&c;&c;&c;&c;'><!ENTITY e '&d;&d;&d;&d;&d;&d;&d;&d;&d;&d;'>]><a b='&e;'>&e;&r;</a>"},
        {HTML,"<!DOCTYPE html>\n<html><head><meta charset=utf-8><title>a&amp;b</title><style>p>a{}</style><script>if (a<b) {}</script></head><body class=x><p>a<b>c<i>d</b>e</i><br>&nbsp;&copy&#x41;<!-- c --><pre>\n x </pre><table><tr><td>1<td>2</table></body></html>"},
        {HTML,"<p a='1' a=\"2\" b c=>x</p><svg:path d=1/></q><li>y"},
        {JSON,"{\"a\":{\"b\":[1,-2.5e+10,true,false,null,\"x\\n\\u00e5\\ud83d\\ude00\\\\\\\"\"]},\"\":{},\"_\":[],\"x y\":\"z\",\"p:q\":1,\"_xmlns:p\":\"u\",\"c[1]\":2}"},
        {JSON,"{\"_\":\"a\",\"!DOCTYPE\":\"html\",\"?pi\":\"x y\",\"//\":\"c\",\"_k\":\"v\",\"|\":\"t\",\"&\":\"nbsp\",\"c\":{\"|[1]\":\"x\",\"b\":null,\"|[2]\":\"y\"}}"},
        {JSON,"[[],{},[{}],\"\",0,[[1,[2,[3]]]]]"},
        {IXML,"ixml version \"1.0\".\n{c {nested}} date: -day, @month>m; y. day: d, d?. -d: [\"0\"-\"9\"; L; #e5]. month: 'x'++','**\";\". y = ~[Nd; 'a'-'z']*, +\"ins\", (#41 | -\"q\")+, \"a\"\"b\"; .\n"},
        {IXML,"a:b,c|(d|e)*.b:'x'.c:\"y\"?.d:['a'-'b';Lu].e:."},
        {TEXT,"line 1\n\tline 2\r\n\n  \xc3\xa5'''\n"},
        {CLINES,"\"a\\n\"\n\"b\\t\\\"\\\\\\x41\\101\"\n  \"c\" \"d\"\n"},
    };
    return D;
}
static void parse_own(const string &s, int t) { once(); parse1(s,t); parse1(s,t==IXML?TEXT:DET); }
static void substrings()
{
    int d=choose(docs().size()); const string &D=docs()[d].second; int a=choose(D.size()+1);
    int b=a+choose(D.size()+1-a); // empty, and every end
    string s=D.substr(a,b-a);
    if (!run(string(TN[docs()[d].first])+" part ["+std::to_string(a)+","+std::to_string(b)+") of "+q(D))) return;
    parse_own(s,docs()[d].first);
}
static void edits()
{   // one byte replaced, inserted or removed, a range doubled
    static const string A("\0\t\n\r !\"#&'()*+,-./0:;<=>?@X[\\]^_{|}\x80\xc3\xff",sizeof("\0\t\n\r !\"#&'()*+,-./0:;<=>?@X[\\]^_{|}\x80\xc3\xff")-1);
    int d=choose(docs().size()); const string &D=docs()[d].second; int kind=choose(mc::thorough()?5:4),a=choose(D.size()+(kind==1)); string s=D,what;
    if (kind<2) { char c=A[choose(A.size())]; if (!kind) s[a]=c; else s.insert(a,1,c); what=(kind?"insert ":"replace ")+q(string(1,c)); }
    else if (kind==2) { int n=1+choose(8); s.erase(a,n); what="remove "+std::to_string(n); }
    else if (kind==3) { static const int N[]={1,2,3,5,8,13,40}; int n=N[choose(7)]; s.insert(a,s.substr(a,n)); what="double "+std::to_string(n); }
    else { char c=(char)choose(256); s[a]=c; what="replace "+q(string(1,c)); }
    if (!run(what+" at "+std::to_string(a)+" in "+q(D))) return;
    parse_own(s,docs()[d].first);
}
static void splice()
{   // the beginning of one document followed by the end of another
    int d=choose(docs().size()),e=choose(docs().size()); const string &D=docs()[d].second,&E=docs()[e].second; int step=mc::tier_pick(7,3);
    int a=choose(D.size()/step+1)*step,b=choose(E.size()/step+1)*step; string s=D.substr(0,a)+E.substr(b);
    if (!run("first "+std::to_string(a)+" of "+q(D)+" and from "+std::to_string(b)+" of "+q(E))) return;
    parse_own(s,docs()[d].first);
}
// ------------------------------------------------------------------ ways to call
static void calls()
{
    static const int FL[]={0,XMQ_FLAG_TRIM_NONE,XMQ_FLAG_TRIM_HEURISTIC,XMQ_FLAG_TRIM_EXACT,XMQ_FLAG_NOMERGE,XMQ_FLAG_TRIM_HEURISTIC|XMQ_FLAG_NOMERGE};
    static const char *IR[]={NULL,"","x","p:x"};
    int d=choose(docs().size()),f=choose(6),i=choose(4),t=choose(NT+2); const string &D=docs()[d].second; int len=choose(4); string s=len==0?D:len==1?D.substr(0,D.size()/2):len==2?D.substr(0,D.size()/3):D+D;
    if (!run("flags "+std::to_string(FL[f])+" implicit root "+(IR[i]?q(IR[i]):"none")+" entry "+std::to_string(t)+" for "+q(s))) return;
    once();
    if (t<NT) { parse1(s,t,FL[f],IR[i]); return; }
    if (t==NT) { mc::leakcheck([&]{ mc::Exact e(s); XMQDoc *x=xmqNewDoc(); bool ok=xmqParseBuffer(x,e.start,e.stop,IR[i],FL[f]); verdict(x,ok,"xmqParseBuffer",s,false); xmqFreeDoc(x); }); return; }
    // zero terminated
    string z=s.substr(0,s.find('\0'))+string(1,'\0');
    for (int k=0;k<NT;k++) mc::leakcheck([&]{ mc::Exact e(z); XMQDoc *x=xmqNewDoc(); bool ok=xmqParseBufferWithType(x,e.start,NULL,IR[i],T[k],FL[f]); verdict(x,ok,string("zero terminated ")+TN[k],s,libxml_error(x)); xmqFreeDoc(x); });
    mc::leakcheck([&]{ mc::Exact e(z); XMQDoc *x=xmqNewDoc(); bool ok=xmqParseBuffer(x,e.start,NULL,IR[i],FL[f]); verdict(x,ok,"xmqParseBuffer",s,false); xmqFreeDoc(x); });
}
static void again()
{   // several parses into one document: the last one decides about the error
    static const vector<std::pair<int,string>> P={{XMQ,"a=1"},{XMQ,"a{"},{XMQ,"a=1 b"},{XML,"<a>1</a>"},{XML,"<a>"},{HTML,"<p>x"},{HTML," "},{JSON,"{\"a\":1}"},{JSON,"[1,"},{TEXT,"t"},{CLINES,"\"c\""},{IXML,"a:'x'."},{IXML,"a:'x'"},{DET,"\xff\xfe"},{XML,"a=1"},{JSON,"<a/>"},{XMQ,""}};
    int n=2+choose(2); int k[3]; string what; for (int i=0;i<n;i++) { k[i]=choose(P.size()+2); what+=(i?", ":"")+(k[i]<(int)P.size()?string(TN[P[k[i]].first])+" "+q(P[k[i]].second):k[i]==(int)P.size()?string("missing file"):string("with grammar")); }
    if (!run("into one document: "+what)) return;
    once();
    mc::leakcheck([&]{
        XMQDoc *g=xmqNewDoc(); { string gs="a:'x'."; mc::Exact e(gs); xmqParseBufferWithType(g,e.start,e.stop,NULL,XMQ_CONTENT_IXML,0); }
        XMQDoc *d=xmqNewDoc();
        for (int i=0;i<n;i++) {
            bool ok; if (k[i]==(int)P.size()) ok=xmqParseFileWithType(d,"/nonexistent/file",NULL,XMQ_CONTENT_XMQ,0);
            else if (k[i]>(int)P.size()) { string x=i%2?"x":"y"; mc::Exact e(x); ok=xmqParseBufferWithIXML(d,e.start,e.stop,g,0); }
            else { mc::Exact e(P[k[i]].second); ok=xmqParseBufferWithType(d,e.start,e.stop,NULL,T[P[k[i]].first],0); }
            verdict(d,ok,"parse number "+std::to_string(i+1)+" of "+what,"",libxml_error(d));
        }
        xmqFreeDoc(d); xmqFreeDoc(g);
    });
}
// ------------------------------------------------------------------ content for grammars
static void content()
{
    static const vector<string> G={"a:~[]*.","a:[L;'0'-'9']*.","a:b*. b:'x';-'y';c. @c:'z'.","a:('x'|'xx')*.","a:'(',a,')';.","-a:b++c. ^b:~[' ']+. -c:-' '.","a:['a';#e5;#1f600]*.","a:b;c. b:'x'. c:'x'."};
    static const string A("x(y)\xc3\xa5 z\0\x80\xff\n",sizeof("x(y)\xc3\xa5 z\0\x80\xff\n")-1);
    static std::vector<XMQDoc*> ready(G.size());
    int g=choose(G.size()),fl=choose(3),n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(n<4?12:mc::tier_pick(7,12))];
    if (!run("grammar "+q(G[g])+" flags "+std::to_string(fl)+" content "+q(s))) return;
    once(); static const int FL[]={0,XMQ_FLAG_IXML_ALL_PARSES,XMQ_FLAG_IXML_TRY_TO_RECOVER};
    mc::leakcheck([&]{
        XMQDoc *gd=xmqNewDoc(); mc::Exact ge(G[g]); if (!xmqParseBufferWithType(gd,ge.start,ge.stop,NULL,XMQ_CONTENT_IXML,0)) fail("grammar refused: %s",xmqDocError(gd));
        mc::Exact e(s); XMQDoc *d=xmqNewDoc(); bool ok=xmqParseBufferWithIXML(d,e.start,e.stop,gd,FL[fl]);
        verdict(d,ok,"parsing with a grammar",s,FL[fl]==XMQ_FLAG_IXML_TRY_TO_RECOVER); xmqFreeDoc(d); xmqFreeDoc(gd);
    });
}
// ------------------------------------------------------------------ sizes and nesting
static string rep(const string &s, size_t n) { string r; r.reserve(s.size()*n); for (size_t i=0;i<n;i++) r+=s; return r; }
static void sizes()
{
    static const vector<size_t> N={1,2,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,2049,4095,4096,4097,8191,8192,8193,16383,16384,16385,32767,32768,65535,65536,65537,131072};
    struct S { int t; const char *name; string pre,unit,mid,post,end; };
    static const vector<S> F={ // pre unit^n mid post^n end
        {XMQ,"name","","a","=1","",""},{XMQ,"value","a=","x","","",""},{XMQ,"quote","a='","x","","","'"},{XMQ,"quote of newlines","a='","\n","","","'"},{XMQ,"quotes","a=","'","","",""},{XMQ,"quoted quotes","a=","'","x","'",""},
        {XMQ,"comment","//","x","","",""},{XMQ,"slashes","","/","*x*","/",""},{XMQ,"slashes only","","/","","",""},{XMQ,"attributes","a(","b ","","",")"},{XMQ,"children","a{","b ","","","}"},{XMQ,"entities","a=(","&#10;","","",")"},{XMQ,"entity name","&","x","","",";"},
        {XMQ,"compound","a=(","'x' ","","",")"},{XMQ,"whitespace","a"," ","","","=1"},{XMQ,"newlines","a","\n","","","=1"},{XMQ,"not closed quote","a='","x","","",""},{XMQ,"not closed body","a{","b ","","",""},{XMQ,"bad char in a long line","a='","x","'","","\x01"},{XMQ,"bad char after","a=\x01","x","","",""},{XMQ,"prefixes","","p:a=1 ","","",""},{XMQ,"utf8","a=","\xc3\xa5","","",""},{XMQ,"doctype","!DOCTYPE='","x","","","'"},{XMQ,"lines before an error","","a=1\n","","","}"},
        {JSON,"string","\"","x","","","\""},{JSON,"escapes","\"","\\n","","","\""},{JSON,"array","[1",",1","","","]"},{JSON,"object","{\"a\":1",",\"b\":1","","","}"},{JSON,"key","{\"","k","","","\":1}"},{JSON,"number","","1","","",""},{JSON,"not closed","[",  "1,","","",""},{JSON,"bad string","\"","x","","","\\q\""},
        {XML,"text","<a>","x","","","</a>"},{XML,"children","<a>","<b/>","","","</a>"},{XML,"attribute","<a b='","x","","","'/>"},{XML,"comment","<a><!--","x","","","--></a>"},{XML,"blank lines","<a>","\n ","","","</a>"},{XML,"bad","<a>","x","","","<"},
        {HTML,"text","<p>","x","","","</p>"},{HTML,"paragraphs","<html>","<p>","","","</html>"},{HTML,"comment","<p><!--","x","","",""},
        {IXML,"string","a:'","x","","","'."},{IXML,"rules","a:'x'.","b:'y'.","","",""},{IXML,"alternatives","a:'x'",";'y'","","","."},{IXML,"sequence","a:'x'",",'y'","","","."},{IXML,"set","a:['x'",";'y'","","","]."},{IXML,"comment","{","x","","","}a:'x'."},{IXML,"comments","","{","","}","a:'x'."},{IXML,"name","","n","","",":'x'."},{IXML,"hex","a:#","0","","","41."},{IXML,"bad","a:'","x","","","'"},
        {TEXT,"text","","x","","",""},{TEXT,"lines","","x\n","","",""},{CLINES,"lines","","\"x\"\n","","",""},{CLINES,"line","\"","x","","","\""},
    };
    int f=choose(F.size()),n=choose(N.size());
    size_t limit=F[f].t==IXML&&(f>0)?(F[f].name==string("rules")||F[f].name==string("alternatives")||F[f].name==string("sequence")||F[f].name==string("set"))?2049:131072:F[f].name==string("attributes")||F[f].name==string("object")||F[f].name==string("prefixes")?8193:131072;
    if (N[n]>limit) return;
    if (!run(string(TN[F[f].t])+" "+F[f].name+" of size "+std::to_string(N[n]))) return;
    once(); string s=F[f].pre+rep(F[f].unit,N[n])+F[f].mid+rep(F[f].post,N[n])+F[f].end;
    mc::case_cpu_seconds=60; parse1(s,F[f].t); if (F[f].t!=IXML) parse1(s,DET);
}
static void nesting()
{   // the deepest levels that fit, and far deeper ones, closed and not
    static const vector<size_t> N={1,2,10,100,255,256,257,1000,1024,2000,2048,3000,4000,4096,4999,5000,5001,6000,8192,10000,20000,50000,100000,200000,1000000};
    struct S { int t; const char *name; string pre,unit,mid,post,end; };
    static const vector<S> F={
        {XMQ,"elements","","a{","","}",""},{XMQ,"elements with attributes","","a(b=c){","x=1","}",""},{XMQ,"elements not closed","","a{","","",""},{XMQ,"too many closed","a","","","}",""},{XMQ,"elements, siblings","","a{b ","","}",""},{XMQ,"with prefixes","","p:a(xmlns:p=u){","","}",""},{XMQ,"undeclared prefixes","","p:a{","","}",""},{XMQ,"compounds","a=","(","'x'",")",""},{XMQ,"comments","","/*","","*/",""},
        {HTMQ,"elements","","div{","","}",""},
        {JSON,"arrays","","[","","]",""},{JSON,"objects","","{\"a\":","1","}",""},{JSON,"arrays not closed","","[","","",""},{JSON,"objects not closed","","{\"a\":","","",""},{JSON,"mixed","","[{\"k\":","1","}]",""},{JSON,"with prefixes","","{\"p:a\":","1","}",""},{JSON,"only closed","","","","]",""},{JSON,"unsafe keys","","{\"x y\":","1","}",""},
        {XML,"elements","","<a>","","</a>",""},{XML,"not closed","","<a>","","",""},
        {HTML,"elements","","<div>","","</div>",""},{HTML,"not closed","","<b>","","",""},{HTML,"lists","","<ul><li>","","</li></ul>",""},
        {IXML,"groups","a:","(","'x'",")","."},{IXML,"groups not closed","a:","(","'x'","",""},{IXML,"repeated groups","a:","(","'x'",")*","."},{IXML,"optional groups","a:","(","'x'",")?","."},{IXML,"comments","","{","","}","a:'x'."},{IXML,"only open","a:","(","","",""},
    };
    int f=choose(F.size()),n=choose(N.size());
    if (F[f].t==HTML&&N[n]>100000) return; // quadratic inside libxml2
    if (F[f].name==string("comments")&&N[n]>20000) return; // one node collects all the pieces
    if (!run(string(TN[F[f].t])+" nested "+F[f].name+" to level "+std::to_string(N[n]))) return;
    once(); string s=F[f].pre+rep(F[f].unit,N[n])+F[f].mid+rep(F[f].post,N[n])+F[f].end;
    mc::case_cpu_seconds=60; parse1(s,F[f].t); if (F[f].t!=IXML) parse1(s,DET);
}
static void deep_content()
{   // parse trees as deep as the content is long
    static const vector<string> G={"a:a,'x';'x'.","a:b. -b:b,'x';'x'.","a:'x'+.","a:(-b|'x')+. b:.","top:a. a:b,'x';'x'. b:a.","a:b+. b:'x'.","a:b. @b:'x'+.","a:('x'|b)*. b:'x'.","a:'x',a?."};
    static const vector<size_t> N={1,1000,4998,4999,5000,5001,5002,10001,30000,100001};
    int g=choose(G.size()),fl=choose(2),n=choose(N.size()); if (N[n]>(g>=8||g==3||fl?5002u:100001u)) return;
    if (fl&&(g==7||g==3)&&N[n]>1) return; // two to the power of n parses
    if (!run("grammar "+q(G[g])+" flags "+std::to_string(fl)+" content of length "+std::to_string(N[n]))) return;
    once(); string s(N[n],'x'); mc::case_cpu_seconds=120;
    mc::leakcheck([&]{
        XMQDoc *gd=xmqNewDoc(); mc::Exact ge(G[g]); if (!xmqParseBufferWithType(gd,ge.start,ge.stop,NULL,XMQ_CONTENT_IXML,0)) fail("grammar refused: %s",xmqDocError(gd));
        mc::Exact e(s); XMQDoc *d=xmqNewDoc(); bool ok=xmqParseBufferWithIXML(d,e.start,e.stop,gd,fl?XMQ_FLAG_IXML_ALL_PARSES:0); verdict(d,ok,"parsing with a grammar","",false); xmqFreeDoc(d); xmqFreeDoc(gd);
    });
}
int main(int argc, char **argv)
{
    mc::case_cpu_seconds=20;
    return mc::main_(argc,argv,"P02",{{"bytes2",bytes2},{"bytes3",bytes3},{"bytes4",bytes4},{"utf8",utf8},{"tokens",tokens},{"grammar_tokens",grammar_tokens},{"substrings",substrings},{"edits",edits},{"splice",splice},{"calls",calls},{"again",again},{"content",content},{"sizes",sizes},{"nesting",nesting},{"deep_content",deep_content}});
}
