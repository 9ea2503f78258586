// P08: the tokens of a source cover it exactly, stand where they say and survive colouring.
#include "xmqspace.h"
#include "strip.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

struct Out { bool ok; int err; string msg, text; };
enum How { DEBUG, CONTENT, TERMINAL, HTML, TEX };
static Out tokenize(const string &s, How how, bool dark, bool color)
{
    mc::Exact e(s); Out o;
    XMQParseCallbacks *cb=xmqNewParseCallbacks(); XMQOutputSettings *os=xmqNewOutputSettings();
    XMQRenderFormat rf=how==TERMINAL?XMQ_RENDER_TERMINAL:how==HTML?XMQ_RENDER_HTML:how==TEX?XMQ_RENDER_TEX:XMQ_RENDER_PLAIN;
    if (how==DEBUG) xmqSetupParseCallbacksDebugTokens(cb);
    else if (how==CONTENT) xmqSetupParseCallbacksDebugContent(cb);
    else { xmqSetRenderFormat(os,rf); xmqSetUseColor(os,color); xmqSetBackgroundMode(os,dark); xmqSetRenderRaw(os,true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb,rf); }
    char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b);
    XMQParseState *st=xmqNewParseState(cb,os);
    o.ok=xmqTokenizeBuffer(st,e.start,e.stop); o.err=xmqStateErrno(st); const char *m=xmqStateErrorMsg(st); if (m) o.msg=m;
    if (a) o.text.assign(a,b); free(a);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    return o;
}
#define MAPC(c) ((c)=='a'?'\a':(c)=='b'?'\b':(c)=='t'?'\t':(c)=='n'?'\n':(c)=='v'?'\v':(c)=='f'?'\f':'\r')
struct T { string type, text; size_t line, col; char kind; };
static vector<T> tokens(const string &d)
{
    vector<T> r; size_t i=0;
    while (i<d.size()&&d[i]=='[') {
        T t; size_t e=d.find(" \"",i); if (e==string::npos) fail("unreadable token stream %s",mc::esc(d).c_str());
        t.type=d.substr(i+1,e-i-1); i=e+2;
        for (;;) { if (i>=d.size()) fail("unreadable token %s",mc::esc(d).c_str()); char c=d[i++]; if (c=='"') break; if (c!='\\') { t.text+=c; continue; }
            c=d[i++]; if (c=='x') { t.text+=(char)strtol(d.substr(i,2).c_str(),NULL,16); i+=2; } else if (c>='0'&&c<='7') { int v=c-'0'; for (int k=0;k<2&&i<d.size()&&d[i]>='0'&&d[i]<='7';++k) v=v*8+(d[i++]-'0'); t.text+=(char)v; } else if (c&&strchr("abtnvfr",c)) t.text+=MAPC(c); else t.text+=c; }
        int n=0; if (sscanf(d.c_str()+i," %zu:%zu]%n",&t.line,&t.col,&n)<2||!n) fail("token without position %s",mc::esc(d.substr(i)).c_str());
        i+=n; r.push_back(t);
    }
    if (d.substr(i)!="\n") fail("token stream ends with %s",mc::esc(d.substr(i)).c_str());
    return r;
}
static char kind(const string &t)
{
    auto has=[&](const char *x){ return t.find(x)!=string::npos; };
    if (t=="whitespace") return 'w'; if (t=="equals") return '='; if (t=="brace_left") return '{'; if (t=="brace_right") return '}';
    if (t=="apar_left"||t=="cpar_left") return '('; if (t=="apar_right"||t=="cpar_right") return ')';
    if (has("entity")) return 'e'; if (has("comment")) return 'c'; if (has("quote")) return 'q'; if (has("value_text")) return 'v';
    if (has("element_")||has("attr_")||has("ns_")) return 'n';
    return '?';
}
// A name is a key or a name, in the element or in the attribute list, as its place in the grammar says.
static void roles(const vector<T> &t, const string &s)
{
    int attr=0, comp=0; bool value=false;
    for (size_t i=0;i<t.size();i++) {
        const string &y=t[i].type;
        if (y=="apar_left") attr++; else if (y=="apar_right") attr--; else if (y=="cpar_left") { comp++; if (!value) fail("compound opened without a value in %s",q(s).c_str()); } else if (y=="cpar_right") { comp--; value=false; }
        if (attr<0||comp<0||attr>1||comp>1) fail("unbalanced parenthesis tokens");
        if (y=="equals") { value=true; continue; }
        if (y=="whitespace"||y.compare(0,7,"comment")==0) continue;
        char k=kind(y);
        if (k=='v'||k=='q'||k=='e') {
            string want=string(attr?"attr_value_":"element_value_")+(comp?"compound_":"")+(k=='v'?"text":k=='q'?"quote":"entity");
            if (!value) want=k=='q'?"quote":"entity";
            if (y!=want) fail("token %s at %zu:%zu reported as %s, want %s",q(t[i].text).c_str(),t[i].line,t[i].col,y.c_str(),want.c_str());
            if (!comp) value=false;
        } else if (k=='n') {
            if (attr ? (y!="attr_ns"&&y!="attr_key"&&y!="ns_declaration"&&y!="ns_colon") : (y!="element_ns"&&y!="element_name"&&y!="element_key"&&y!="ns_colon"))
                fail("name %s at %zu:%zu reported as %s",q(t[i].text).c_str(),t[i].line,t[i].col,y.c_str());
        }
    }
    if (attr||comp) fail("unbalanced parenthesis tokens");
}
static string content_of(const ref::Tok &k, const string &s)
{   // what a quote denotes
    string x=s.substr(k.from,k.to-k.from); size_t n=0; while (n<x.size()&&x[n]=='\'') n++;
    if (n==x.size()) return "";
    size_t col=0; for (size_t a=k.from;a>0&&s[a-1]!='\n';) { a--; if (((unsigned char)s[a]&0xc0)!=0x80) col++; }
    return ref::trim_quote(x.substr(n,x.size()-2*n),col+n);
}
static void check(const string &s, const char *implicit)
{
    XMQContentType ct=xmqDetectContentType(s.data(),s.data()+s.size());
    Out d=tokenize(s,DEBUG,true,true);
    if (ct!=XMQ_CONTENT_XMQ) { mc::count(3); if (d.ok||d.err!=XMQ_ERROR_NOT_XMQ) fail("content detected as %d: tokenize gives %d error %d",ct,d.ok,d.err); return; }
    ref::Result r=ref::parse(s,"",true);
    if (r.ok&&!d.ok) fail("valid source cannot be tokenized: %d %s",d.err,d.msg.c_str());
    if (r.unspec) { mc::count(2); }
    else if (r.ok!=d.ok) fail("%s, but the grammar says %s (%s at %zu:%zu)",d.ok?"tokenized":"not tokenized",r.ok?"valid":"invalid",r.ok?"":xmqParseErrorToString((XMQParseError)r.nr),r.line,r.col);
    if (!d.ok) {
        mc::count(1); mc::outcome((uint64_t)d.err);
        if (!d.err||d.msg.empty()) fail("tokenizing failed without an error");
        if (!r.unspec&&d.err!=r.nr) fail("error %d, want %d",d.err,r.nr);
        if (d.text.size()) fail("output delivered although tokenizing failed");
        if (tokenize(s,TERMINAL,true,true).ok) fail("colouring succeeds where debug tokens fail");
        return;
    }
    mc::count(0);
    if (d.err) fail("tokenized with error %d",d.err);
    vector<T> t=tokens(d.text); mc::outcome(d.text);
    string all; size_t line=1,col=1;
    for (auto &k:t) {
        if (!r.unspec&&k.text.empty()&&kind(k.type)!='v') fail("empty token %s",k.type.c_str());
        if (s.compare(all.size(),k.text.size(),k.text)) fail("token %s %s is not the source at offset %zu of %s",k.type.c_str(),q(k.text).c_str(),all.size(),q(s).c_str());
        if (k.line!=line||k.col!=col) fail("token %s %s reported at %zu:%zu, it stands at %zu:%zu",k.type.c_str(),q(k.text).c_str(),k.line,k.col,line,col);
        for (char c:k.text) { if (c=='\n') { line++; col=1; } else if (((unsigned char)c&0xc0)!=0x80) col++; }
        all+=k.text;
    }
    if (all!=s) fail("tokens cover only %zu of %zu bytes",all.size(),s.size());
    if (!r.unspec) {   // the spans are the tokens of the grammar
        vector<T> m; for (auto &k:t) { if (k.text.empty()) continue; char c=kind(k.type); if (c=='?') fail("unknown token kind %s",k.type.c_str()); if (m.size()&&c==m.back().kind&&(c=='n'||c=='w'||c=='c')) m.back().text+=k.text; else { m.push_back(k); m.back().kind=c; } }
        vector<std::pair<string,char>> w; for (auto &k:r.toks) { if (k.from==k.to) continue; string x=s.substr(k.from,k.to-k.from); if (w.size()&&k.kind==w.back().second&&(k.kind=='n'||k.kind=='w'||k.kind=='c')) w.back().first+=x; else w.push_back({x,k.kind}); }
        string a,b; for (auto &k:m) a+=string(1,k.kind)+q(k.text)+" "; for (auto &k:w) b+=string(1,k.second)+q(k.first)+" ";
        if (a!=b) fail("spans are not the tokens of the grammar\n  want: %s\n  got:  %s",b.c_str(),a.c_str());
        roles(t,s);
    }
    for (int dark=0;dark<2;dark++) {
        string md=dark?"xmq_dark":"xmq_light", x;
        Out o=tokenize(s,TERMINAL,dark,true); if (!o.ok) fail("terminal colouring failed");
        if ((x=strip_ansi(o.text))!=s) fail("terminal rendering shows %s",q(x).c_str());
        if (s.find_first_of("{}()=")!=string::npos&&o.text==s) fail("terminal rendering has no colours");
        o=tokenize(s,HTML,dark,true); if (!o.ok) fail("html colouring failed");
        if ((x=strip_html(unwrap(o.text,"<pre class=\"xmq "+md+"\">","</pre>","html")))!=s) fail("html rendering shows %s: %s",q(x).c_str(),mc::esc(o.text).c_str());
        o=tokenize(s,TEX,dark,true); if (!o.ok) fail("tex colouring failed");
        if ((x=strip_tex(unwrap(o.text,"\\texttt{\\flushleft\\noindent ","\n}\n","tex")))!=s) fail("tex rendering shows %s: %s",q(x).c_str(),mc::esc(o.text).c_str());
    }
    Out o=tokenize(s,TERMINAL,true,false); if (!o.ok||o.text!=s) fail("without colours the terminal rendering is %s",q(o.text).c_str());
    o=tokenize(s,CONTENT,true,false); if (!o.ok) fail("content tokenizing failed");
    if (!r.unspec) {   // values and quotes as they are denoted
        string rest=o.text; size_t i=0;
        for (auto &k:r.toks) {
            if (k.kind!='v'&&k.kind!='q'&&k.kind!='c') continue;
            string pre=k.kind=='v'?"{value \"":k.kind=='q'?"{quote \"":"{comment \"";
            if (k.kind=='c'&&rest.compare(i,pre.size(),pre)) continue;   // a continuation
            if (rest.compare(i,pre.size(),pre)) fail("content stream %s: %s expected at %zu",mc::esc(rest).c_str(),pre.c_str(),i);
            i+=pre.size(); string v;
            for (;;) { if (i>=rest.size()) fail("content stream cut"); char c=rest[i++]; if (c=='"') break; if (c!='\\') { v+=c; continue; } c=rest[i++]; if (c=='x') { v+=(char)strtol(rest.substr(i,2).c_str(),NULL,16); i+=2; } else if (c>='0'&&c<='7') { int o=c-'0'; for (int k=0;k<2&&i<rest.size()&&rest[i]>='0'&&rest[i]<='7';++k) o=o*8+(rest[i++]-'0'); v+=(char)o; } else if (c&&strchr("abtnvfr",c)) v+=MAPC(c); else v+=c; }
            if (rest[i++]!='}') fail("content stream broken");
            if (k.kind=='v'&&v!=s.substr(k.from,k.to-k.from)) fail("value %s reported as %s",q(s.substr(k.from,k.to-k.from)).c_str(),q(v).c_str());
            if (k.kind=='q'&&v!=content_of(k,s)) fail("quote %s reported as %s",q(s.substr(k.from,k.to-k.from)).c_str(),q(v).c_str());
        }
        if (rest.substr(i)!="\n") fail("content stream ends with %s",mc::esc(rest.substr(i)).c_str());
    }
}
int main(int c, char **v)
{
    quiet(); mc::counter_names[0]="tokenized"; mc::counter_names[1]="rejected"; mc::counter_names[2]="unspecified"; mc::counter_names[3]="not xmq";
    space::check=check; space::shorten=1;
    return mc::main_(c,v,"P08",space::phases);
}
