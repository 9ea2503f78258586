// P09: every coloured rendering shows exactly the characters of the plain output.
#include "forms.h"
#include "strip.h"
using namespace forms;
using mc::choose; using mc::run; using mc::fail;
static string between(const string &t, const string &from, const string &to, const char *what)
{
    size_t a=t.find(from); if (a==string::npos) fail("%s rendering without %s: %s",what,from.c_str(),mc::esc(t.substr(0,300)).c_str()); a+=from.size();
    size_t b=t.rfind(to); if (b==string::npos||b<a) fail("%s rendering without final %s",what,mc::esc(to).c_str());
    return t.substr(a,b-a);
}
static void balanced_html(const string &t)
{   // the whole page: every element is closed
    vector<string> open;
    for (size_t i=0;i<t.size();i++) if (t[i]=='<') {
        size_t e=t.find('>',i); if (e==string::npos) fail("tag never closed"); string g=t.substr(i+1,e-i-1); g=g.substr(0,g.find(' '));
        if (g[0]=='!'||g=="meta") continue;
        if (g[0]=='/') { if (open.empty()||open.back()!=g.substr(1)) fail("<%s> closes <%s>",g.c_str(),open.empty()?"":open.back().c_str()); open.pop_back(); } else open.push_back(g);
    }
    if (open.size()) fail("<%s> is never closed",open.back().c_str());
}
static void balanced_tex(const string &t)
{
    int d=0; for (size_t i=0;i<t.size();i++) { if (t[i]=='\\'&&i+1<t.size()&&strchr("{}",t[i+1])) { i++; continue; } if (t[i]=='{') d++; if (t[i]=='}'&&--d<0) fail("tex group closed twice"); }
    if (d) fail("%d tex groups never closed",d);
}
static void check(xmlDoc *x, const Set &base)
{
    Doc d; adopt(d,x);
    string plain=print(d.d,base); mc::outcome(plain);
    string before=dump(d);
    if (plain.empty()||plain.back()!='\n') fail("plain output does not end with a newline");
    string body=plain.substr(0,plain.size()-1);
    for (int dark=0;dark<2;dark++) for (int raw=0;raw<2;raw++) {
        Set s=base; s.dark=dark; s.raw=raw; s.color=true; string md=dark?"xmq_dark":"xmq_light", o, g;
        if (!raw||dark) {
            s.render=XMQ_RENDER_TERMINAL; if (raw) s.theme="lightbg"; o=print(d.d,s); s.theme=NULL;
            g=strip_ansi(o); if (g!=plain) fail("terminal rendering shows %s\n  plain: %s",q(g).c_str(),q(plain).c_str());
            size_t l=o.rfind('\x1b'); if (l!=string::npos&&o.compare(l,4,"\x1b[0m")) fail("the terminal colour is not reset at the end: %s",mc::esc(o).c_str());
        }
        s.render=XMQ_RENDER_HTML; o=print(d.d,s);
        g=strip_html(between(o,"<pre class=\"xmq "+md+"\">","</pre>","html")); if (g!=body) fail("html rendering shows %s\n  plain: %s\n  html: %s",q(g).c_str(),q(body).c_str(),mc::esc(o).c_str());
        balanced_html(o);
        if (raw&&o!="<pre class=\"xmq "+md+"\">"+between(o,"<pre class=\"xmq "+md+"\">","</pre>","html")+"</pre>\n") fail("raw html has something around the pre element");
        if (!raw&&(o.compare(0,22,"<!DOCTYPE html>\n<html>")||o.find("<body class=\""+md+"\"><pre ")==string::npos)) fail("html page frame is broken: %s",mc::esc(o.substr(0,200)).c_str());
        s.render=XMQ_RENDER_TEX; o=print(d.d,s);
        g=strip_tex(between(o,"\\texttt{\\flushleft\\noindent ","\n}\n","tex")); if (g!=body) fail("tex rendering shows %s\n  plain: %s\n  tex: %s",q(g).c_str(),q(body).c_str(),mc::esc(o).c_str());
        balanced_tex(o);
    }
    Set s=base; s.render=XMQ_RENDER_TERMINAL; s.color=false; string o=print(d.d,s); if (o!=plain) fail("terminal rendering without colours shows %s\n  plain: %s",q(o).c_str(),q(plain).c_str());
    s.render=XMQ_RENDER_HTMQ; o=print(d.d,s); if (o!=plain) fail("htmq rendering shows %s\n  plain: %s",q(o).c_str(),q(plain).c_str());
    // markup of the caller's choice
    XMQOutputSettings *os=make_settings(base); xmqOverrideSettings(os,"\x01I","\x01S","\x01T","\x01R","\x01N");
    char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b); xmqPrint(d.d,os); string m(a,b), r; free(a); xmqFreeOutputSettings(os);
    for (size_t i=0;i<m.size();i++) { if (m[i]!=1) { r+=m[i]; continue; } char c=m[++i]; r+=c=='N'?'\n':c=='T'?'\t':c=='R'?'\r':' '; }
    if (r!=plain) fail("with caller supplied white space the output is %s\n  plain: %s",q(m).c_str(),q(plain).c_str());
    if (dump(d)!=before) fail("rendering changed the document");
}
static Set setting(int i) { Set s; if (i==1) s.compact=true; if (i==2) s.non7=s.nl=true; if (i==3) { s.indent=1; s.tab=true; } if (i==4) { s.compact=s.non7=s.tab=true; } return s; }
#define START D=newdoc(); N root=el((N)D,"root")
static void documents()
{
    int n=1+choose(3); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NF); int st=choose(n<3?4:2), wrap=choose(2);
    string d="children"; for (int i=0;i<n;i++) d+=string(i?", ":" ")+F[f[i]].name;
    if (!run(d+" "+setname(setting(st))+(wrap?" nested":""))) return;
    START; N p=wrap?el(root,"in"):root; if (wrap) at(p,"k_l","v"); for (int i=0;i<n;i++) F[f[i]].make(p);
    check(D,setting(st));
}
static const vector<string> A={"a"," ","\n","'","&","<",">","\\","{","}","#","_","\"","\xc2\xa0","\t","é","$","(",";","\xe2\x80\x83","/","%","~","^"};
static void texts()
{
    int n=1+choose(mc::tier_pick(3,4)); string t; for (int i=0;i<n;i++) t+=A[choose(A.size())]; int where=choose(7), st=choose(n<3?5:2);
    if (!run("text "+q(t)+" at "+std::to_string(where)+" "+setname(setting(st)))) return;
    START;
    switch (where) {
    case 0: tx(el(root,"e"),t); break;
    case 1: { N e=el(root,"e"); at(e,"k",t.c_str()); at(e,"l",t.c_str()); break; }
    case 2: tx(root,t); el(root,"x"); tx(root,t); break;
    case 3: co(root,t); el(root,"x"); break;
    case 4: { N p=pi(root,"p",t.c_str()); (void)p; break; }
    case 5: { N e=el(root,"e"); tx(e,t); en(e,"foo"); tx(e,t); tx(el(root,"after"),"1"); break; }
    case 6: { N e=el(root,"e"); xmlNewNs(e,X(t),X("p")); xmlNewNs(e,X(t),NULL); at(e,"k","v"); break; } }
    check(D,setting(st));
}
static void longer()
{   // several lines of several words, in every place that is printed over several lines
    static const vector<string> L={"","x","  y","'","a b ","<&>","\\{_}","\xc2\xa0z"};
    int n=2+choose(mc::tier_pick(2,4)); string t; for (int i=0;i<n;i++) { if (i) t+="\n"; t+=L[choose(L.size())]; } int where=choose(4), st=choose(3);
    if (!run("lines "+q(t)+" at "+std::to_string(where)+" "+setname(setting(st)))) return;
    START; N p=el(el(root,"in"),"deeper");
    switch (where) { case 0: tx(el(p,"e"),t); break; case 1: { N e=el(p,"e"); at(e,"k",t.c_str()); at(e,"longer","1"); tx(e,t); break; } case 2: tx(p,t); el(p,"x"); break; case 3: co(p,t); el(p,"x"); break; }
    check(D,setting(st));
}
static bool legal(unsigned c) { return (c>=0x20&&c<0xd800&&c!=0x7f)||(c>=0xe000&&c<0xfffe)||(c>=0x10000&&c<=0x10ffff); }
static void codepoints()
{   // every code point, some of them are highlighted
    static const unsigned B=32; int nb=0x3100/B; int blk=choose(mc::thorough()?0x20000/B:nb+24), where=choose(4), st=choose(2);
    unsigned base=mc::thorough()||blk<nb?blk*B:blk<nb+16?0xfe00+(blk-nb)*B:0x1f600+(blk-nb-16)*B;
    char h[32]; snprintf(h,32,"U+%04X",base);
    if (!run(string("code points from ")+h+" at "+std::to_string(where)+" "+setname(setting(st)))) return;
    START; string all; int k=0;
    for (unsigned c=base;c<base+B;c++) if (legal(c)) { string u=utf8(c), t=c%2?"x"+u+"y":u; k++;
        switch (where) { case 0: tx(el(root,"e"),t); break; case 1: at(el(root,"e"),"k",t.c_str()); break; case 2: tx(root,t); el(root,"x"); break; default: co(root,t+"\n"+t); el(root,"x"); } }
    if (!k) return;
    check(D,setting(st));
}
static void sizes()
{   // every dimension of a document, across the sizes of buffers and counters
    int kind=choose(forms::NSIZED), n=forms::pick_size(kind); int st=choose(2);
    if (!run("sizes kind "+std::to_string(kind)+" size "+std::to_string(n)+" "+setname(setting(st)))) return;
    check(forms::sized(kind,n),setting(st));
}
static void names()
{
    static const vector<string> M={"a","a_b","_","x-y","x.y","long_name_with_many_parts"};
    int a=choose(M.size()),b=choose(M.size()),ns=choose(4),st=choose(2),at2=choose(2),kids=choose(3);
    if (!run("names "+M[a]+" "+M[b]+" ns "+std::to_string(ns)+" attribute "+std::to_string(at2)+" kids "+std::to_string(kids)+" "+setname(setting(st)))) return;
    START; xmlNs *x=ns?xmlNewNs(root,X(ns==1?"http://www.w3.org/1999/XSL/Transform":"http://u_v/"),ns==3?NULL:X(ns==1?"xsl":"p_q")):NULL;
    N e=el(root,M[a].c_str()); if (x) xmlSetNs(e,x); if (at2) { xmlAttr *k=at(e,M[b].c_str(),"v_w"); if (x&&x->prefix) k->ns=x; }
    if (kids==1) tx(e,"x_{}y"); if (kids==2) { N f=el(e,M[b].c_str()); if (x) xmlSetNs(f,x); tx(f,"z"); en(e,"ent_ity"); }
    check(D,setting(st));
}
static void prolog()
{
    int a=choose(4),b=choose(4),c=choose(4),st=choose(2);
    if (!run("prolog "+std::to_string(a)+std::to_string(b)+std::to_string(c)+" "+setname(setting(st)))) return;
    D=newdoc(); auto put=[&](int k,int w){ if (k==1) co((N)D," c<> "); if (k==2) pi((N)D,"p","a &'b"); if (k==3&&w==0) { xmlCreateIntSubset(D,X("html"),X("-//W3C//DTD <X>"),X("http://x/\"")); } if (k==3&&w) co((N)D,"two\n  lines {_}"); };
    put(a,0); put(b,1); el((N)D,"root"); put(c,2);
    check(D,setting(st));
}
static void page()
{   // id and class of the html element, and the style sheet
    static const int SZ[]={63,64,100,127,128,255,256,500,512,900,950,960,970,980,985,990,995,1000,1020,1023,1024,1025,2048,4096,10000}; static vector<string> LV; if (LV.empty()) { LV={"","x","a-b","c d"}; for (int z:SZ) LV.push_back(string(z,'v')); }
    int i=choose(LV.size()),c=choose(LV.size()),dark=choose(2); const char *V[40]; for (size_t k=0;k<LV.size();k++) V[k]=k?LV[k].c_str():NULL; auto nm=[&](int k) { return k>3?std::to_string(LV[k].size())+" bytes":k?LV[k]:"none"; };
    if (!run("html id "+nm(i)+" class "+nm(c)+(dark?" dark":" light"))) return;
    START; tx(root,"t"); Doc d; adopt(d,D);
    XMQOutputSettings *os=xmqNewOutputSettings(); xmqSetRenderFormat(os,XMQ_RENDER_HTML); xmqSetBackgroundMode(os,dark); xmqSetRenderRaw(os,true); xmqRenderHtmlSettings(os,V[i],V[c]); xmqSetupDefaultColors(os);
    char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b); xmqPrint(d.d,os); string m(a,b); free(a); xmqFreeOutputSettings(os);
    string want=string("<pre ")+(V[i]?string("id=\"")+V[i]+"\" ":"")+"class=\"xmq "+(dark?"xmq_dark":"xmq_light")+(V[c]?string(" ")+V[c]:"")+"\"><xmqEK>root</xmqEK>=<xmqEKV>t</xmqEKV></pre>\n";
    if (strip_html(m)!="root=t\n"&&strip_html(m)!="root = t\n") fail("shows %s",mc::esc(m).c_str());
    if (m.compare(0,want.find('>')+1,want.substr(0,want.find('>')+1))) fail("starts with %s, want %s",mc::esc(m.substr(0,80)).c_str(),want.c_str());
}
int main(int c, char **v) { quiet(); return mc::main_(c,v,"P09",{{"documents",documents},{"texts",texts},{"lines",longer},{"code points",codepoints},{"sizes",sizes},{"names",names},{"prolog",prolog},{"page",page}}); }
