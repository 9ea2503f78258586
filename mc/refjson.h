// Reference model of JSON, written from RFC 8259, and of what the JSON <-> XMQ mapping does with it.
#pragma once
#include "xq.h"
namespace rj {
using std::string; using std::vector; using std::pair;
struct J { char t='n'; string s; vector<pair<string,J>> m; vector<J> a; }; // t: n null, b true/false (s), 0 number (s), s string, o object, a array
static J jn() { return J(); }
static J jb(bool b) { J j; j.t='b'; j.s=b?"true":"false"; return j; }
static J j0(const string &s) { J j; j.t='0'; j.s=s; return j; }
static J js(const string &s) { J j; j.t='s'; j.s=s; return j; }
static J jo(vector<pair<string,J>> m={}) { J j; j.t='o'; j.m=m; return j; }
static J ja(vector<J> a={}) { J j; j.t='a'; j.a=a; return j; }
static bool same(const J &x, const J &y)
{
    if (x.t!=y.t||x.s!=y.s||x.m.size()!=y.m.size()||x.a.size()!=y.a.size()) return false;
    for (size_t i=0;i<x.m.size();i++) if (x.m[i].first!=y.m[i].first||!same(x.m[i].second,y.m[i].second)) return false;
    for (size_t i=0;i<x.a.size();i++) if (!same(x.a[i],y.a[i])) return false;
    return true;
}
static string jstr(const string &s, int style=0) // style 1: every character as \u, 2: short escapes where possible
{
    string o="\""; char b[16];
    for (size_t i=0;i<s.size();) {
        unsigned char c=s[i]; unsigned u=c; int n=1;
        if (c>=0xf0) { u=c&7; n=4; } else if (c>=0xe0) { u=c&15; n=3; } else if (c>=0xc0) { u=c&31; n=2; }
        for (int k=1;k<n;k++) u=u<<6|(s[i+k]&63);
        const char *sh=strchr("\"\"\\\\//\bb\ff\nn\rr\tt",c); bool isshort=c&&sh&&(c=='"'||c=='\\'||c=='/'||c=='\b'||c=='\f'||c=='\n'||c=='\r'||c=='\t');
        if (style==1) { if (u>=0x10000) { snprintf(b,16,"\\u%04x\\u%04X",0xd800+((u-0x10000)>>10),0xdc00+((u-0x10000)&0x3ff)); o+=b; } else { snprintf(b,16,"\\u%04x",u); o+=b; } }
        else if (isshort&&(c!='/'||style==2)) { o+='\\'; o+= c=='"'?'"':c=='\\'?'\\':c=='/'?'/':c=='\b'?'b':c=='\f'?'f':c=='\n'?'n':c=='\r'?'r':'t'; }
        else if (c<' ') { snprintf(b,16,"\\u%04X",c); o+=b; }
        else o.append(s,i,n);
        i+=n;
    }
    return o+"\"";
}
static string text(const J &j, int style=0)
{
    switch (j.t) {
    case 'n': return "null";
    case 'b': case '0': return j.s;
    case 's': return jstr(j.s,style);
    case 'o': { string o="{"; for (size_t i=0;i<j.m.size();i++) o+=string(i?",":"")+jstr(j.m[i].first,style)+":"+text(j.m[i].second,style); return o+"}"; }
    default: { string o="["; for (size_t i=0;i<j.a.size();i++) o+=string(i?",":"")+text(j.a[i],style); return o+"]"; } }
}
enum V { OK, BAD, UNSPEC };
struct P {
    const char *i,*e; bool bad=false,unspec=false;
    void ws() { while (i<e&&(*i==' '||*i=='\t'||*i=='\n'||*i=='\r')) i++; }
    bool err() { bad=true; return false; }
    bool lit(const char *s) { size_t n=strlen(s); if ((size_t)(e-i)>=n&&!memcmp(i,s,n)) { i+=n; return true; } return false; }
    int hex4() { if (e-i<4) return -1; int v=0; for (int k=0;k<4;k++) { char c=i[k]; int h=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; if (h<0) return -1; v=v*16+h; } i+=4; return v; }
    bool str(string &o) {
        if (i>=e||*i!='"') return err(); i++;
        for (;;) {
            if (i>=e) return err();
            unsigned char c=*i;
            if (c=='"') { i++; return true; }
            if (c<0x20) return err();
            if (c!='\\') { o+=c; i++; continue; }
            i++; if (i>=e) return err();
            c=*i++;
            switch (c) {
            case '"': case '\\': case '/': o+=c; break;
            case 'b': o+='\b'; break; case 'f': o+='\f'; break; case 'n': o+='\n'; break; case 'r': o+='\r'; break; case 't': o+='\t'; break;
            case 'u': { int v=hex4(); if (v<0) return err(); if (v==0) { unspec=true; break; }
                if (v>=0xd800&&v<0xe000) { if (v>=0xdc00||!lit("\\u")) { unspec=true; if (v<0xdc00) {} break; }
                    const char *save=i; int w=hex4(); if (w<0) return err(); if (w<0xdc00||w>0xdfff) { unspec=true; i=save-2; break; }
                    v=0x10000+((v-0xd800)<<10)+(w-0xdc00); }
                o+=xq::utf8(v); break; }
            default: return err(); }
        }
    }
    bool num(string &o) {
        const char *b=i; if (i<e&&*i=='-') i++;
        if (i>=e||*i<'0'||*i>'9') return err();
        if (*i=='0') i++; else while (i<e&&*i>='0'&&*i<='9') i++;
        if (i<e&&*i=='.') { i++; if (i>=e||*i<'0'||*i>'9') return err(); while (i<e&&*i>='0'&&*i<='9') i++; }
        if (i<e&&(*i=='e'||*i=='E')) { i++; if (i<e&&(*i=='+'||*i=='-')) i++; if (i>=e||*i<'0'||*i>'9') return err(); while (i<e&&*i>='0'&&*i<='9') i++; }
        o.assign(b,i); return true;
    }
    bool value(J &j) {
        ws(); if (i>=e) return err();
        char c=*i;
        if (c=='"') { j.t='s'; if (!str(j.s)) return false; }
        else if (c=='{') { j.t='o'; i++; ws(); if (i<e&&*i=='}') i++; else for (;;) { ws(); J v; string k; if (!str(k)) return false; ws(); if (i>=e||*i!=':') return err(); i++; if (!value(v)) return false; j.m.push_back({k,v});
            if (i>=e) return err(); if (*i=='}') { i++; break; } if (*i!=',') return err(); i++; } }
        else if (c=='[') { j.t='a'; i++; ws(); if (i<e&&*i==']') i++; else for (;;) { J v; if (!value(v)) return false; j.a.push_back(v); if (i>=e) return err(); if (*i==']') { i++; break; } if (*i!=',') return err(); i++; } }
        else if (lit("true")) j=jb(true); else if (lit("false")) j=jb(false); else if (lit("null")) j=jn();
        else { j.t='0'; if (!num(j.s)) return false; }
        ws(); return true;
    }
};
static bool valid_utf8(const string &s)
{
    for (size_t i=0;i<s.size();) { unsigned char c=s[i]; int n=c<0x80?1:c>=0xc2&&c<0xe0?2:c>=0xe0&&c<0xf0?3:c>=0xf0&&c<0xf5?4:0; if (!n||i+n>s.size()) return false;
        for (int k=1;k<n;k++) if ((s[i+k]&0xc0)!=0x80) return false; i+=n; }
    return true;
}
// A string with a lone surrogate or a NUL can be read differently by different parsers; both verdicts pass.
static V parse(const string &s, J &j)
{
    P p; p.i=s.data(); p.e=s.data()+s.size();
    bool ok=p.value(j)&&p.i==p.e;
    if (!ok) return BAD;
    return p.unspec||!valid_utf8(s)||s.find('\0')!=string::npos?UNSPEC:OK;
}
// ------------------------------------------------------------- the mapping of keys
static bool name(const string &s) // prefix:name or name
{
    if (s.empty()) return false;
    auto start=[](char c){ return isalpha((unsigned char)c)&&(unsigned char)c<128||c=='_'; };
    int colons=0;
    for (size_t i=0;i<s.size();i++) { char c=s[i]; if (i==0||(s[i-1]==':')) { if (!start(c)) return false; } 
        else if (c==':') { colons++; if (i+1==s.size()) return false; } else if (!(start(c)||(c>='0'&&c<='9')||c=='-'||c=='.'||c=='#')) return false; }
    return colons<2;
}
static bool is_attr(const pair<string,J> &m) { const string &k=m.first; return k.size()>1&&k[0]=='_'&&(m.second.t=='s'||m.second.t=='n')&&name(k.substr(1))&&k!="__"&&k!="_A"&&k!="_S"&&k!="_xmlns"&&k.compare(0,7,"_xmlns:"); }
static bool is_xmlns(const string &k) { return k=="_xmlns"||(k.compare(0,7,"_xmlns:")==0&&name(k.substr(7))&&k.find(':',7)==string::npos); }
static bool indexed(const string &k) { if (k.size()<4||k.back()!=']') return false; size_t i=k.size()-1; while (i&&isdigit((unsigned char)k[i-1])) i--; if (i<2||k[i-1]!='['||i==k.size()-1) return false; string b=k.substr(0,i-1); return name(b)||b=="|"||b=="//"||b=="_//"; }
// What printing must give back. false: uses a key reserved for encoding XML, or the same key twice.
static bool expected(const J &j, J &o, bool nameless=true)
{
    o=j;
    if (j.t=='a') { for (size_t i=0;i<j.a.size();i++) if (!expected(j.a[i],o.a[i],true)) return false; return true; }
    if (j.t!='o') return true;
    vector<pair<string,J>> first,attr,rest; std::set<string> seen;
    for (auto &m:j.m) {
        if (!seen.insert(m.first).second||indexed(m.first)) return false;
        bool str=m.second.t=='s';
        if (str&&(m.first=="|"||m.first=="//"||m.first=="_//"||m.first=="!DOCTYPE")) return false;
        if (str&&is_xmlns(m.first)) return false;
        pair<string,J> n=m; if (!expected(m.second,n.second,false)) return false;
        if (str&&m.first=="_"&&nameless&&name(m.second.s)&&m.second.s!="_") { if (j.m.size()==1&&(m.second.s=="true"||m.second.s=="false"||m.second.s=="null")) return false; // such an xmq text is json
             if (m.second.s.find(':')!=string::npos) return false; first.push_back(n); }
        else if (is_attr(m)) attr.push_back(n);
        else rest.push_back(n);
    }
    o.m=first; o.m.insert(o.m.end(),attr.begin(),attr.end()); o.m.insert(o.m.end(),rest.begin(),rest.end());
    return true;
}
}
