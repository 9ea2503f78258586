// Reference model of IXML (https://invisiblexml.org/1.0/), independent of libxmq: a grammar is an abstract syntax
// tree which can be spelled as ixml text in several ways, and which is turned into a plain context free grammar
// whose derivations over an input are enumerated exhaustively (all of them, up to a cap).
#pragma once
#include "unicat.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>

namespace ixml {
using std::string; using std::vector; using std::map;

static inline vector<unsigned> decode(const string &s)
{
    vector<unsigned> r;
    for (size_t i=0;i<s.size();) {
        unsigned char c=s[i]; int n=c<0x80?1:c<0xe0?2:c<0xf0?3:4; unsigned u=n==1?c:n==2?c&31:n==3?c&15:c&7;
        for (int k=1;k<n&&i+k<s.size();++k) u=u<<6|(s[i+k]&63);
        r.push_back(u); i+=n;
    }
    return r;
}
static inline string encode(unsigned c)
{
    string s;
    if (c<0x80) s+=(char)c;
    else if (c<0x800) { s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); }
    else if (c<0x10000) { s+=(char)(0xe0|c>>12); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); }
    else { s+=(char)(0xf0|c>>18); s+=(char)(0x80|((c>>12)&63)); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); }
    return s;
}

// ------------------------------------------------------------------ abstract syntax
struct Member { int kind; unsigned from, to; string s; };   // 0 range from-to, 1 string of characters, 2 hex character (from), 3 class (s)
enum Kind { STR, HEX, SET, INS, REF, GROUP };
enum Rep { ONE, OPT, STAR, PLUS, STARSEP, PLUSSEP };
struct Term; typedef std::shared_ptr<Term> T;
typedef vector<T> Alt; typedef vector<Alt> Alts;
struct Term {
    Kind k=STR; string s; unsigned c=0; bool exclude=false; vector<Member> m; char mark=0; string alias; Alts alts;
    Rep rep=ONE; T f, sep;      // rep!=ONE: a repetition of f (and sep), all other members unused
};
struct Rule { string name; char mark=0; string alias; Alts alts; };
typedef vector<Rule> Grammar;

static inline T str(const string &s, char mark=0) { T t(new Term); t->k=STR; t->s=s; t->mark=mark; return t; }
static inline T hex(unsigned c, char mark=0) { T t(new Term); t->k=HEX; t->c=c; t->mark=mark; return t; }
static inline T set(const vector<Member> &m, bool ex=false, char mark=0) { T t(new Term); t->k=SET; t->m=m; t->exclude=ex; t->mark=mark; return t; }
static inline T ins(const string &s) { T t(new Term); t->k=INS; t->s=s; return t; }
static inline T insx(unsigned c) { T t(new Term); t->k=INS; t->c=c; return t; }
static inline T nref(const string &n, char mark=0, const string &alias="") { T t(new Term); t->k=REF; t->s=n; t->mark=mark; t->alias=alias; return t; }
static inline T group(const Alts &a) { T t(new Term); t->k=GROUP; t->alts=a; return t; }
static inline T rep(Rep r, T f, T sep=T()) { T t(new Term); t->rep=r; t->f=f; t->sep=sep; return t; }
static inline Member range(unsigned a, unsigned b) { return Member{0,a,b,""}; }
static inline Member chars(const string &s) { return Member{1,0,0,s}; }
static inline Member code(unsigned c) { return Member{2,c,c,""}; }
static inline Member klass(const string &s) { return Member{3,0,0,s}; }

// general category of the characters the harnesses use (a copy of the unicode data for them)
static inline string category(unsigned c)
{
    static const size_t n=sizeof(unicats)/sizeof(unicats[0]);
    size_t lo=0,hi=n;
    while (lo<hi) { size_t m=(lo+hi)/2; if (c>unicats[m].to) lo=m+1; else hi=m; }
    if (lo<n&&c>=unicats[lo].from) return unicats[lo].cat;
    return c>=0xd800&&c<=0xdfff?"Cs":"Cn";
}
static inline bool in_set(const Term &t, unsigned c)
{
    bool in=false;
    for (auto &m:t.m) {
        if (m.kind==0||m.kind==2) in|=c>=m.from&&c<=m.to;
        else if (m.kind==1) { for (unsigned x:decode(m.s)) in|=x==c; }
        else { string g=category(c); in|=g.compare(0,m.s.size(),m.s)==0||(m.s=="LC"&&(g=="Ll"||g=="Lu"||g=="Lt")); }
    }
    return in!=t.exclude;
}

// ------------------------------------------------------------------ spelling
struct Style { string ws; char quote='"'; string def=":"; string alt=";"; string before="", after=""; bool setws=false; bool hexchars=false; };
static inline string hexs(unsigned c) { char b[16]; snprintf(b,16,"#%x",c); return b; }
static inline string quoted(const string &s, char q) { string r(1,q); for (char c:s) { r+=c; if (c==q) r+=c; } return r+q; }
static inline string lit1(unsigned c, const Style &st) { return st.hexchars?hexs(c):quoted(encode(c),st.quote); }
static inline string spell_alts(const Alts &a, const Style &st);
static inline string spell_factor(const Term &t, const Style &st)
{
    const string &w=st.ws; string mk=t.mark?string(1,t.mark)+w:"";
    switch (t.k) {
    case STR: { auto d=decode(t.s); if (st.hexchars&&d.size()==1) return mk+hexs(d[0]); return mk+quoted(t.s,st.quote); }
    case HEX: return mk+hexs(t.c);
    case SET: {
        string r=mk+(t.exclude?"~"+w:"")+"["+w; bool first=true;
        for (auto &m:t.m) {
            if (!first) r+=st.alt+w;
            first=false;
            if (m.kind==0) r+=lit1(m.from,st)+w+"-"+w+lit1(m.to,st);
            else if (m.kind==1) { auto d=decode(m.s); if (st.hexchars&&d.size()==1) r+=hexs(d[0]); else r+=quoted(m.s,st.quote); }
            else if (m.kind==2) r+=hexs(m.from);
            else r+=m.s;
            r+=w;
        }
        return r+"]"; }
    case INS: return "+"+w+(t.c?hexs(t.c):quoted(t.s,st.quote));
    case REF: return mk+t.s+(t.alias.size()?w+">"+w+t.alias:"");
    case GROUP: return "("+w+spell_alts(t.alts,st)+w+")";
    }
    return "";
}
static inline string spell_term(const Term &t, const Style &st)
{
    if (t.rep==ONE) return spell_factor(t,st);
    string f=spell_factor(*t.f,st)+st.ws;
    switch (t.rep) {
    case OPT: return f+"?"; case STAR: return f+"*"; case PLUS: return f+"+";
    case STARSEP: return f+"**"+st.ws+spell_factor(*t.sep,st); case PLUSSEP: return f+"++"+st.ws+spell_factor(*t.sep,st); default: return "";
    }
}
static inline string spell_alts(const Alts &a, const Style &st)
{
    string r;
    for (size_t i=0;i<a.size();++i) {
        if (i) r+=st.ws+st.alt+st.ws;
        for (size_t j=0;j<a[i].size();++j) { if (j) r+=st.ws+","+st.ws; r+=spell_term(*a[i][j],st); }
    }
    return r;
}
static inline string spell(const Grammar &g, const Style &st)
{
    string r=st.before;
    for (auto &x:g) {
        if (x.mark) r+=string(1,x.mark)+st.ws;
        r+=x.name; if (x.alias.size()) r+=st.ws+">"+st.ws+x.alias;
        r+=st.ws+st.def+st.ws+spell_alts(x.alts,st)+st.ws+"."+(st.ws.size()?st.ws:"\n");
    }
    return r+st.after;
}

// ------------------------------------------------------------------ context free grammar
struct Sym { int nt=-1; const Term *t=NULL; unsigned ch=0; bool term=false, isset=false, insertion=false; string text; char mark=0; string alias; };
struct Prod { vector<Sym> rhs; };
struct NT { string name; string alias; char mark='-'; bool user=false; vector<Prod> prods; bool nullable=false, derives=false; };
struct Item { int k; string name, s; vector<Item> kids; };    // 0 text, 1 attribute, 2 element
typedef vector<Item> Forest;
static inline string show(const Forest &f, bool mergeable=true)
{
    string o; vector<string> at; string tx;
    for (auto &x:f) if (x.k==1) at.push_back(" @"+x.name+"='"+x.s+"'");
    std::sort(at.begin(),at.end());
    for (auto &a:at) o+=a;
    o+="[";
    for (auto &x:f) {
        if (x.k==0) tx+=x.s;
        else if (x.k==2) { if (tx.size()) { o+="'"+tx+"'"; tx.clear(); } o+="<"+x.name+show(x.kids)+">"; }
    }
    if (tx.size()) o+="'"+tx+"'";
    return o+"]";
}
static inline void text_of(const Forest &f, string &o) { for (auto &x:f) { if (x.k==0) o+=x.s; else if (x.k==1) o+=x.s; else text_of(x.kids,o); } }

struct Result { bool accepted=false; bool loop=false; unsigned long count=0; bool capped=false; std::set<string> trees; bool odd=false; Forest first; };

struct Model {
    vector<NT> nts; map<string,int> byname; bool undefined=false; bool loop=false; bool duplicate=false;
    Model(const Grammar &g)
    {
        for (auto &r:g) { if (byname.count(r.name)) { duplicate=true; continue; } byname[r.name]=nts.size(); NT n; n.name=r.name; n.alias=r.alias; n.mark=r.mark; n.user=true; nts.push_back(n); }
        for (auto &r:g) { int i=byname[r.name]; for (auto &a:r.alts) { Prod p=seq(a); nts[i].prods.push_back(p); } }
        bool ch=true;
        while (ch) { ch=false; for (auto &n:nts) for (auto &p:n.prods) {
            bool nul=true, der=true;
            for (auto &s:p.rhs) { if (s.nt>=0) { nul&=nts[s.nt].nullable; der&=nts[s.nt].derives; } else if (!s.insertion) nul=false; }
            if (nul&&!n.nullable) n.nullable=ch=true;
            if (der&&!n.derives) n.derives=ch=true;
        } }
        // unit graph
        vector<vector<int>> e(nts.size());
        for (size_t i=0;i<nts.size();++i) for (auto &p:nts[i].prods) for (size_t k=0;k<p.rhs.size();++k) if (p.rhs[k].nt>=0) {
            bool nul=true; for (size_t j=0;j<p.rhs.size();++j) if (j!=k) { auto &s=p.rhs[j]; if (s.nt>=0?!nts[s.nt].nullable:!s.insertion) nul=false; }
            if (nul) e[i].push_back(p.rhs[k].nt);
        }
        vector<int> st(nts.size(),0);
        std::function<void(int)> dfs=[&](int i) { st[i]=1; for (int j:e[i]) { if (st[j]==1) loop=true; else if (!st[j]) dfs(j); } st[i]=2; };
        for (size_t i=0;i<nts.size();++i) if (!st[i]) dfs(i);
    }
    int fresh() { NT n; n.mark='-'; nts.push_back(n); return nts.size()-1; }
    static Sym N(int i) { Sym s; s.nt=i; return s; }
    Prod seq(const Alt &a) { Prod p; for (auto &t:a) term(*t,p); return p; }
    void term(const Term &t, Prod &p)
    {
        if (t.rep==ONE) return factor(t,p);
        Prod f; factor(*t.f,f);
        Prod sp; if (t.sep) factor(*t.sep,sp);
        int x=fresh();
        Prod once=f, more=f; for (auto &s:sp.rhs) more.rhs.push_back(s); more.rhs.push_back(N(x));
        switch (t.rep) {
        case OPT: nts[x].prods={Prod(),f}; break;
        case PLUS: case PLUSSEP: nts[x].prods={once,more}; break;
        default: { nts[x].prods={once,more}; int y=fresh(); nts[y].prods={Prod(),Prod{{N(x)}}}; x=y; }
        }
        p.rhs.push_back(N(x));
    }
    void factor(const Term &t, Prod &p)
    {
        switch (t.k) {
        case STR: for (unsigned c:decode(t.s)) { Sym s; s.term=true; s.ch=c; s.mark=t.mark; p.rhs.push_back(s); } break;
        case HEX: { Sym s; s.term=true; s.ch=t.c; s.mark=t.mark; p.rhs.push_back(s); break; }
        case SET: { Sym s; s.term=true; s.isset=true; s.t=&t; s.mark=t.mark; p.rhs.push_back(s); break; }
        case INS: { Sym s; s.insertion=true; s.text=t.c?encode(t.c):t.s; p.rhs.push_back(s); break; }
        case REF: { auto f=byname.find(t.s); if (f==byname.end()) { undefined=true; p.rhs.push_back(N(fresh())); break; } Sym s=N(f->second); s.mark=t.mark; s.alias=t.alias; p.rhs.push_back(s); break; }
        case GROUP: { int x=fresh(); for (auto &a:t.alts) { Prod q=seq(a); nts[x].prods.push_back(q); } p.rhs.push_back(N(x)); break; }
        }
    }
    // ---- recognition: fixpoint over spans, works for every grammar
    bool accepts(const vector<unsigned> &in) const
    {
        int n=in.size(), m=nts.size();
        vector<char> ok((size_t)m*(n+1)*(n+1),0);
        auto at=[&](int x,int i,int j)->char& { return ok[((size_t)x*(n+1)+i)*(n+1)+j]; };
        bool ch=true;
        while (ch) { ch=false;
            for (int x=0;x<m;++x) for (auto &p:nts[x].prods) for (int i=0;i<=n;++i) {
                vector<char> reach(n+1,0); reach[i]=1;
                for (auto &s:p.rhs) { vector<char> nx(n+1,0);
                    for (int k=i;k<=n;++k) if (reach[k]) {
                        if (s.nt>=0) { for (int j=k;j<=n;++j) if (at(s.nt,k,j)) nx[j]=1; }
                        else if (s.insertion) nx[k]=1;
                        else if (k<n&&match(s,in[k])) nx[k+1]=1;
                    }
                    reach=nx; }
                for (int j=i;j<=n;++j) if (reach[j]&&!at(x,i,j)) { at(x,i,j)=1; ch=true; }
            }
        }
        return at(0,0,n);
    }
    static bool match(const Sym &s, unsigned c) { return s.isset?in_set(*s.t,c):s.ch==c; }
    // ---- all derivations (grammar without loops)
    struct Memo { vector<Forest> f; unsigned long count=0; bool capped=false; };
    mutable map<std::tuple<int,int,int>,Memo> memo; static const size_t CAP=64;
    static unsigned long sat(unsigned long a) { return a>1000000?1000000:a; }
    const Memo &derive(int x, int i, int j, const vector<unsigned> &in) const
    {
        auto key=std::make_tuple(x,i,j);
        auto f=memo.find(key); if (f!=memo.end()) return f->second;
        Memo r; std::set<string> seen;
        for (auto &p:nts[x].prods) {
            Memo s; seqd(p,0,i,j,in,s);
            r.count=sat(r.count+s.count); r.capped|=s.capped;
            for (auto &fo:s.f) add(r,seen,fo);
        }
        return memo[key]=r;
    }
    static void add(Memo &r, std::set<string> &seen, const Forest &fo)
    {
        // forests are compared with their text boundaries merged
        string k=show(fo); if (!seen.insert(k).second) return;
        if (r.f.size()>=CAP) { r.capped=true; return; }
        r.f.push_back(fo);
    }
    bool nullable_from(const Prod &p, size_t k) const { for (;k<p.rhs.size();++k) { auto &s=p.rhs[k]; if (s.nt>=0?!nts[s.nt].nullable:!s.insertion) return false; } return true; }
    void seqd(const Prod &p, size_t k, int i, int j, const vector<unsigned> &in, Memo &out) const
    {
        if (k==p.rhs.size()) { if (i==j) { out.count=1; out.f.push_back(Forest()); } return; }
        auto &s=p.rhs[k]; std::set<string> seen;
        if (s.nt<0) {
            if (s.insertion) { Memo r; seqd(p,k+1,i,j,in,r); out.count=r.count; out.capped=r.capped; for (auto &f:r.f) { Forest g; g.push_back(Item{0,"",s.text,{}}); g.insert(g.end(),f.begin(),f.end()); add(out,seen,g); } return; }
            if (i>=j||!match(s,in[i])) return;
            Memo r; seqd(p,k+1,i+1,j,in,r); out.count=r.count; out.capped=r.capped;
            for (auto &f:r.f) { Forest g; if (s.mark!='-') g.push_back(Item{0,"",encode(in[i]),{}}); g.insert(g.end(),f.begin(),f.end()); add(out,seen,g); }
            return;
        }
        bool restnull=nullable_from(p,k+1);
        for (int m=i;m<=j;++m) {
            if (m==j&&!restnull) break;
            // the rest first: it is often impossible; but never on the same span before it is known to be productive
            if (m==i&&!nts[s.nt].nullable) continue;
            Memo rest; seqd(p,k+1,m,j,in,rest); if (!rest.count) continue;
            const Memo &d=derive(s.nt,i,m,in); if (!d.count) continue;
            out.count=sat(out.count+sat(d.count*rest.count)); out.capped|=d.capped|rest.capped;
            for (auto &a:d.f) for (auto &b:rest.f) { Forest g=wrap(nts[s.nt],s,a); g.insert(g.end(),b.begin(),b.end()); add(out,seen,g); }
        }
    }
    static Forest wrap(const NT &n, const Sym &s, const Forest &a)
    {
        if (!n.user) return a;
        char mk=s.mark?s.mark:n.mark; string name=s.alias.size()?s.alias:n.alias.size()?n.alias:n.name;
        if (mk=='-') return a;
        if (mk=='@') { string v; for (auto &x:a) if (x.k==0) v+=x.s; else if (x.k==1) v+=x.s; else text_of(x.kids,v); return Forest{Item{1,name,v,{}}}; }
        return Forest{Item{2,name,"",a}};
    }
    static bool odd(const Forest &f) // attributes given twice
    {
        std::set<string> at; for (auto &x:f) { if (x.k==1&&!at.insert(x.name).second) return true; if (x.k==2&&odd(x.kids)) return true; }
        return false;
    }
    Result parse(const string &text) const
    {
        Result r; auto in=decode(text); r.loop=loop;
        r.accepted=accepts(in);
        if (loop||!r.accepted) return r;
        memo.clear();
        const Memo &d=derive(0,0,in.size(),in);
        r.count=d.count; r.capped=d.capped;
        Sym top;
        for (auto &f:d.f) {
            Forest w=wrap(nts[0],top,f);
            int el=0, other=0; for (auto &x:w) { if (x.k==2) el++; else if (x.k==1||x.s.size()) other++; }
            if (el!=1||other||odd(w)) r.odd=true;
            r.trees.insert(show(w));
            if (r.first.empty()) r.first=w;
        }
        return r;
    }
};
}
