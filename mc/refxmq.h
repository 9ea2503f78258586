// Reference XMQ parser, written from the XMQ grammar (doc/xmq.tex) and the documented errors, independent of
// the code under test. It yields either the canonical dump (same notation as xq::dump) or the error kind and position.
#pragma once
#include "xq.h"
#include <memory>

namespace ref {
using std::string; using std::vector; using std::shared_ptr;

struct NS { bool dflt; string prefix, href; bool declared; };
struct Node {
    enum K { ELEM, TEXT, COMMENT, PI, ENT, DTD } k; string name, prefix, content; bool hasprefix=false;
    struct Attr { string prefix,name; bool hasprefix; vector<shared_ptr<Node>> kids; };
    vector<Attr> attrs; vector<shared_ptr<NS>> defs; vector<shared_ptr<Node>> kids; Node *parent=NULL;
    explicit Node(K x):k(x){}
};
typedef shared_ptr<Node> P;
struct Err { int nr; size_t at; bool posfree; };
struct Tok { size_t from,to; char kind; };   // w hitespace, n ame, = ( ) { } q uote e ntity c omment v alue

static inline string predef(const string &n) { return n=="amp"?"&":n=="lt"?"<":n=="gt"?">":n=="quot"?"\"":n=="apos"?"'":""; }

// ---- the documented quote rule. col is the number of columns before the first content character.
// unspec is set for tabs in the indentation, which the documentation does not define.
static inline bool blank(const string &l) { return l.find_first_not_of(" \t\r")==string::npos; }
static inline string trim_quote(const string &s, size_t col, bool *unspec=NULL)
{
    for (size_t k=0;unspec&&k<s.size();k++) if (s[k]=='\r'&&(k+1==s.size()||s[k+1]!='\n')) *unspec=true;   // a lone carriage return
    vector<string> L; { size_t a=0; for (;;) { size_t b=s.find('\n',a); if (b==string::npos) { L.push_back(s.substr(a)); break; } L.push_back(s.substr(a,b-a)); a=b+1; } }
    if (L.size()==1) return s;                                    // one line: verbatim
    size_t lead=0, trail=0;                                       // line breaks kept at either end
    size_t first=0, last=L.size();
    while (first<last && blank(L[first])) first++;
    if (first==last) return string(L.size()-2,'\n');             // only blank lines
    while (blank(L[last-1])) last--;
    if (first>0) lead=first-1;
    if (last<L.size()) trail=L.size()-last-1;
    bool trimmed_end=last<L.size();
    size_t inc=first==0?col:string::npos;
    for (size_t i=first;i<last;i++) {
        if (blank(L[i])||(i==0)) continue;
        size_t n=L[i].find_first_not_of(' ');
        if (L[i][n]=='\t'&&unspec) *unspec=true;
        if (n<inc) inc=n;
    }
    string o(lead,'\n');
    for (size_t i=first;i<last;i++) {
        string l=L[i];
        bool lastline=i+1==last;
        // whitespace before a line break goes away
        if (!lastline || trimmed_end) { size_t e=l.find_last_not_of(" \t\r"); l=e==string::npos?"":l.substr(0,e+1); }
        if (i==0) { if (col>inc) l=string(col-inc,' ')+l; }
        else l=l.size()>inc?l.substr(inc):"";
        if (i>first) o+="\n";
        o+=l;
    }
    return o+string(trail,'\n');
}

struct Parser {
    const string s; size_t i=0; bool unspec=false; string implicit; bool notrim=false, syntax=false;  // syntax: only what a tokenizer can see is an error
    P doc; Node *top; bool root_seen=false, doctype=false;
    size_t last_body=0,last_attr=0,last_eq=string::npos;
    vector<Tok> toks; int depth=0;
    Parser(const string &src, const string &impl=""):s(src),implicit(impl),doc(new Node(Node::ELEM)),top(doc.get()){}

    [[noreturn]] void err(int nr, size_t at, bool posfree=false) { throw Err{nr,at,posfree}; }
    int c(size_t k=0) const { return i+k<s.size()?(unsigned char)s[i+k]:-1; }
    static bool namec(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='-'||c=='_'||c=='.'||c==':'||c=='#'; }
    static bool elemstart(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'; }
    size_t wslen(size_t k) const { // any whitespace character
        unsigned char a=k<s.size()?s[k]:0,b=k+1<s.size()?s[k+1]:0,d=k+2<s.size()?s[k+2]:0;
        if (k>=s.size()) return 0;
        if (a==' '||a=='\n'||a=='\r'||a=='\t') return 1;
        if (a==0xc2&&b==0xa0) return 2;
        if (a==0xe2&&b==0x80&&d>=0x80&&d<=0x83) return 3;
        return 0;
    }
    void tok(size_t from, char k) { toks.push_back({from,i,k}); }
    void ws() { // between tokens; tabs are never permitted
        if (!(c()==' '||c()=='\n'||c()=='\r'||c()=='\t')) return;
        size_t f=i;
        while (i<s.size()&&wslen(i)&&c()!='\t') i+=wslen(i);
        if (c()=='\t') err(XMQ_ERROR_UNEXPECTED_TAB,i);
        tok(f,'w');
    }
    size_t col(size_t at) const { size_t n=1; while (at>0&&s[at-1]!='\n') { at--; if (((unsigned char)s[at]&0xc0)!=0x80) n++; } return n; }
    size_t line(size_t at) const { return 1+std::count(s.begin(),s.begin()+at,'\n'); }

    // ------------------------------------------------------------ lexical elements
    size_t run(char ch, size_t at) const { size_t n=0; while (at+n<s.size()&&s[at+n]==ch) n++; return n; }
    string quote()
    {
        size_t st=i, n=run('\'',i); size_t k=i+n;
        if (n==2) { i=k; tok(st,'q'); return ""; }
        for (;;) {
            size_t e=s.find('\'',k);
            if (e==string::npos) err(XMQ_ERROR_QUOTE_NOT_CLOSED,st);
            size_t m=run('\'',e);
            if (m>n) err(XMQ_ERROR_QUOTE_CLOSED_WITH_TOO_MANY_QUOTES,st);
            if (m==n) { string body=s.substr(st+n,e-st-n); i=e+n; tok(st,'q'); return trim_quote(body,col(st)-1+n,&unspec); }
            k=e+m;
        }
    }
    // returns the name of a named entity or the character of a character reference
    void entity(string &name, string &ch)
    {
        size_t st=i; size_t k=i+1; bool needsemi=false;
        while (k<s.size()&&namec((unsigned char)s[k])) { if (!((s[k]>='0'&&s[k]<='9')||(s[k]>='a'&&s[k]<='f'))) needsemi=true; k++; }
        string nm=s.substr(st+1,k-st-1);
        bool semi=k<s.size()&&s[k]==';';
        if (nm.empty()||(needsemi&&!semi)) err(XMQ_ERROR_ENTITY_NOT_CLOSED,st);
        if (nm[0]=='#') {
            bool hex=nm.size()>1&&nm[1]=='x'; string dg=nm.substr(hex?2:1); unsigned long v=0; bool ok=!dg.empty();
            for (char x:dg) { int d= x>='0'&&x<='9'?x-'0':x>='a'&&x<='f'?x-'a'+10:x>='A'&&x<='F'?x-'A'+10:99; if (d>=(hex?16:10)) { ok=false; break; } v=v*(hex?16:10)+d; if (v>0x10ffff) { ok=false; break; } }
            if (!ok||v==0||(v>=0xd800&&v<=0xdfff)) err(XMQ_ERROR_INVALID_CHAR,st);
            ch=xq::utf8(v);
        } else name=nm;
        i=k+(semi?1:0); tok(st,'e');
    }
    static string strip_comment_body(const string &raw, size_t col, bool *unspec)
    { string b=raw; if (b.size()&&b[0]==' ') { b.erase(0,1); col++; } if (b.size()&&b.back()==' ') b.pop_back(); return trim_quote(b,col,unspec); }
    P comment()
    {
        size_t st=i, n=run('/',i); P r(new Node(Node::COMMENT));
        if (s[i+n<s.size()?i+n:0]!='*'||i+n>=s.size()) {
            size_t e=s.find('\n',i); string b=s.substr(i,(e==string::npos?s.size():e)-i); i=e==string::npos?s.size():e+1;
            if (b.find_first_not_of('/')==string::npos&&b.size()>2) unspec=true; // a line of slashes
            b=b.substr(std::min(n,b.size())); if (b.size()&&b[0]==' ') b.erase(0,1);
            if (e!=string::npos) { size_t x=b.find_last_not_of(" \t\r"); b=x==string::npos?"":b.substr(0,x+1); }
            else { if (b.find_last_not_of(" \t\r")!=b.find_last_not_of(" ")) unspec=true; size_t x=b.find_last_not_of(' '); b=x==string::npos?"":b.substr(0,x+1); }
            r->content=b; tok(st,'c'); return r;
        }
        // i at slashes, then star; parts may continue with another star after the closing slashes
        size_t part=i, star=i+n; bool first=true;
        for (;;) {
            size_t k=star+1; size_t close=string::npos, m=0;
            for (;;) {
                size_t e=s.find("*/",k);
                // a closing star may not be the opening one
                if (e==string::npos) err(XMQ_ERROR_COMMENT_NOT_CLOSED,part);
                m=run('/',e+1);
                if (m>n) err(XMQ_ERROR_COMMENT_CLOSED_WITH_TOO_MANY_SLASHES,part);
                if (m==n) { close=e; break; }
                k=e+1;
            }
            string body=strip_comment_body(s.substr(star+1,close-star-1),col(star),&unspec);
            r->content+=(first?"":"\n")+body; first=false;
            i=close+1+n; tok(part,'c');
            if (c()=='*') { part=i; star=i; continue; }
            return r;
        }
    }
    // ------------------------------------------------------------ nodes
    Node *cur() { return top; }
    static void add(Node *p, P n) { n->parent=p; p->kids.push_back(n); }
    static void text(vector<P> &to, const string &t) { P n(new Node(Node::TEXT)); n->content=t; to.push_back(n); }
    void ent(vector<P> &to, bool plainvalue=false)
    {
        string nm,ch; entity(nm,ch);
        if (!syntax&&plainvalue&&nm.size()&&predef(nm).empty()) err(XMQ_ERROR_INVALID_CHAR,toks.back().from);  // cannot be stored in a plain string
        if (nm.empty()) text(to,ch); else { P n(new Node(Node::ENT)); n->name=nm; to.push_back(n); }
    }
    // a value after = ; plain values of pi, doctype, xmlns are strings
    void value(vector<P> &to, bool plainvalue=false)
    {
        ws();
        if (c()=='\'') text(to,quote());
        else if (c()=='&') ent(to,plainvalue);
        else if (c()=='(') {
            size_t f=i; i++; tok(f,'(');
            for (;;) {
                ws();
                if (c()<0) err(XMQ_ERROR_COMPOUND_NOT_CLOSED,i);
                if (c()==')') { f=i; i++; tok(f,')'); break; }
                if (c()=='\'') text(to,quote());
                else if (c()=='&') ent(to,plainvalue);
                else err(XMQ_ERROR_COMPOUND_MAY_NOT_CONTAIN,i);
            }
        }
        else {
            if (c()=='='||c()=='&'||(c()=='/'&&(c(1)=='/'||c(1)=='*'))) err(XMQ_ERROR_VALUE_CANNOT_START_WITH,i);
            size_t f=i;
            while (i<s.size()&&!wslen(i)&&!strchr("(){}'\"",s[i])) i++;
            tok(f,'v');
            text(to,s.substr(f,i-f));
        }
    }
    string plain(vector<P> &v)
    {
        string o; for (auto &n:v) if (n->k==Node::ENT) { string p=predef(n->name); o+=p; } else o+=n->content;
        return o;
    }
    static bool xmlname(const string &n)
    { if (n.empty()||!elemstart((unsigned char)n[0])) return false; for (unsigned char ch:n) if (!namec(ch)||ch==':'||ch=='#') return false; return true; }
    void attributes(Node *e)
    {
        last_attr=i; size_t open=i; i++; tok(open,'(');
        for (;;) {
            ws();
            if (c()==')') { size_t f=i; i++; tok(f,')'); return; }
            if (c()<0||!namec(c())) err(XMQ_ERROR_ATTRIBUTES_NOT_CLOSED,last_attr);
            size_t f=i; while (c()>=0&&namec(c())) i++;
            string nm=s.substr(f,i-f), pre; size_t co=nm.rfind(':'); bool has=co!=string::npos; if (has) { pre=nm.substr(0,co); nm=nm.substr(co+1); }
            tok(f,'n');
            ws(); vector<P> v;
            if (c()=='=') { size_t q=i; i++; tok(q,'='); value(v,(!has&&nm=="xmlns")||(has&&pre=="xmlns")); }
            if ((!has&&nm=="xmlns")||(has&&pre=="xmlns")) {
                shared_ptr<NS> ns(new NS); ns->dflt=!has; ns->prefix=has?nm:""; ns->declared=true; ns->href=plain(v);
                if (has&&!xmlname(nm)) unspec=true;
                if (has&&ns->href.empty()) unspec=true;            // a prefix cannot be undeclared
                if (nm=="xml"||(has&&nm=="xmlns")) unspec=true;
                for (auto &d:e->defs) if (d->dflt==ns->dflt&&d->prefix==ns->prefix) unspec=true;
                e->defs.push_back(ns);
            } else {
                if (!xmlname(nm)||(has&&!xmlname(pre))) unspec=true;
                Node::Attr a; a.name=nm; a.prefix=pre; a.hasprefix=has; a.kids=v; e->attrs.push_back(a);
            }
        }
    }
    void element()
    {
        size_t f=i; bool dt=c()=='!', pi=c()=='?';
        if (dt||pi) i++;
        while (c()>=0&&namec(c())) i++;
        string nm=s.substr(f,i-f), pre; size_t co=(dt||pi)?string::npos:nm.rfind(':'); bool has=co!=string::npos; if (has) { pre=nm.substr(0,co); nm=nm.substr(co+1); }
        tok(f,'n');
        size_t k=i; while (k<s.size()&&(s[k]==' '||s[k]=='\t'||s[k]=='\n'||s[k]=='\r')) k++;
        bool key=k<s.size()&&s[k]=='=';
        if (dt) {
            if (!key) { if (syntax) unspec=true; err(XMQ_ERROR_BAD_DOCTYPE,i,true); }
            ws(); size_t q=i; i++; tok(q,'='); last_eq=q;
            { size_t k=i; while (k<s.size()&&wslen(k)&&s[k]!='\t') k+=wslen(k); if (k>i&&k<s.size()&&s[k]=='\t') { if (syntax) unspec=true; err(XMQ_ERROR_BAD_DOCTYPE,i,true); } }  // no value
            vector<P> v; value(v,true); string val=plain(v);
            P d(new Node(Node::DTD)); d->content=val;
            string src="<!DOCTYPE "+val+"><foo></foo>"; xmlDoc *x=NULL;
            x=xmlReadMemory(src.c_str(),src.size(),"foof",NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_NONET);
            bool ok=x&&x->intSubset;
            if (ok) { xmlBuffer *b=xmlBufferCreate(); xmlNodeDump(b,x,(xmlNode*)x->intSubset,0,0); d->content=xq::cs(xmlBufferContent(b)); xmlBufferFree(b); }
            if (x) xmlFreeDoc(x);
            if (!syntax) if (!ok||doctype||top!=doc.get()||root_seen) err(XMQ_ERROR_BAD_DOCTYPE,i,true);
            doctype=true; add(top,d); return;
        }
        if (pi) {
            P p(new Node(Node::PI)); p->name=nm.substr(1); vector<P> v;
            if (!xmlname(p->name)) unspec=true;
            if (key) { ws(); size_t q=i; i++; tok(q,'='); last_eq=q; value(v,true); }
            string t=plain(v);
            if (t.size()) { bool b=t.back()=='\''; if (t[0]=='\'') t=" "+t; if (b) t+=" "; }   // room for quotes
            if (t.find("?>")!=string::npos) unspec=true;
            p->content=t; add(top,p);
            if (!key) { ws(); if (c()=='('||c()=='{') err(XMQ_ERROR_INVALID_CHAR,i); }
            return;
        }
        P e(new Node(Node::ELEM)); e->name=nm; e->prefix=pre; e->hasprefix=has;
        if (!xmlname(nm)||(has&&!xmlname(pre))||(has&&pre=="xmlns")) unspec=true;
        if (!root_seen) {
            root_seen=true;
            if (implicit.size()&&nm!=implicit) { P r(new Node(Node::ELEM)); r->name=implicit; add(doc.get(),r); top=r.get(); }
        }
        add(top,e);
        ws();
        if (c()=='(') { attributes(e.get()); ws(); }
        if (c()=='=') { size_t q=i; i++; tok(q,'='); last_eq=q; vector<P> v; value(v); for (auto &n:v) add(e.get(),n); return; }
        if (c()=='{') {
            last_body=i; size_t q=i; i++; tok(q,'{');
            Node *save=top; top=e.get();
            nodes();
            top=save;
            if (c()!='}') err(XMQ_ERROR_BODY_NOT_CLOSED,last_body);
            q=i; i++; tok(q,'}');
        }
    }
    bool lost_content()
    {   // a value was left out: name = <newline> name { ...
        if (last_eq==string::npos) return false;
        size_t k=i; if (k==0) return false; k--;
        while (k>0&&s[k]!='\n'&&(namec((unsigned char)s[k])||wslen(k)==1)) k--;
        if (k==0||s[k]!='\n') return false;
        while (k>0&&wslen(k)==1) k--;
        return s[k]=='='&&k==last_eq;
    }
    void nodes()
    {
        for (;;) {
            ws();
            int ch=c();
            if (ch<0||ch=='}') return;
            if (ch=='\'') { vector<P> v; text(v,quote()); add(top,v[0]); }
            else if (ch=='&') { vector<P> v; ent(v); add(top,v[0]); }
            else if (ch=='/'&&(c(1)=='/'||c(1)=='*')) add(top,comment());
            else if (elemstart(ch)) element();
            else if (ch=='!'&&s.compare(i,8,"!DOCTYPE")==0&&i+8<s.size()&&strchr("= \t\n\r",s[i+8])) element();
            else if (ch=='?'&&c(1)>=0&&namec(c(1))) element();
            else {
                if ((ch=='{'||ch=='('||ch=='=')&&lost_content()) err(XMQ_ERROR_EXPECTED_CONTENT_AFTER_EQUALS,last_eq);
                err(XMQ_ERROR_INVALID_CHAR,i);
            }
        }
    }
    void parse() { nodes(); if (i<s.size()) err(XMQ_ERROR_UNEXPECTED_CLOSING_BRACE,i); }

    // ------------------------------------------------------------ dump in the notation of xq::dump
    bool lookup(Node *e, bool dflt, const string &prefix, string &href)
    {
        if (!dflt&&prefix=="xml") { href="http://www.w3.org/XML/1998/namespace"; return true; }
        for (;e;e=e->parent) for (auto &d:e->defs) if (d->dflt==dflt&&d->prefix==prefix) { href=d->href; return true; }
        return false;
    }
    void dlist(const vector<P> &v, string &o, const char *sep)
    {
        bool first=true;
        for (size_t k=0;k<v.size();) {
            auto is=[&](size_t x){ return v[x]->k==Node::TEXT||(v[x]->k==Node::ENT&&predef(v[x]->name).size()); };
            if (is(k)) { string t; while (k<v.size()&&is(k)) { t+=v[k]->k==Node::TEXT?v[k]->content:predef(v[k]->name); k++; } if (t.empty()) continue; if (!first) o+=sep; first=false; o+=xq::q(t); continue; }
            if (!first) o+=sep; first=false;
            dnode(v[k].get(),o); k++;
        }
    }
    void dnode(Node *n, string &o)
    {
        switch (n->k) {
        case Node::ELEM: {
            string href; bool has=lookup(n,!n->hasprefix,n->prefix,href);
            if (!n->hasprefix&&href.empty()) has=false;
            o+="<"; if (n->hasprefix) o+=n->prefix+":"; o+=n->name; if (has) o+=" {"+href+"}";
            { vector<string> v; for (auto &d:n->defs) v.push_back(" xmlns"+(d->dflt?string():":"+d->prefix)+"="+xq::q(d->href)); std::sort(v.begin(),v.end()); for (auto &t:v) o+=t; } // their order is no information
            for (auto &a:n->attrs) {
                string h; bool ah=a.hasprefix&&lookup(n,false,a.prefix,h);
                o+=" @"; if (a.hasprefix) o+=a.prefix+":"; // an undeclared prefix is a part of the name
                o+=a.name; if (ah) o+="{"+h+"}";
                string v; dlist(a.kids,v,"+"); if (v.size()) o+="="+v;
            }
            string k; dlist(n->kids,k,","); if (k.size()) o+="["+k+"]";
            o+=">"; break; }
        case Node::COMMENT: o+="//"+xq::q(n->content); break;
        case Node::PI: o+="?"+n->name+(n->content.size()?"="+xq::q(n->content):""); break;
        case Node::ENT: o+="&"+n->name+";"; break;
        case Node::DTD: o+="!"+xq::q(n->content); break;
        default: break;
        }
    }
    string dump() { string o; dlist(doc->kids,o,","); return o; }
};
struct Result { bool ok; int nr; size_t line,col; bool posfree, unspec; string tree; vector<Tok> toks; size_t at; };
static inline Result parse(const string &s, const string &implicit="", bool syntax=false)
{
    Parser p(s,implicit); p.syntax=syntax; Result r{}; r.ok=true;
    try { p.parse(); r.tree=p.dump(); } catch (Err &e) { r.ok=false; r.nr=e.nr; r.at=e.at; r.line=p.line(e.at); r.col=p.col(e.at); r.posfree=e.posfree; }
    r.unspec=p.unspec; r.toks=p.toks; return r;
}
}
