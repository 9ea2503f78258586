// Running libxmq's ixml front end: load a grammar, parse inputs with it, observe tree, error and the ambiguity warning.
#pragma once
#include "xq.h"
#include "refixml.h"
#include <unistd.h>
#include <sys/stat.h>

#include <malloc.h>
static const bool ix_malloc_once=(mallopt(M_MMAP_THRESHOLD,1<<30),mallopt(M_TRIM_THRESHOLD,1<<30),mallopt(M_TOP_PAD,64<<20),true);
namespace ixrun {
using std::string; using std::vector;

// The number of inputs over the symbols up to a length, and the i:th of them.
static inline vector<string> words(const vector<string> &sym, int maxlen)
{
    vector<string> all{""}; size_t from=0;
    for (int l=1;l<=maxlen;++l) { size_t to=all.size(); for (size_t i=from;i<to;++i) for (auto &s:sym) all.push_back(all[i]+s); from=to; }
    return all;
}
struct Stderr { // what the library writes to stderr between construction and done()
    off_t at;
    Stderr() { struct stat s; fstat(2,&s); at=s.st_size; }
    string done() { struct stat s; fstat(2,&s); string r; if (s.st_size>at) { r.resize(s.st_size-at); ssize_t n=pread(2,&r[0],r.size(),at); r.resize(n>0?n:0); if (ftruncate(2,at)) {} } return r; }
};
struct Grammar {
    xq::Parsed p; bool ok;
    explicit Grammar(const string &text) { ok=xq::parse(p,text,XMQ_CONTENT_IXML); }
};
struct Out { bool ok=false; bool ambiguous=false; int err=0; string msg, err2; string tree; };
static inline void tree_list(xmlNode *n, string &o);
static inline string tree_node(xmlNode *e)
{
    string o="<"+string(xq::cs(e->name)); vector<string> at;
    for (xmlAttr *a=e->properties;a;a=a->next) { string v; for (xmlNode *c=a->children;c;c=c->next) v+=xq::cs(c->content); at.push_back(" @"+string(xq::cs(a->name))+"='"+v+"'"); }
    std::sort(at.begin(),at.end()); for (auto &a:at) o+=a;
    o+="["; tree_list(e->children,o); return o+"]>";
}
static inline void tree_list(xmlNode *n, string &o)
{
    string tx; auto flush=[&]{ if (tx.size()) { o+="'"+tx+"'"; tx.clear(); } };
    for (;n;n=n->next) {
        if (n->type==XML_TEXT_NODE) tx+=xq::cs(n->content);
        else if (n->type==XML_ELEMENT_NODE) { flush(); o+=tree_node(n); }
        else { flush(); o+="?"; }
    }
    flush();
}
static inline string tree_text(xmlNode *n) { string o; for (;n;n=n->next) { if (n->type==XML_TEXT_NODE) o+=xq::cs(n->content); else { for (xmlAttr *a=n->properties;a;a=a->next) for (xmlNode *c=a->children;c;c=c->next) o+=xq::cs(c->content); o+=tree_text(n->children); } } return o; }
static inline Out run(XMQDoc *grammar, const string &in, int flags=0, const std::function<void(xmlDoc*)> &look=nullptr)
{
    Out r; xq::Doc d; mc::Exact e(in); Stderr se;
    r.ok=xmqParseBufferWithIXML(d.d,e.start,e.stop,grammar,flags);
    r.err2=se.done(); r.ambiguous=r.err2.find("ambiguous")!=string::npos;
    r.err=xmqDocErrno(d.d); const char *m=xmqDocError(d.d); if (m) r.msg=m;
    if (r.ok) { tree_list(d.x()->children,r.tree); r.tree="["+r.tree+"]"; if (look) look(d.x()); }
    return r;
}
}
