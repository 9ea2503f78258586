// Glue between the harnesses and libxmq: everything goes through the public API and libxml2's DOM.
#pragma once
#include "mc.h"
#include <xmq.h>
#include <libxml/tree.h>
#include <libxml/parser.h>
#include <libxml/HTMLparser.h>
#include <libxml/xpath.h>
#include <libxml/xmlerror.h>
#include <functional>
#include <map>
#include <set>
#include <algorithm>

namespace xq {
using std::string;
using std::vector;

struct Set {  // printer settings
    bool compact=false; int indent=4; bool nl=false, tab=false, non7=false;
    XMQContentType fmt=XMQ_CONTENT_XMQ; XMQRenderFormat render=XMQ_RENDER_PLAIN; bool color=false, dark=true; bool omit=false; bool onlystyle=false, raw=false;
    const char *theme=NULL;
};
static inline string setname(const Set &s)
{
    return string(s.compact?"compact":"pretty")+(s.indent!=4?" indent="+std::to_string(s.indent):"")+(s.nl?" escnl":"")+(s.tab?" esctab":"")+(s.non7?" esc7":"")+
        (s.render?" render="+std::to_string((int)s.render):"")+(s.fmt!=XMQ_CONTENT_XMQ?" fmt="+std::to_string((int)s.fmt):"")+(s.omit?" omitdecl":"");
}
static inline XMQOutputSettings *make_settings(const Set &s)
{
    XMQOutputSettings *os=xmqNewOutputSettings();
    xmqSetCompact(os,s.compact); xmqSetAddIndent(os,s.compact?0:s.indent);
    xmqSetEscapeNewlines(os,s.nl||s.compact); xmqSetEscapeTabs(os,s.tab); xmqSetEscapeNon7bit(os,s.non7);
    xmqSetOutputFormat(os,s.fmt); xmqSetRenderFormat(os,s.render); xmqSetUseColor(os,s.color); xmqSetBackgroundMode(os,s.dark); xmqSetOmitDecl(os,s.omit);
    xmqSetRenderRaw(os,s.raw);
    if (s.onlystyle) xmqSetRenderOnlyStyle(os,true);
    if (s.theme) xmqSetRenderTheme(os,s.theme);
    xmqSetupDefaultColors(os);
    return os;
}
struct Doc { // owning
    XMQDoc *d;
    Doc() : d(xmqNewDoc()) {}
    explicit Doc(XMQDoc *x) : d(x) {}
    ~Doc() { if (d) xmqFreeDoc(d); }
    Doc(const Doc&)=delete; Doc(Doc&&o):d(o.d){o.d=NULL;}
    xmlDoc *x() { return (xmlDoc*)xmqGetImplementationDoc(d); }
};
static inline string print(XMQDoc *d, const Set &s)
{
    XMQOutputSettings *os=make_settings(s);
    char *a=NULL,*b=NULL; size_t skip=0;
    xmqSetupPrintMemory(os,&a,&b);
    xmqSetupPrintSkip(os,&skip);
    xmqPrint(d,os);
    string r; if (a) r.assign(a+skip,b); free(a);
    xmqFreeOutputSettings(os);
    return r;
}
struct Parsed { Doc doc; bool ok=false; int err=0; string msg; };
static inline bool parse(Parsed &p, const string &s, XMQContentType ct=XMQ_CONTENT_XMQ, int flags=0, const char *implicit=NULL)
{
    mc::Exact e(s);
    p.ok = xmqParseBufferWithType(p.doc.d,e.start,e.stop,implicit,ct,flags);
    p.err = xmqDocErrno(p.doc.d);
    const char *m=xmqDocError(p.doc.d); if (m) p.msg=m;
    return p.ok;
}

// ------------------------------------------------------------------ canonical dump of a DOM
static inline string q(const string &s) { return "\""+mc::esc(s)+"\""; }
static inline const char *cs(const xmlChar *x) { return x?(const char*)x:""; }
static inline bool is_text(xmlNode *n) { return n->type==XML_TEXT_NODE||n->type==XML_CDATA_SECTION_NODE; }
// A reference to one of the five predefined entities denotes a character.
static inline const char *predefined(xmlNode *n)
{
    if (n->type!=XML_ENTITY_REF_NODE) return NULL;
    string s=cs(n->name);
    return s=="amp"?"&":s=="lt"?"<":s=="gt"?">":s=="quot"?"\"":s=="apos"?"'":NULL;
}
static inline void dump_list(xmlNode *n, string &o, const char *sep);
static inline void dump_node(xmlNode *n, string &o)
{
    switch (n->type) {
    case XML_ELEMENT_NODE: {
        o+="<"; if (n->ns&&n->ns->prefix) { o+=cs(n->ns->prefix); o+=":"; } o+=cs(n->name);
        if (n->ns) o+=" {"+string(cs(n->ns->href))+"}";
        { vector<string> v; for (xmlNs *x=n->nsDef;x;x=x->next) v.push_back(" xmlns"+(x->prefix?":"+string(cs(x->prefix)):string())+"="+q(cs(x->href))); std::sort(v.begin(),v.end()); for (auto &t:v) o+=t; } // their order is no information
        for (xmlAttr *a=n->properties;a;a=a->next) {
            o+=" @"; if (a->ns&&a->ns->prefix) { o+=cs(a->ns->prefix); o+=":"; } o+=cs(a->name);
            if (a->ns) o+="{"+string(cs(a->ns->href))+"}";
            { string v; dump_list(a->children,v,"+"); if (v.size()) o+="="+v; }
        }
        if (n->children) { string k; dump_list(n->children,k,","); if (k.size()) { o+="["+k+"]"; } }
        o+=">";
        break; }
    case XML_COMMENT_NODE: o+="//"+q(cs(n->content)); break;
    case XML_PI_NODE: o+="?"+string(cs(n->name))+(n->content&&*n->content?"="+q(cs(n->content)):""); break;
    case XML_ENTITY_REF_NODE: o+="&"+string(cs(n->name))+";"; break;
    case XML_DTD_NODE: { xmlBuffer *b=xmlBufferCreate(); xmlNodeDump(b,n->doc,n,0,0); o+="!"+q(cs(xmlBufferContent(b))); xmlBufferFree(b); break; }
    default: o+="?type"+std::to_string(n->type); break;
    }
}
static inline void dump_list(xmlNode *n, string &o, const char *sep)
{
    bool first=true;
    while (n) {
        if (is_text(n)||predefined(n)) {
            string t; while (n&&(is_text(n)||predefined(n))) { t+=predefined(n)?predefined(n):cs(n->content); n=n->next; }
            if (t.empty()) continue;
            if (!first) o+=sep; first=false;
            o+=q(t);
            continue;
        }
        if (!first) o+=sep; first=false;
        dump_node(n,o);
        n=n->next;
    }
}
static inline string dump(xmlDoc *d)
{
    if (!d) return "(nodoc)";
    string o; dump_list(d->children,o,","); return o;
}
static inline string dump(Doc &d) { return dump(d.x()); }

// ------------------------------------------------------------------ building DOMs
static inline xmlDoc *newdoc() { return xmlNewDoc((const xmlChar*)"1.0"); }
static inline const xmlChar *X(const char *s) { return (const xmlChar*)s; }
static inline const xmlChar *X(const string &s) { return (const xmlChar*)s.c_str(); }
static inline xmlNode *add_elem(xmlDoc *d, xmlNode *parent, const char *name)
{
    xmlNode *n=xmlNewDocNode(d,NULL,X(name),NULL);
    xmlAddChild(parent?parent:(xmlNode*)d,n);
    return n;
}
// raw append: no merging with neighbours
static inline void link_child(xmlNode *parent, xmlNode *n)
{
    n->parent=parent; n->next=NULL; n->prev=parent->last;
    if (parent->last) parent->last->next=n; else parent->children=n;
    parent->last=n;
}
static inline xmlNode *add_text(xmlDoc *d, xmlNode *parent, const string &s)
{
    xmlNode *n=xmlNewDocText(d,X(s)); link_child(parent,n); return n;
}
static inline void add_attr(xmlDoc *d, xmlNode *n, const char *name, const string &s)
{
    xmlAttr *a=xmlNewDocProp(d,X(name),NULL);
    xmlNode *t=xmlNewDocText(d,X(s)); t->parent=(xmlNode*)a; a->children=a->last=t;
    a->parent=n;
    if (!n->properties) n->properties=a; else { xmlAttr *l=n->properties; while (l->next) l=l->next; l->next=a; a->prev=l; }
}
static inline void adopt(Doc &d, xmlDoc *x) { xmlDoc *old=d.x(); if (old) xmlFreeDoc(old); xmqSetImplementationDoc(d.d,x); }

static inline string utf8(unsigned c)
{
    string s;
    if (c<0x80) s+=(char)c;
    else if (c<0x800) { s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); }
    else if (c<0x10000) { s+=(char)(0xe0|c>>12); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); }
    else { s+=(char)(0xf0|c>>18); s+=(char)(0x80|((c>>12)&63)); s+=(char)(0x80|((c>>6)&63)); s+=(char)(0x80|(c&63)); }
    return s;
}
static inline void quiet_(void*,const char*,...) {}
static inline void quiet() { xmlSetGenericErrorFunc(NULL,quiet_); }
}
