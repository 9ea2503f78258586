// P19: the query API returns what XPath and the document say.
#include "xq.h"
#include <cmath>
#include <limits.h>
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

// ------------------------------------------------ a small XPath evaluator, written from the recommendation
enum Axis { CHILD, DESC, DESCS, PARENT, ANC, ANCS, FSIB, PSIB, FOLL, PREC, ATTR, SELF };
static const char *AX[]={"child","descendant","descendant-or-self","parent","ancestor","ancestor-or-self","following-sibling","preceding-sibling","following","preceding","attribute","self"};
static const char *TESTS[]={"a","b","*","node()","text()","comment()","processing-instruction()","x"};
struct Step { int axis,test,pred; };
static const char *PREDS[]={"","[1]","[2]","[last()]","[position()>1]","[@x]","[text()]","[.='1']","[not(@x)]","[b]","[@x='2']"};
static bool reverse_axis(int a) { return a==PARENT||a==ANC||a==ANCS||a==PSIB||a==PREC; }
typedef vector<xmlNode*> Nodes;
static xmlNode *kids(xmlNode *n) { return n->type==XML_ELEMENT_NODE||n->type==XML_DOCUMENT_NODE||n->type==XML_HTML_DOCUMENT_NODE?n->children:NULL; }
static void order(xmlNode *n, std::map<xmlNode*,int> &o)
{
    if (n->type==XML_DTD_NODE) return;
    int i=o.size(); o[n]=i;
    if (n->type==XML_ELEMENT_NODE) for (xmlAttr *a=n->properties;a;a=a->next) { int j=o.size(); o[(xmlNode*)a]=j; }
    for (xmlNode *c=kids(n);c;c=c->next) order(c,o);
}
static string value(xmlNode *n)
{
    if (n->type==XML_ELEMENT_NODE||n->type==XML_DOCUMENT_NODE) { string s; for (xmlNode *c=n->children;c;c=c->next) { if (is_text(c)) s+=cs(c->content); else if (c->type==XML_ELEMENT_NODE) s+=value(c); } return s; }
    if (n->type==XML_ATTRIBUTE_NODE) { string s; for (xmlNode *c=n->children;c;c=c->next) s+=cs(c->content); return s; }
    return cs(n->content);
}
struct Tree {
    xmlDoc *d; std::map<xmlNode*,int> ord; Nodes all;
    explicit Tree(xmlDoc *x):d(x) { order((xmlNode*)x,ord); all.resize(ord.size()); for (auto &p:ord) all[p.second]=p.first; }
    static bool attr(xmlNode *n) { return n->type==XML_ATTRIBUTE_NODE; }
    static bool below(xmlNode *n, xmlNode *top) { for (n=n->parent;n;n=n->parent) if (n==top) return true; return false; }
    Nodes axis(xmlNode *n, int a) {
        Nodes r;
        switch (a) {
        case CHILD: for (xmlNode *c=kids(n);c;c=c->next) if (c->type!=XML_DTD_NODE) r.push_back(c); break;
        case DESC: case DESCS: if (a==DESCS) r.push_back(n); if (!attr(n)) for (auto m:all) if (!attr(m)&&below(m,n)) r.push_back(m); break;
        case PARENT: if (n->parent) r.push_back(n->parent); break;
        case ANC: for (xmlNode *p=n->parent;p;p=p->parent) r.push_back(p); break;
        case ANCS: for (xmlNode *p=n;p;p=p->parent) r.push_back(p); break;
        case FSIB: if (!attr(n)) for (xmlNode *c=n->next;c;c=c->next) if (c->type!=XML_DTD_NODE) r.push_back(c); break;
        case PSIB: if (!attr(n)) for (xmlNode *c=n->prev;c;c=c->prev) if (c->type!=XML_DTD_NODE) r.push_back(c); break;
        case FOLL: for (auto m:all) if (!attr(m)&&ord[m]>ord[n]&&!below(m,n)) r.push_back(m); break;
        case PREC: for (int i=ord[n]-1;i>=0;i--) { xmlNode *m=all[i]; if (!attr(m)&&!below(n,m)) r.push_back(m); } break;
        case ATTR: if (n->type==XML_ELEMENT_NODE) for (xmlAttr *x=n->properties;x;x=x->next) r.push_back((xmlNode*)x); break;
        case SELF: r.push_back(n); break;
        }
        return r;
    }
    static bool test(xmlNode *n, int a, const char *t) {
        string s=t;
        if (s=="node()") return true;
        if (s=="text()") return is_text(n);
        if (s=="comment()") return n->type==XML_COMMENT_NODE;
        if (s=="processing-instruction()") return n->type==XML_PI_NODE;
        bool principal=a==ATTR?n->type==XML_ATTRIBUTE_NODE:n->type==XML_ELEMENT_NODE;
        if (!principal) return false;
        return s=="*"||(s==cs(n->name)&&!n->ns);
    }
    static xmlAttr *x(xmlNode *n) { if (n->type!=XML_ELEMENT_NODE) return NULL; for (xmlAttr *a=n->properties;a;a=a->next) if (!strcmp(cs(a->name),"x")&&!a->ns) return a; return NULL; }
    static bool has(xmlNode *n, int t) { for (xmlNode *c=kids(n);c;c=c->next) if (test(c,CHILD,TESTS[t])) return true; return false; }
    Nodes filter(const Nodes &in, int p) {
        Nodes r;
        for (size_t i=0;i<in.size();i++) {
            xmlNode *n=in[i]; bool k=true;
            switch (p) { case 1: k=i==0; break; case 2: k=i==1; break; case 3: k=i+1==in.size(); break; case 4: k=i>0; break; case 5: k=x(n); break; case 6: k=has(n,4); break;
                case 7: k=value(n)=="1"; break; case 8: k=!x(n); break; case 9: k=has(n,1); break; case 10: k=x(n)&&value((xmlNode*)x(n))=="2"; break; }
            if (k) r.push_back(n);
        }
        return r;
    }
    Nodes sorted(const Nodes &in) { std::set<int> s; for (auto n:in) s.insert(ord[n]); Nodes r; for (int i:s) r.push_back(all[i]); return r; }
    Nodes step(const Nodes &ctx, const Step &s) {
        Nodes r;
        for (auto c:ctx) { Nodes t; for (auto n:axis(c,s.axis)) if (test(n,s.axis,TESTS[s.test])) t.push_back(n); t=filter(t,s.pred); r.insert(r.end(),t.begin(),t.end()); }
        return sorted(r);
    }
    Nodes path(xmlNode *from, const vector<Step> &p) { Nodes r{from}; for (auto &s:p) r=step(r,s); return r; }
};
// libxml2 leaves out the children of the owner when following:: starts at an attribute: its reading, not xmq's
static bool odd_axis(int a) { return a==FOLL||a==PREC; }
static string str(const Step &s) { return string(AX[s.axis])+"::"+TESTS[s.test]+PREDS[s.pred]; }
static string str(const vector<Step> &p) { string o; for (auto &s:p) o+=(o.size()?"/":"")+str(s); return o; }

// ------------------------------------------------ asking
struct Visit { XMQDoc *d; Nodes got; size_t stop; bool bad; };
static XMQProceed visit(XMQDoc *d, XMQNode *n, void *u)
{
    Visit *v=(Visit*)u; if (d!=v->d) v->bad=true;
    v->got.push_back(*(xmlNode**)n);
    return v->got.size()>=v->stop?XMQ_STOP:XMQ_CONTINUE;
}
struct Handle { XMQDoc *d; xmlNode *node; };
// A XMQNode is opaque. Get hold of one for any libxml2 node by visiting all nodes.
struct AllNodes { vector<xmlNode*> raw; };
static string where(Tree &t, xmlNode *n) { auto i=t.ord.find(n); return i==t.ord.end()?"foreign node":"node "+std::to_string(i->second)+" "+cs(n->name); }
static string list(Tree &t, const Nodes &v) { string o; for (auto n:v) o+=(o.size()?", ":"")+where(t,n); return "{"+o+"}"; }
// what the typed getters should see; false = the property does not say (text in several pieces)
static bool content_of(xmlNode *n, string *s, bool *null)
{
    *null=false;
    if (n->type==XML_ELEMENT_NODE||n->type==XML_ATTRIBUTE_NODE) {
        int texts=0; bool elem=false; xmlNode *tx=NULL;
        for (xmlNode *c=n->children;c;c=c->next) { if (is_text(c)) { texts++; tx=c; } else if (c->type==XML_ELEMENT_NODE||c->type==XML_ENTITY_REF_NODE) elem=true; }
        if (texts==0&&!elem) { *null=true; return true; }
        if (texts==1&&!elem) { *s=cs(tx->content); if (s->empty()) return false; return true; }
        return false;
    }
    if (is_text(n)||n->type==XML_COMMENT_NODE||n->type==XML_PI_NODE) { if (!n->content) return false; *s=cs(n->content); return true; }
    return false;
}
static void ask(Doc &d, Tree &t, const string &xp, const Nodes &want, XMQNode *rel)
{
    const char *x=xp.c_str();
    int c=rel?xmqForeachRel(d.d,x,NULL,NULL,rel):xmqForeach(d.d,x,NULL,NULL);
    if (c!=(int)want.size()) fail("%s: %d nodes, expected %zu %s",x,c,want.size(),list(t,want).c_str());
    size_t stops[]={(size_t)-1,1,2};
    for (size_t stop:stops) {
        if (stop!=(size_t)-1&&stop>=want.size()) break;
        Visit v{d.d,{},stop,false};
        c=rel?xmqForeachRel(d.d,x,visit,&v,rel):xmqForeach(d.d,x,visit,&v);
        Nodes w=want; if (w.size()>stop) w.resize(stop);
        if (v.bad) fail("%s: the callback got another document",x);
        if (v.got!=w) fail("%s: visited %s, expected %s",x,list(t,v.got).c_str(),list(t,w).c_str());
        if (c!=(int)want.size()) fail("%s: returned %d of %zu when stopping",x,c,want.size());
    }
    const char *g=rel?xmqGetStringRel(d.d,x,rel):xmqGetString(d.d,x);
    if (want.empty()) { if (g) fail("%s: string %s where nothing matches",x,q(g).c_str()); }
    else { string s; bool null; if (content_of(want[0],&s,&null)) { if (null?g!=NULL:(!g||s!=g)) fail("%s: string %s, expected %s",x,g?q(g).c_str():"NULL",null?"NULL":q(s).c_str());
        if (!null&&s.size()<3) { int i=rel?xmqGetIntRel(d.d,x,rel):xmqGetInt(d.d,x); long l=rel?xmqGetLongRel(d.d,x,rel):xmqGetLong(d.d,x); double f=rel?xmqGetDoubleRel(d.d,x,rel):xmqGetDouble(d.d,x);
            if (i!=atoi(s.c_str())||l!=atol(s.c_str())||f!=strtod(s.c_str(),NULL)) fail("%s: numbers %d %ld %g of %s",x,i,l,f,q(s).c_str()); } } }
    if (want.empty()&&xp.size()%5==0) { if ((rel?xmqGetIntRel(d.d,x,rel):xmqGetInt(d.d,x))||(rel?xmqGetLongRel(d.d,x,rel):xmqGetLong(d.d,x))||(rel?xmqGetDoubleRel(d.d,x,rel):xmqGetDouble(d.d,x))!=0) fail("%s: a number where nothing matches",x); }
}
// run f with a XMQNode for every node of the document, as delivered by the library itself
struct EachCtx { std::function<void(XMQNode*,xmlNode*)> f; string err; };
static XMQProceed each_cb(XMQDoc*, XMQNode *n, void *u)
{
    EachCtx *e=(EachCtx*)u;
    try { e->f(n,*(xmlNode**)n); } catch (mc::Fail &x) { e->err=x.msg; return XMQ_STOP; }
    return XMQ_CONTINUE;
}
static void each(Doc &d, const char *xp, std::function<void(XMQNode*,xmlNode*)> f)
{
    EachCtx e{f,""}; xmqForeach(d.d,xp,each_cb,&e); if (e.err.size()) mc::failstr(e.err);
}
static const char *ALL="/|//node()|//@*";

// ------------------------------------------------ documents
struct Src { string xmq,xml; };
static void load(Doc &d, const Src &s, int how)
{
    const string &t=how?s.xml:s.xmq; mc::Exact e(t);
    if (!xmqParseBufferWithType(d.d,e.start,e.stop,NULL,how?XMQ_CONTENT_XML:XMQ_CONTENT_XMQ,0)) fail("cannot parse %s: %s",t.c_str(),xmqDocError(d.d)?xmqDocError(d.d):"");
}
// node kinds: 0 a 1 b 2 a(x=2) 3 text 1 4 comment 5 pi
static void tree_src(const vector<std::pair<int,int>> &v, size_t &i, int depth, Src &s)
{
    while (i<v.size()&&v[i].first==depth) {
        int k=v[i].second; i++;
        switch (k) {
        case 3: s.xmq+="'1' "; s.xml+="1"; break;
        case 4: s.xmq+="/*c*/ "; s.xml+="<!--c-->"; break;
        case 5: s.xmq+="?p=q "; s.xml+="<?p q?>"; break;
        default: {
            const char *n=k==1?"b":"a"; const char *xa=k==2?"(x=2)":"", *xx=k==2?" x='2'":"";
            s.xmq+=string(n)+xa+"{"; s.xml+=string("<")+n+xx+">";
            tree_src(v,i,depth+1,s);
            s.xmq+="}"; s.xml+=string("</")+n+">"; }
        }
    }
}
static bool choose_tree(int n, Src &s)
{
    vector<std::pair<int,int>> v; bool ok=true;
    for (int i=0;i<n;i++) {
        int maxd=i==0?1:(v.back().second<=2?v.back().first+1:v.back().first);
        int d=1+choose(maxd), k=choose(6);
        // adjacent texts would be one text
        for (int j=i-1;j>=0;j--) { if (v[j].first<d) break; if (v[j].first==d) { if (v[j].second==3&&k==3) ok=false; break; } }
        v.push_back({d,k});
    }
    s.xmq="r{"; s.xml="<r>"; size_t i=0; tree_src(v,i,1,s); s.xmq+="}"; s.xml+="</r>";
    return ok;
}
static void trees()
{   // every small tree, every step from every node
    Src s; bool ok=choose_tree(1+choose(mc::tier_pick(3,4)),s); int how=choose(2);
    if (!ok) return;
    if (!run("steps in "+s.xmq+(how?" from xml":""))) return;
    Doc d; load(d,s,how); Tree t(d.x());
    size_t h=0;
    each(d,ALL,[&](XMQNode *n, xmlNode *x) {
        for (int a=0;a<12;a++) for (int k=0;k<(a==ATTR?4:8);k++) {
            if (x->type==XML_ATTRIBUTE_NODE&&odd_axis(a)) continue;
            Step st{a,a==ATTR&&k==0?7:k,0}; Nodes w=t.path(x,{st}); h=h*31+w.size();
            ask(d,t,str(st),w,n);
        }
    });
    mc::outcome(h);
}
static vector<Src> RICH={
    {"r{a(x=1){b=1 b=2 a{b=1}}'t' a(x=2)=1 /*c*/ b{a b(x=1 y=2)} ?p=q a}","<r><a x='1'><b>1</b><b>2</b><a><b>1</b></a></a>t<a x='2'>1</a><!--c--><b><a/><b x='1' y='2'/></b><?p q?><a/></r>"},
    {"/*c*/ ?p=q a{a{a{a(x=2){b=1}}}} /*d*/","<!--c--><?p q?><a><a><a><a x='2'><b>1</b></a></a></a></a><!--d-->"},
    {"a=1","<a>1</a>"},{"a","<a/>"},
    {"r(x=2){a='1' b='1' '1' a(x='') b(x=2){'1' a '2' b '3'}}","<r x='2'><a>1</a><b>1</b>1<a x=''/><b x='2'>1<a/>2<b/>3</b></r>"},
    {"r{a(xmlns=u){a b=1} b(xmlns:p=v){p:a p:b=1 a} a}","<r><a xmlns='u'><a/><b>1</b></a><b xmlns:p='v'><p:a/><p:b>1</p:b><a/></b><a/></r>"},
    {"r{b{b{b=1}b=1}b a{b a{b}}}","<r><b><b><b>1</b></b><b>1</b></b><b/><a><b/><a><b/></a></a></r>"},
    {"r{/*c*/ a{/*c*/'1'} b{?p=q '1' /*c*/} a{'1' a}}","<r><!--c--><a><!--c-->1</a><b><?p q?>1<!--c--></b><a>1<a/></a></r>"},
    {"!DOCTYPE='r' r{a b}","<!DOCTYPE r><r><a/><b/></r>"},
};
static void rich_load(Doc &d, int i, int how) { load(d,RICH[i],how); }
static void paths()
{   // two steps with predicates, relative to every node and absolute
    int i=choose(RICH.size()),how=choose(mc::tier_pick(1,2)),a1=choose(12),k1=choose(8);
    if (!run("paths in "+RICH[i].xmq+(how?" from xml ":" ")+AX[a1]+"::"+TESTS[k1])) return;
    Doc d; rich_load(d,i,how); Tree t(d.x()); size_t h=0;
    int np=mc::tier_pick(4,11), n2=11; (void)np;
    for (int p1=0;p1<11;p1++) {
        vector<Step> one{{a1,k1,p1}};
        each(d,ALL,[&](XMQNode *n, xmlNode *x) { if (x->type==XML_ATTRIBUTE_NODE&&odd_axis(a1)) return; Nodes w=t.path(x,one); h=h*31+w.size(); ask(d,t,str(one),w,n); });
        for (int a2=0;a2<12;a2++) for (int k2=0;k2<8;k2++) for (int p2=0;p2<n2;p2++) {
            if (!mc::thorough()&&p1&&p2) continue;
            if (a1==ATTR&&odd_axis(a2)) continue;
            vector<Step> two{{a1,k1,p1},{a2,k2,p2}};
            ask(d,t,"/"+str(two),t.path((xmlNode*)d.x(),two),NULL);
            if (p1==0&&p2<=(mc::thorough()?10:0)) { Nodes w=t.path((xmlNode*)d.x(),{{DESCS,3,0},{a1,k1,p1},{a2,k2,p2}}); h=h*31+w.size(); ask(d,t,"//"+str(two),w,NULL); }
        }
    }
    mc::outcome(h);
}
static void unions()
{   // unions are in document order whatever order they are written in, also for reverse axes
    int i=choose(RICH.size()),how=choose(mc::tier_pick(1,2)),a1=choose(12),k1=choose(8);
    if (!run("unions in "+RICH[i].xmq+(how?" from xml ":" ")+AX[a1]+"::"+TESTS[k1])) return;
    Doc d; rich_load(d,i,how); Tree t(d.x()); size_t h=0;
    each(d,ALL,[&](XMQNode *n, xmlNode *x) {
        if (t.ord[x]%3&&!mc::thorough()) return;
        for (int a2=0;a2<12;a2++) for (int k2=0;k2<8;k2++) {
            if (x->type==XML_ATTRIBUTE_NODE&&(odd_axis(a1)||odd_axis(a2))) continue;
            Step s1{a1,k1,0},s2{a2,k2,0}; Nodes w=t.path(x,{s1}),v=t.path(x,{s2}); w.insert(w.end(),v.begin(),v.end()); w=t.sorted(w); h=h*31+w.size();
            ask(d,t,str(s1)+" | "+str(s2),w,n);
            Nodes f=w; if (f.size()>1) f.resize(1); ask(d,t,"("+str(s1)+"|"+str(s2)+")[1]",f,n);
        }
    });
    mc::outcome(h);
}
static void abbreviations()
{
    static const struct { const char *x; vector<Step> p; bool abs; } A[]={
        {"a",{{CHILD,0,0}},false},{"*",{{CHILD,2,0}},false},{"@x",{{ATTR,7,0}},false},{"@*",{{ATTR,2,0}},false},{".",{{SELF,3,0}},false},{"..",{{PARENT,3,0}},false},
        {"a/b",{{CHILD,0,0},{CHILD,1,0}},false},{"a//b",{{CHILD,0,0},{DESCS,3,0},{CHILD,1,0}},false},{".//b",{{SELF,3,0},{DESCS,3,0},{CHILD,1,0}},false},{"../a",{{PARENT,3,0},{CHILD,0,0}},false},
        {"*/@x",{{CHILD,2,0},{ATTR,7,0}},false},{"text()",{{CHILD,4,0}},false},{"//a",{{DESCS,3,0},{CHILD,0,0}},true},{"//a[1]",{{DESCS,3,0},{CHILD,0,1}},true},{"//@x",{{DESCS,3,0},{ATTR,7,0}},true},
        {"/*",{{CHILD,2,0}},true},{"/",{{SELF,3,0}},true},{"//text()",{{DESCS,3,0},{CHILD,4,0}},true},{"//comment()",{{DESCS,3,0},{CHILD,5,0}},true},{"/*/*[2]",{{CHILD,2,0},{CHILD,2,2}},true},
        {"/r/a[@x='2']",{},true},{"//b/..",{{DESCS,3,0},{CHILD,1,0},{PARENT,3,0}},true},{"//b/ancestor::*[1]",{{DESCS,3,0},{CHILD,1,0},{ANC,2,1}},true},{"//b/preceding::*",{{DESCS,3,0},{CHILD,1,0},{PREC,2,0}},true}};
    int i=choose(RICH.size()),how=choose(2),k=choose(sizeof(A)/sizeof(A[0]));
    if (!run("xpath "+string(A[k].x)+" in "+RICH[i].xmq+(how?" from xml":""))) return;
    Doc d; rich_load(d,i,how); Tree t(d.x());
    auto want=[&](xmlNode *x) { if (A[k].p.empty()) { Nodes r; for (auto n:t.all) if (n->type==XML_ELEMENT_NODE&&!n->ns&&!strcmp(cs(n->name),"a")&&n->parent->type==XML_ELEMENT_NODE&&n->parent->parent==(xmlNode*)d.x()&&!strcmp(cs(n->parent->name),"r")&&Tree::x(n)&&value((xmlNode*)Tree::x(n))=="2") r.push_back(n); return r; } return t.path(x,A[k].p); };
    if (A[k].abs) ask(d,t,A[k].x,want((xmlNode*)d.x()),NULL);
    each(d,ALL,[&](XMQNode *n, xmlNode *x) { ask(d,t,A[k].x,want(A[k].abs?(xmlNode*)d.x():x),n); });
    // the root node of a document of any kind is a starting point, like in the documentation
    xmlNode *root=xmlDocGetRootElement(d.x()); XMQNode *rn=xmqGetRootNode(d.d);
    if (!rn||*(xmlNode**)rn!=root) fail("xmqGetRootNode is not the root element");
    ask(d,t,A[k].x,want(A[k].abs?(xmlNode*)d.x():root),rn);
    if (strcmp(xmqGetName(rn),cs(root->name))) fail("name of the root is %s",xmqGetName(rn));
    // names and contents
    each(d,ALL,[&](XMQNode *n, xmlNode *x) {
        const char *g=xmqGetName(n);
        if ((x->type==XML_ELEMENT_NODE||x->type==XML_ATTRIBUTE_NODE||x->type==XML_PI_NODE)&&(!g||strcmp(g,cs(x->name)))) fail("name %s of %s",g?g:"NULL",where(t,x).c_str());
        string s; bool null; if (content_of(x,&s,&null)) { g=xmqGetContent(n); if (null?g!=NULL:(!g||s!=g)) fail("content %s of %s, expected %s",g?q(g).c_str():"NULL",where(t,x).c_str(),null?"NULL":q(s).c_str()); }
    });
}
static void odd()
{   // expressions that are no node set or no expression, declarations of namespaces, documents without content
    static const char *B[]={"count(//a)","1+1","'x'","true()","","[","//","a[","a[1","@","/a/","$x","unknown()","p:a","a b","::","string(/a)","name(/*)","//a[","child::","nosuch::a","id('x')","1","a[$v]","(","('a')[1]","\xff","//\xc3\xa5","not(","document('x')"};
    static const char *D[]={"a=1","r{a b}","","//c",NULL};
    int nb=sizeof(B)/sizeof(B[0]);
    int b=choose(nb),i=choose(5);
    if (!run("odd xpath "+q(B[b])+" in "+(D[i]?q(D[i]):"new document"))) return;
    Doc d; if (D[i]) { string s=D[i]; mc::Exact e(s); xmqParseBufferWithType(d.d,e.start,e.stop,NULL,XMQ_CONTENT_XMQ,0); }
    string before=d.x()?dump(d):"";
    int visits=0; struct C { static XMQProceed cb(XMQDoc*,XMQNode*,void *u) { ++*(int*)u; return XMQ_CONTINUE; } };
    mc::leakcheck([&]{
        visits=0; int c=xmqForeach(d.d,B[b],C::cb,&visits);
        if (c||visits) fail("%d nodes, %d visits",c,visits);
        if (xmqGetString(d.d,B[b])||xmqGetInt(d.d,B[b])||xmqGetLong(d.d,B[b])||xmqGetDouble(d.d,B[b])!=0) fail("a value where nothing matches");
        XMQNode *r=xmqGetRootNode(d.d); if (r&&*(void**)r&&(xmqForeachRel(d.d,B[b],NULL,NULL,r))) fail("relative: nodes");
    });
    if ((d.x()?dump(d):"")!=before) fail("the document changed");
    if (D[i]==NULL||i==2||i==3) { if (xmqForeach(d.d,"//a",NULL,NULL)||xmqForeach(d.d,"/*",NULL,NULL)||xmqGetString(d.d,"/a")) fail("nodes in an empty document"); }
}
static void namespaces()
{   // namespace nodes have no libxml2 node behind them
    static const char *D[]={"<a xmlns='u'/>","<a xmlns:p='v' xmlns='u'><b xmlns:q='w'/></a>","<a/>","<p:a xmlns:p='12'/>"};
    static const char *P[]={"/*/namespace::*","//namespace::*","//namespace::p","/*/namespace::*[1]","//namespace::*/.."};
    int i=choose(4),p=choose(5);
    if (!run(string("namespace nodes ")+P[p]+" in "+D[i])) return;
    Doc d; string s=D[i]; mc::Exact e(s); if (!xmqParseBufferWithType(d.d,e.start,e.stop,NULL,XMQ_CONTENT_XML,0)) fail("no parse");
    int n=xmqForeach(d.d,P[p],NULL,NULL);
    int k=0; struct C { static XMQProceed cb(XMQDoc *d,XMQNode *n,void *u) { ++*(int*)u; (void)xmqGetName(n); const char *c=xmqGetContent(n); if (c) (void)strlen(c); return XMQ_CONTINUE; } };
    int c=xmqForeach(d.d,P[p],C::cb,&k); if (c!=n||k!=n) fail("%d nodes, %d visits, %d counted",c,k,n);
    const char *g=xmqGetString(d.d,P[p]); if (g) mc::outcome(string(g)); xmqGetInt(d.d,P[p]); xmqGetLong(d.d,P[p]); xmqGetDouble(d.d,P[p]);
    if (p==2&&i==1&&(!g||strcmp(g,"v"))) fail("value of namespace p is %s",g?g:"NULL");
    if (p==2&&i==3&&(!g||strcmp(g,"12")||xmqGetInt(d.d,P[p])!=12)) fail("value of namespace p is %s",g?g:"NULL");
}
// ------------------------------------------------ numbers
static void num_doc(Doc &d, const string &lit, int form)
{
    static const char *F[]={"a='%'","a{b c='x' d(x='%')}","r{a='0' b{c='%'}}","<a>%</a>","<r><a x='%'/></r>","{\"a\":\"%\"}"};
    string s=F[form]; size_t k=s.find('%'); s.replace(k,1,lit); mc::Exact e(s);
    if (!xmqParseBufferWithType(d.d,e.start,e.stop,NULL,form<3?XMQ_CONTENT_XMQ:form<5?XMQ_CONTENT_XML:XMQ_CONTENT_JSON,0)) fail("cannot parse %s",s.c_str());
}
static const char *NP[]={"/a","//@x","//c","/a","//@x","//a"};
static void ints(const char *what, int bits)
{
    // 2^k+d in every notation and every place
    int k=choose(bits),d=choose(9),form=choose(6),neg=choose(2),note=choose(6);
    __int128 v=(((__int128)1)<<k)+d-4; if (neg) v=-v;
    __int128 lo=-(((__int128)1)<<(bits-1)),hi=-lo-1;
    if (v<lo||v>hi) return;
    if (v<0&&note) return;                       // a sign is only known in decimal
    long l=(long)v; char b[100];
    switch (note) { case 0: sprintf(b,"%ld",l); break; case 1: sprintf(b,"0x%lx",l); break; case 2: sprintf(b,"0x%lX",l); break; case 3: sprintf(b,"0%lo",l); break; case 4: sprintf(b,"0x000%lx",l); break; case 5: sprintf(b,"000%lo",l); break; }
    if (!run(string(what)+" "+b+" at "+NP[form]+" form "+std::to_string(form))) return;
    Doc doc; num_doc(doc,b,form);
    long g=bits==32?(long)xmqGetInt(doc.d,NP[form]):(long)xmqGetLong(doc.d,NP[form]);
    long gr=bits==32?(long)xmqGetIntRel(doc.d,NP[form],xmqGetRootNode(doc.d)):(long)xmqGetLongRel(doc.d,NP[form],xmqGetRootNode(doc.d));
    mc::outcome((uint64_t)g);
    if (g!=l) fail("%s is read as %ld",b,g);
    if (gr!=l) fail("%s is read as %ld relative to the root",b,gr);
    const char *s=xmqGetString(doc.d,NP[form]); if (!s||strcmp(s,b)) fail("string is %s",s?s:"NULL");
    if (bits==32&&xmqGetLong(doc.d,NP[form])!=l) fail("%s is read as %ld as a long",b,(long)xmqGetLong(doc.d,NP[form]));
    if (note==0&&xmqGetDouble(doc.d,NP[form])!=strtod(b,NULL)) fail("%s is read as %g",b,xmqGetDouble(doc.d,NP[form]));
}
static void int32s() { ints("int",32); }
static void int64s() { ints("long",64); }
static void smalls()
{   // every small integer and every digit pattern
    int blk=choose(mc::tier_pick(64,512));
    if (!run("integers of block "+std::to_string(blk))) return;
    for (int v=blk*256;v<blk*256+256;v++) for (int note=0;note<4;note++) {
        char b[40]; switch (note) { case 0: sprintf(b,"%d",v); break; case 1: sprintf(b,"-%d",v); break; case 2: sprintf(b,"0x%x",v*77777u&0x7fffffff); break; case 3: sprintf(b,"0%o",v*77777u&0x7fffffff); break; }
        long l=note==0?v:note==1?-v:(long)(v*77777u&0x7fffffff);
        Doc d; num_doc(d,b,0); if (xmqGetInt(d.d,"/a")!=l||xmqGetLong(d.d,"/a")!=l) fail("%s is read as %d and %ld",b,xmqGetInt(d.d,"/a"),(long)xmqGetLong(d.d,"/a"));
    }
}
static bool same(double a, double b) { return memcmp(&a,&b,sizeof a)==0||(std::isnan(a)&&std::isnan(b)); }
static void doubles()
{
    static const char *S[]={"","-","+"},*I[]={"","0","1","12","007","123456789012345678901234567890","0x1f","9007199254740993","4503599627370497"},*F[]={"",".",".0",".5",".1",".000000000000000000001",".123456789012345678",".8","p3"},*E[]={"","e0","E5","e-5","e+10","e308","e309","e-320","e-400","e400","e"," x","e22","E-23"};
    int s=choose(3),i=choose(9),f=choose(9),e=choose(14),form=choose(6);
    string l=string(S[s])+I[i]+F[f]+E[e]; if (l.empty()) return;
    if (!run("double "+q(l)+" form "+std::to_string(form))) return;
    Doc d; num_doc(d,l,form); double w=strtod(l.c_str(),NULL),g=xmqGetDouble(d.d,NP[form]),r=xmqGetDoubleRel(d.d,NP[form],xmqGetRootNode(d.d));
    mc::outcome(std::to_string(g));
    if (!same(w,g)||!same(w,r)) fail("%s is read as %.17g and %.17g, strtod says %.17g",l.c_str(),g,r,w);
}
static void double_words()
{
    static vector<string> A={"1","0",".","-","+","e","E","x","inf","nan","p","9"," ","f","_",","};
    int n=1+choose(mc::tier_pick(4,5)); string l; for (int i=0;i<n;i++) l+=A[choose(A.size())];
    if (!run("double "+q(l))) return;
    Doc d; num_doc(d,l,0); const char *c=xmqGetString(d.d,"/a"); if (!c||l!=c) { if (l.find_first_not_of(" ")!=string::npos) fail("string is %s",c?q(c).c_str():"NULL"); }
    double w=strtod(l.c_str(),NULL),g=xmqGetDouble(d.d,"/a"); if (!same(w,g)) fail("%s is read as %.17g, strtod says %.17g",l.c_str(),g,w);
}
// ------------------------------------------------ strings
static void strings()
{
    static vector<string> A={"a"," ","\n","\t","'","\"","&","<",">","\\","\xc3\xa5","\xf0\x9f\x98\x80","1","/","{"};
    int n=1+choose(mc::tier_pick(3,4)); string l; for (int i=0;i<n;i++) l+=A[choose(A.size())];
    int form=choose(4);
    if (!run("string "+q(l)+" form "+std::to_string(form))) return;
    Doc d; xmlDoc *x=newdoc(); xmlNode *r=add_elem(x,NULL,"r");
    if (form==0) add_text(x,r,l); else if (form==1) add_attr(x,r,"x",l); else if (form==2) { add_elem(x,r,"z"); add_text(x,add_elem(x,r,"s"),l); } else { xmlNode *z=add_elem(x,r,"z"); add_attr(x,z,"y","n"); add_attr(x,z,"x",l); }
    if (form>=2) { // through the parser
        adopt(d,x); string t=print(d.d,Set()); Doc e; mc::Exact b(t); if (!xmqParseBufferWithType(e.d,b.start,b.stop,NULL,XMQ_CONTENT_XMQ,0)) fail("no parse of %s",q(t).c_str());
        const char *g=xmqGetString(e.d,form==2?"//s":"//@x"); if (!g||l!=g) {
            // Known: a value printed with entity references is in several pieces, only the first is returned.
            bool pieces=t.find("&apos;")!=string::npos||t.find("&quot;")!=string::npos; if (pieces&&g&&l.compare(0,strlen(g),g)==0&&mc::known("KF-string-pieces")) return;
            fail("string is %s",g?q(g).c_str():"NULL"); }
        return;
    }
    adopt(d,x); const char *xp=form==0?"/r":"/r/@x"; const char *g=xmqGetString(d.d,xp); if (!g||l!=g) fail("string is %s",g?q(g).c_str():"NULL");
    g=xmqGetStringRel(d.d,form==0?".":"@x",xmqGetRootNode(d.d)); if (!g||l!=g) fail("relative string is %s",g?q(g).c_str():"NULL");
}
// ------------------------------------------------ histories
struct HCtx { XMQDoc *d; string o; int stop; };
static XMQProceed hcb(XMQDoc *d, XMQNode *n, void *u)
{
    HCtx *h=(HCtx*)u; h->o+=string("<")+(xmqGetName(n)?xmqGetName(n):"-")+":"+(xmqGetContent(n)?xmqGetContent(n):"-")+":"+std::to_string(xmqForeachRel(d,"descendant::node()",NULL,NULL,n))+":"+std::to_string(xmqGetIntRel(d,"@x",n))+">";
    return --h->stop?XMQ_CONTINUE:XMQ_STOP;
}
static XMQProceed nest(XMQDoc *d, XMQNode *n, void *u)
{
    HCtx *h=(HCtx*)u; HCtx i{d,"",2}; int c=xmqForeachRel(d,"*|@*",hcb,&i,n); h->o+="["+std::to_string(c)+i.o+"]";
    return --h->stop?XMQ_CONTINUE:XMQ_STOP;
}
static string op(XMQDoc *d, int k)
{
    HCtx h{d,"",1000}; int c=0; const char *s;
    switch (k) {
    case 0: c=xmqForeach(d,"//b",hcb,&h); break;
    case 1: h.stop=1; c=xmqForeach(d,"//node()",hcb,&h); break;
    case 2: c=xmqForeach(d,"//*",nest,&h); break;
    case 3: h.stop=2; c=xmqForeach(d,"//*",nest,&h); break;
    case 4: c=xmqForeach(d,"//@*",NULL,NULL); break;
    case 5: s=xmqGetString(d,"//a[@x]"); h.o=s?s:"NULL"; break;
    case 6: c=xmqGetInt(d,"//@x"); break;
    case 7: h.o=std::to_string(xmqGetDouble(d,"//b")); break;
    case 8: c=xmqForeach(d,"//[",hcb,&h); break;
    case 9: c=xmqForeach(d,"//none",hcb,&h); break;
    case 10: c=xmqForeachRel(d,"*[2]",hcb,&h,xmqGetRootNode(d)); break;
    case 11: h.stop=3; c=xmqForeachRel(d,"descendant::node()/preceding::node()",hcb,&h,xmqGetRootNode(d)); break;
    case 12: c=(int)xmqGetLong(d,"//b[last()]"); break;
    case 13: c=xmqForeach(d,"count(//a)",hcb,&h); break;
    case 14: h.o=print(d,Set()); break;
    }
    return std::to_string(c)+h.o;
}
static void histories()
{
    int i=choose(RICH.size()),how=choose(2),n=mc::tier_pick(3,4); vector<int> v; string desc;
    for (int k=0;k<n;k++) { v.push_back(choose(15)); desc+=" "+std::to_string(v.back()); }
    if (!run("queries"+desc+" on "+RICH[i].xmq+(how?" from xml":""))) return;
    Doc d; rich_load(d,i,how); string before=dump(d);
    for (int k:v) { Doc f; rich_load(f,i,how); string w=op(f.d,k),g=op(d.d,k); mc::outcome(g); if (w!=g) fail("query %d gives %s, on a fresh document %s",k,g.c_str(),w.c_str()); }
    if (dump(d)!=before) fail("the document changed");
}
static void leaks()
{
    int i=choose(RICH.size()),k=choose(14);
    if (!run("memory of query "+std::to_string(k)+" on "+RICH[i].xmq)) return;
    Doc d; rich_load(d,i,0); mc::leakcheck([&]{ op(d.d,k); });
}
static void sizes()
{
    static const int N[]={0,1,2,3,9,10,11,31,32,33,63,64,65,99,100,127,128,129,255,256,257,1000,1023,1024,1025,4096,10000,20000,70000};
    int n=N[choose(mc::tier_pick(27,29))],shape=choose(4);
    static const char *SN[]={"children","attributes","levels","grandchildren"};
    if (shape==1&&n>2000) return; if (shape==2&&n>4000) return;
    if (!run(std::to_string(n)+" "+SN[shape])) return;
    Doc d; xmlDoc *x=newdoc(); xmlNode *r=add_elem(x,NULL,"r"); const char *xp=NULL; xmlNode *cur=r, *last=NULL; (void)last;
    for (int i=0;i<n;i++) { string v=std::to_string(i+1);
        if (shape==0) { add_text(x,add_elem(x,r,"a"),v); xp="/r/a"; }
        else if (shape==1) { add_attr(x,r,("x"+v).c_str(),v); xp="/r/@*"; }
        else if (shape==2) { cur=add_elem(x,cur,"a"); add_attr(x,cur,"n",v); xp="//a/@n"; }
        else { if (i%7==0) cur=add_elem(x,r,"g"); add_text(x,add_elem(x,cur,"a"),v); xp="//a"; } }
    if (!xp) xp="//a";
    adopt(d,x);
    struct C { static XMQProceed cb(XMQDoc*,XMQNode *m,void *u) { int *k=(int*)u; k[0]++; const char *s=xmqGetContent(m); if (!s||atoi(s)!=k[0]) k[1]++; return k[0]==k[2]?XMQ_STOP:XMQ_CONTINUE; } };
    vector<int> st{-1}; for (int i=1;i<=std::min(n,70);i++) st.push_back(i); if (n>70) { st.push_back(n-1); st.push_back(n); st.push_back(n/2); }
    for (int stop:st) { int k[3]={0,0,stop}; int c=xmqForeach(d.d,xp,C::cb,k); int w=stop<0?n:stop; if (c!=n) fail("returned %d of %d",c,n); if (k[0]!=w) fail("visited %d, expected %d",k[0],w); if (k[1]) fail("%d visits out of order",k[1]); }
    if (xmqForeach(d.d,xp,NULL,NULL)!=n) fail("counted %d",xmqForeach(d.d,xp,NULL,NULL));
    if (n&&xmqGetInt(d.d,xp)!=1) fail("the first value is %d",xmqGetInt(d.d,xp));
    if (n) { string l="("+string(xp)+")[last()]"; if (xmqGetInt(d.d,l.c_str())!=n) fail("the last value is %d",xmqGetInt(d.d,l.c_str())); if (xmqForeach(d.d,l.c_str(),NULL,NULL)!=1) fail("several last nodes"); }
}
int main(int argc, char **argv)
{
    quiet();
    xmlSetStructuredErrorFunc(NULL,[](void*,xmlError*){});
    return mc::main_(argc,argv,"P19",{{"trees",trees},{"paths",paths},{"unions",unions},{"abbreviations",abbreviations},{"odd",odd},{"namespaces",namespaces},{"int",int32s},{"long",int64s},{"small",smalls},{"double",doubles},{"doublewords",double_words},{"strings",strings},{"histories",histories},{"leaks",leaks},{"sizes",sizes}});
}
