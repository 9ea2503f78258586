// Node forms shared by the checks that enumerate document trees, and the known losses in comments.
#pragma once
#include "xq.h"
namespace forms {
using namespace xq;
typedef xmlNode *N;
static xmlDoc *D;
static N el(N p, const char *name) { N n=xmlNewDocNode(D,NULL,X(name),NULL); link_child(p,n); n->doc=D; return n; }
static N tx(N p, const string &s) { return add_text(D,p,s); }
static N en(N p, const char *name) { N n=xmlNewReference(D,X(name)); link_child(p,n); return n; }
static N co(N p, const string &s) { N n=xmlNewDocComment(D,X(s)); link_child(p,n); return n; }
static N pi(N p, const char *name, const char *c) { N n=xmlNewDocPI(D,X(name),c?X(c):NULL); link_child(p,n); return n; }
static xmlAttr *at(N e, const char *name, const char *v=NULL) { if (v) add_attr(D,e,name,v); else xmlNewProp(e,X(name),NULL); xmlAttr *a=e->properties; while (a->next) a=a->next; return a; }
static N ae(xmlAttr *a, const char *name) { N n=xmlNewReference(D,X(name)); n->parent=(N)a; if (a->last) { a->last->next=n; n->prev=a->last; } else a->children=n; a->last=n; return n; }
static N atx(xmlAttr *a, const string &s) { N n=xmlNewDocText(D,X(s)); n->parent=(N)a; if (a->last) { a->last->next=n; n->prev=a->last; } else a->children=n; a->last=n; return n; }

struct Form { const char *name; void (*make)(N p); bool istext; };
static const Form F[]={
 {"leaf",[](N p){ el(p,"a"); }},
 {"value",[](N p){ tx(el(p,"b"),"1"); }},
 {"value with space",[](N p){ tx(el(p,"c"),"x y"); }},
 {"empty text value",[](N p){ tx(el(p,"longer.name"),""); }},
 {"quote value",[](N p){ tx(el(p,"d"),"'q'"); }},
 {"two line value",[](N p){ tx(el(p,"e"),"x\n y"); }},
 {"newline value",[](N p){ tx(el(p,"f"),"\n"); }},
 {"entity value",[](N p){ en(el(p,"g"),"nbsp"); }},
 {"value with entity",[](N p){ N n=el(p,"h"); tx(n,"x"); en(n,"foo"); tx(n,"y"); }},
 {"value with comment",[](N p){ N n=el(p,"i"); tx(n,"x"); co(n,"c"); }},
 {"attribute",[](N p){ at(el(p,"j"),"k","v"); }},
 {"bare attribute",[](N p){ at(el(p,"j"),"k"); }},
 {"attributes and value",[](N p){ N n=el(p,"j"); at(n,"k","a b"); at(n,"ll","\n"); tx(n,"v"); }},
 {"attributes and children",[](N p){ N n=el(p,"j"); at(n,"k","'"); el(n,"x"); tx(el(n,"yy"),"1"); }},
 {"attribute with entity",[](N p){ N n=el(p,"j"); xmlAttr *a=at(n,"k"); ae(a,"foo"); }},
 {"attribute mixed",[](N p){ N n=el(p,"j"); xmlAttr *a=at(n,"k"); atx(a,"x"); ae(a,"foo"); atx(a," y"); at(n,"z","1"); }},
 {"text",[](N p){ tx(p,"t"); },true},
 {"text with newline",[](N p){ tx(p,"t\nu"); },true},
 {"space",[](N p){ tx(p," "); },true},
 {"newline text",[](N p){ tx(p,"\n  "); },true},
 {"quote text",[](N p){ tx(p,"'"); },true},
 {"entity",[](N p){ en(p,"foo"); }},
 {"predefined entity",[](N p){ en(p,"lt"); }},
 {"comment",[](N p){ co(p,"c"); }},
 {"empty comment",[](N p){ co(p,""); }},
 {"two line comment",[](N p){ co(p,"c\nd"); }},
 {"pi",[](N p){ pi(p,"q","v w"); }},
 {"empty pi",[](N p){ pi(p,"q",NULL); }},
 {"child elements",[](N p){ N n=el(p,"m"); el(n,"x"); el(n,"y"); }},
 {"deep",[](N p){ N n=el(el(el(p,"m"),"n"),"o"); tx(n,"1"); el(p,"last"); }},
 {"child text",[](N p){ N n=el(p,"m"); tx(n,"x"); el(n,"y"); tx(n,"z"); }},
 {"single child",[](N p){ el(el(p,"m"),"x"); }},
};
static const int NF=sizeof(F)/sizeof(F[0]);
// A chain of n elements, the innermost is returned. style: 0 plain, 1 attributes, 2 siblings around, 3 prefixes
static N chain(N p, int n, int style)
{
    for (int i=0;i<n;i++) {
        if (style==2) { tx(el(p,"before"),"1"); if (i%3==0) co(p,"c"); }
        N e=el(p,i%2?"n":"mm");
        if (style==1) { at(e,"k","v"); if (i%2) at(e,"other","a b"); }
        if (style==3) { e->ns=xmlNewNs(e,X("u"+std::to_string(i%3)),i%2?X("p"):X("r")); }
        if (style==2&&i%2) el(p,"after");
        p=e;
    }
    return p;
}
// Three losses in comments are pinned by the test suite (see known_findings.txt), each described exactly here.
static string lossy(const string &c, bool compact, std::set<string> &ids)
{
    if (c.size()>1&&c.find_first_not_of('\n')==string::npos) { ids.insert("KF-comment-blank"); return string(compact?c.size()-1:c.size()-2,'\n'); }
    if (compact) { string r; for (size_t i=0;i<c.size();i++) { if (c[i]==' '&&i&&c[i-1]=='\n') { ids.insert("KF-comment-space"); 
            if (i+1>=c.size()||c[i+1]=='\n') {} continue; } r+=c[i]; } return r; }
    if (c.size()>1&&c.back()=='\n'&&c[c.size()-2]!='\n') {
        bool fits=!strchr(" \t\r",c[c.size()-2]); size_t b=c.find_first_not_of('\n'); if (b&&strchr(" \t\r",c[b])) fits=false;
        if (!b&&strchr(" \t\r",c[0])) { size_t e=c.find_first_not_of(" \t\r"); if (e!=string::npos&&c[e]=='\n') fits=false; }
        for (size_t i=1;i<c.size();i++) if (c[i]=='\n'&&strchr(" \t\r",c[i-1])) fits=false;
        if (fits) { ids.insert("KF-comment-newline"); return c.substr(0,c.size()-1); } }
    return c;
}
static void lossy_tree(xmlNode *n, bool compact, std::set<string> &ids)
{
    for (;n;n=n->next) {
        if (n->type==XML_COMMENT_NODE) { string c=cs(n->content),l=lossy(c,compact,ids); if (l!=c) xmlNodeSetContent(n,X(l)); }
        else if (n->type==XML_ELEMENT_NODE) lossy_tree(n->children,compact,ids); }
}
// Is the difference exactly what the known losses explain?
static bool known_loss(xmlDoc *d, const string &got, bool compact)
{
    std::set<string> ids; lossy_tree(d->children,compact,ids);
    if (ids.empty()||dump(d)!=got) return false;
    for (auto &i:ids) if (!mc::known(i.c_str())) return false;
    return true;
}
// A document whose one dimension has the given size.
static const int NSIZED=17;
inline int pick_size(int kind) { static const int S[]={1,2,3,4,5,7,8,9,10,11,12,15,16,17,20,31,32,33,50,63,64,65,99,100,101,127,128,129,200,255,256,257,300,511,512,513,1000,1023,1024,1025,2047,2048,2049,4095,4096,4097,8192}; return S[mc::choose(kind==0?33:kind<6?37:kind==9?40:47)]; }
inline xmlDoc *sized(int kind, int n)
{
    xmlDoc *d=newdoc(); N root=el((N)d,"root"), p=root; auto num=[](int i) { return std::to_string(i); }; string s; auto rep=[](const char *w,int n) { string r; while (n-->0) r+=w; return r; };
    switch (kind) {
    case 0: for (int i=0;i<n;i++) p=el(p,"d"); tx(p,"x\ny"); el(root,"z"); break;
    case 1: for (int i=0;i<n;i++) tx(el(root,("k"+num(i)).c_str()),i%3?num(i):"a b"); break;
    case 2: for (int i=0;i<n;i++) at(root,("k"+num(i)).c_str(),i%2?"v w":"v"); tx(el(root,"e"),"x"); break;
    case 3: for (int i=0;i<n;i++) co(root,string(i%7,'/')+"c\n"+num(i)); el(root,"e"); break;
    case 4: p=el(root,"e"); for (int i=0;i<n;i++) { en(p,"foo"); tx(p,i%2?"'":"x y"); } break;
    case 5: for (int i=0;i<n;i++) { p=el(root,"same"); if (i%2) tx(p,"é\t"+num(i)); else at(p,"a","b c"); } break;
    case 6: tx(el(root,"e"),string(n,'x')); break;
    case 7: for (int i=0;i<n;i++) s+=(i?"\n":"")+num(i*7); tx(el(root,"e"),s); break;
    case 8: tx(el(root,"e"),"x"+string(n,'\'')+"y"); break;
    case 9: tx(el(root,string(n,'n').c_str()),"v"); at(root,string(n,'m').c_str(),"w"); tx(el(root,"s"),"v"); break;
    case 10: for (int i=0;i<n;i++) s+=(i?"\n":"")+string("c")+num(i); co(root,s); el(root,"e"); break;
    case 11: pi(root,"p",(string(n,'p')+" q").c_str()); el(root,"e"); break;
    case 12: tx(el(root,"e"),rep("é",n)); break;
    case 13: tx(el(root,"e"),rep("\t",n)+"x"); break;
    case 14: at(root,"k",("a"+string(n,' ')+"b").c_str()); at(root,"l",string(n,'y').c_str()); break;
    case 15: tx(el(root,"e"),string(n,' ')+"x"+string(n,' ')); break;
    case 16: tx(el(root,"e"),"x"+rep("\n",n)); tx(el(root,"f"),rep("\n",n)+"x"); break; }
    return d;
}
}
