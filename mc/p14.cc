// P14: content type detection is a function of the leading words, and typed parsing agrees with it.
#include "refjson.h"
#include "xq.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;
enum { X_=XMQ_CONTENT_XMQ, M_=XMQ_CONTENT_XML, H_=XMQ_CONTENT_HTML, J_=XMQ_CONTENT_JSON, U_=-1 };
static bool ws(char c) { return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static string low(string s) { for (auto &c:s) c=tolower((unsigned char)c); return s; }
// the rule, written from the documentation of xmqDetectContentType and the property; U_ where it does not say.
static int want(const string &s0)
{
    string s=s0; if (s.compare(0,3,"\xef\xbb\xbf")==0) s=s.substr(3);
    size_t i=0; auto skip=[&](){ while (i<s.size()&&ws(s[i])) i++; };
    skip(); if (i==s.size()) return X_;
    char c=s[i];
    if (c=='{'||c=='['||c=='"'||isdigit((unsigned char)c)) return J_;
    if (c=='-'&&i+1<s.size()&&isdigit((unsigned char)s[i+1])) return J_;
    for (const char *w:{"true","false","null"}) if (s.compare(i,strlen(w),w)==0) { size_t k=i+strlen(w); while (k<s.size()&&ws(s[k])) k++; if (k==s.size()) return J_; }
    if (c!='<') return X_;
    while (s.compare(i,4,"<!--")==0) {
        size_t e=s.find("-->",i+4); size_t f=s.find("-->",i); if (f!=e) return U_; // <!--> is not a comment
        if (e==string::npos) return M_;
        i=e+3; skip(); if (i==s.size()) return M_;
    }
    if (s.compare(i,5,"<?xml")==0) return M_;
    if (s[i]!='<') return M_; // text after a comment: not a document of any kind
    auto word=[&](size_t k, const char *w)->int { size_t n=strlen(w); if (low(s.substr(k,n))!=w) return 0; k+=n; if (k==s.size()||ws(s[k])||s[k]=='>'||s[k]=='/'||s[k]=='<'||s[k]=='"'||s[k]=='\''||s[k]=='['||s[k]=='?'||s[k]=='!') return 1; return isalnum((unsigned char)s[k])?0:2; };
    size_t k=i+1; while (k<s.size()&&ws(s[k])) k++;
    int h=word(k,"html"); if (h==1) return H_; if (h==2) return U_;
    int d=word(i,"<!doctype"); if (d==2) return U_;
    if (d==1) { size_t m=i+9; if (m<s.size()&&!ws(s[m])) return U_; while (m<s.size()&&ws(s[m])) m++; h=word(m,"html"); if (h==1) return H_; if (h==2) return U_; }
    return M_;
}
static const char *nm(int t) { return t==X_?"xmq":t==M_?"xml":t==H_?"html":t==J_?"json":t==U_?"unspecified":"other"; }
static int det(const string &s) { mc::Exact e(s); return xmqDetectContentType(e.start,e.stop); }
static void detect1(const string &s)
{
    int w=want(s),g=det(s);
    mc::outcome(nm(g)+s);
    if (w!=U_&&w!=g) fail("detected %s, expected %s: %s",nm(g),nm(w),mc::esc(s).c_str());
    for (const char *p:{" ","\n","\t\r\n  "}) { if (s.compare(0,3,"\xef\xbb\xbf")==0) break; int l=det(p+s); if (l!=g) fail("detected %s, with leading white space %s: %s",nm(g),nm(l),mc::esc(s).c_str()); }
}
static void words()
{
    static vector<string> A={" ","\n","<","?xml","!--","-->","html","HTML","!doctype","!DOCTYPE","x","{","\"","1","-","true","null","false",">","/","[","=","!","?","\xef\xbb\xbf"};
    int n=choose(mc::tier_pick(6,7)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("detect "+q(s))) return;
    detect1(s);
}
static void prologs()
{   // what may stand before the first tag
    static vector<string> A={" ","\n\t","<!--c-->","<!-- <html> -->","<!-- -- - > -->","<!---->","<?xml version='1.0'?>","<?pi x?>"};
    static vector<string> T={"<html>","<HTML lang=en>","<html/>","< html>","<htmlx>","<html1/>","<ahtml>","<!doctype html>","<!DOCTYPE HTML PUBLIC \"x\" \"y\">","<!doctype   html>","<!doctype\nhtml>","<!doctype xhtml>","<!doctype htmlx>","<!doctype svg><html>","<!doctypehtml>","<a><html></html></a>","<a/>","<?php html","<!-- open","","<","<!","<!d","<!doctype","<!doctype ","<!doctype h","<h","<htm","<html","x","html","{","<!ELEMENT html>","<![CDATA[html]]>","<Html\n>","<!DocType hTmL>"};
    int n=choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+=T[choose(T.size())];
    if (!run("detect "+q(s))) return;
    detect1(s);
}
static void comments()
{   // every content of a comment, and what stands behind it
    static vector<string> A={"-",">","<","!"," ","x","\n","\"","--","<html>","<!--","[","\xe2\x90\x90"};
    static vector<string> T={"<html>","<a/>"," <!doctype html>","<?xml","{","","<!--c--><html>"};
    int n=choose(mc::tier_pick(5,6)); string s="<!--"; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+="-->"+T[choose(T.size())];
    if (!run("detect "+q(s))) return;
    detect1(s);
}
static void first()
{   // every leading pair of bytes
    int a=choose(256),b=choose(257);
    if (!run("bytes "+std::to_string(a)+" "+std::to_string(b))) return;
    string s(1,(char)a); if (b<256) s+=(char)b;
    detect1(s); detect1(s+" x=1"); detect1(" "+s+"html");
}
static void trailing()
{
    static vector<string> L={"{","[","\"a\"","12","-1","a","a=1","<a>","<a/>","<html>","<!doctype html>","<?xml version=\"1.0\"?>","<!--c--><html>","<!--c--> <html>","_","'x'","/*c*/","//c\n","!DOCTYPE=html","?pi","html","html{","truex","nulls","t","tru","-","-a","&x;","\xc3\xa5","(","}"};
    static vector<string> T={""," ","\n","x"," x","=1","{}","<html>","<!doctype html>","{\"a\":1}","true","<?xml","-->","\"","1","\0x"};
    int l=choose(L.size()),t1=choose(T.size()),t2=choose(T.size());
    string s=L[l],u=s+" "+T[t1]+T[t2];
    if (!run("trailing "+q(u))) return;
    if (det(s)!=det(u)) fail("detected %s, with trailing content %s: %s",nm(det(s)),nm(det(u)),mc::esc(u).c_str());
    detect1(u);
}
// ------------------------------------------------ typed parsing
static vector<string> SRC={"a","a{b=1 'x'}","a b c","true","true x","null\n"," false ","{}","{\"a\":[1,\"x\"]}","[1, 2]","\"s\"","-1","12","<a><b>x</b> <c/></a>"," <a/>","<?xml version=\"1.0\"?><a>x</a>","<!--c--><a/>","<!--c--> <html><body>x</body></html>","<html><body><p>x<br>y</body></html>","<!doctype html><html><head></head><body a=1 b>x</body></html>","<!DOCTYPE a><a/>","< html><p>x","html{body='x'}","!DOCTYPE=html html{}","","  \n","//c","'x'","_","<a>","<a","<","{","{\"a\"","a=","a{","}","<html","<!--","<a/><b/>","plain text & such","'unfinished","\xef\xbb\xbf" "a=1","\xef\xbb\xbf<a/>","\xef\xbb\xbf{}","\xef\xbb\xbf<html><p>x","\xef\xbb\xbf","\xff\xfe" "a","\xfe\xff" "a","\xff\xfe","truex","nothing=1","?pi a","a(b=c){d(e=f)=g}","<a xmlns='u'><b xmlns:p='v' p:c='d'/></a>"};
static const XMQContentType TY[]={XMQ_CONTENT_DETECT,XMQ_CONTENT_XMQ,XMQ_CONTENT_HTMQ,XMQ_CONTENT_XML,XMQ_CONTENT_HTML,XMQ_CONTENT_JSON,XMQ_CONTENT_TEXT,XMQ_CONTENT_CLINES};
static const char *TN[]={"detect","xmq","htmq","xml","html","json","text","clines"};
static int expected_err(XMQContentType t) { switch (t) { case XMQ_CONTENT_XMQ: return XMQ_ERROR_EXPECTED_XMQ; case XMQ_CONTENT_HTMQ: return XMQ_ERROR_EXPECTED_HTMQ; case XMQ_CONTENT_XML: return XMQ_ERROR_EXPECTED_XML; case XMQ_CONTENT_HTML: return XMQ_ERROR_EXPECTED_HTML; case XMQ_CONTENT_JSON: return XMQ_ERROR_EXPECTED_JSON; default: return 0; } }
static void typed1(const string &s, XMQContentType t, int flags, const char *implicit)
{
    Parsed p; parse(p,s,t,flags,implicit);
    mc::outcome(std::to_string(p.ok)+std::to_string(p.err)+dump(p.doc));
    if (p.ok&&p.err) fail("success with error number %d",p.err);
    if (!p.ok&&!p.err) fail("failure without error number");
    bool utf16=s.size()>=2&&(s.compare(0,2,"\xff\xfe")==0||s.compare(0,2,"\xfe\xff")==0);
    if (utf16) { if (p.ok) fail("utf-16 content accepted"); if (p.msg.empty()) fail("no message"); return; }
    string body=s.compare(0,3,"\xef\xbb\xbf")==0?s.substr(3):s;
    int d=det(s);
    if (t==XMQ_CONTENT_DETECT) {
        Parsed r; parse(r,s,(XMQContentType)d,flags,implicit);
        if (r.ok!=p.ok||r.err!=p.err||r.msg!=p.msg) fail("detected as %s: parsing with detection gives %d %d, with the type %d %d",nm(d),p.ok,p.err,r.ok,r.err);
        if (r.ok&&dump(r.doc)!=dump(p.doc)) fail("parsing with detection gives another document\n  %s\n  %s",dump(p.doc).c_str(),dump(r.doc).c_str());
        if (p.ok&&xmqGetOriginalContentType(p.doc.d)!=d) fail("original content type %d",xmqGetOriginalContentType(p.doc.d));
        if (p.ok&&xmqGetOriginalSize(p.doc.d)!=body.size()) fail("original size %zu",xmqGetOriginalSize(p.doc.d));
        // the byte order mark is no content
        if (body!=s) { Parsed b; parse(b,body,t,flags,implicit); if (b.ok!=p.ok||dump(b.doc)!=dump(p.doc)) fail("a byte order mark changes the document"); }
        return;
    }
    if (t==XMQ_CONTENT_TEXT||t==XMQ_CONTENT_CLINES) {
        if (!p.ok) fail("text not accepted"); string got; for (xmlNode *c=p.doc.x()->children;c;c=c->next) for (xmlNode *k=c->type==XML_ELEMENT_NODE?c->children:c;k;k=k->next) { got+=cs(k->content); if (c->type!=XML_ELEMENT_NODE) break; }
        if (!(flags&XMQ_FLAG_TRIM_HEURISTIC)&&got!=body) fail("text is %s",q(got).c_str());
        if (t==XMQ_CONTENT_TEXT&&implicit) { xmlNode *r=xmlDocGetRootElement(p.doc.x()); if (!r||strcmp(cs(r->name),implicit)) fail("implicit root is missing"); }
        return;
    }
    bool fits=d==(int)t||(d==M_&&t==XMQ_CONTENT_HTML)||(d==X_&&t==XMQ_CONTENT_HTMQ);
    if (!fits) {
        if (p.ok) fail("content detected as %s was accepted as something else",nm(d));
        if (p.err!=expected_err(t)) fail("error is %d, not %d",p.err,expected_err(t));
        if (p.msg.empty()) fail("no message");
        return;
    }
    if (p.err>=XMQ_ERROR_EXPECTED_XMQ&&p.err<=XMQ_ERROR_EXPECTED_JSON) fail("refused though detected as %s",nm(d));
    if (t==XMQ_CONTENT_HTMQ) { Parsed r; parse(r,s,XMQ_CONTENT_XMQ,flags,implicit); if (r.ok!=p.ok||dump(r.doc)!=dump(p.doc)) fail("htmq and xmq parse differently"); }
}
static void typed()
{
    static const int FL[]={0,XMQ_FLAG_TRIM_NONE,XMQ_FLAG_TRIM_HEURISTIC,XMQ_FLAG_NOMERGE};
    int s=choose(SRC.size()),t=choose(8),f=choose(4),r=choose(2);
    if (!run("parse "+q(SRC[s])+" as "+TN[t]+" flags "+std::to_string(FL[f])+(r?" implicit root":""))) return;
    typed1(SRC[s],TY[t],FL[f],r?"root":NULL);
}
static void typedwords()
{
    static vector<string> A={" ","<a>","</a>","<html>","{","}","x","true","1","\"","<!--c-->","=","'","\xef\xbb\xbf","[","]"};
    int n=choose(mc::tier_pick(4,5)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())]; int t=choose(8);
    if (!run("parse "+q(s)+" as "+TN[t])) return;
    if (s.find("\xef\xbb\xbf",1)!=string::npos) return;
    typed1(s,TY[t],0,NULL);
}
int main(int argc, char **argv)
{
    quiet();
    return mc::main_(argc,argv,"P14",{{"words",words},{"prologs",prologs},{"comments",comments},{"first",first},{"trailing",trailing},{"typed",typed},{"typedwords",typedwords}});
}
