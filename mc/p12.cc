// P12: JSON -> XMQ document -> JSON keeps the value, also when the document is printed as XMQ and read back.
#include <functional>
#include "refjson.h"
using namespace xq; using namespace rj;
using mc::choose; using mc::run; using mc::fail;
static string to_json(XMQDoc *d, bool compact=false) { Set s; s.fmt=XMQ_CONTENT_JSON; s.compact=compact; return print(d,s); }
// xmq cannot tell an empty attribute from one without value: "_x":"" turns into null
static bool empty_attr(J &j)
{
    bool any=false;
    for (auto &m:j.m) { if (is_attr(m)&&m.second.t=='s'&&m.second.s.empty()) { m.second=jn(); any=true; } else any|=empty_attr(m.second); }
    for (auto &a:j.a) any|=empty_attr(a);
    return any;
}
static void check_json(const string &src, const J &v, const char *via="")
{
    J want,got; if (!expected(v,want)) return;
    Parsed p; if (!parse(p,src,XMQ_CONTENT_JSON)) fail("valid JSON rejected: %s\n  json: %s",mc::esc(p.msg).c_str(),mc::esc(src).c_str());
    string tree=dump(p.doc);
    for (int how=0;how<6;how++) { // direct, direct compact, via xmq pretty, via xmq compact, via xmq with escapes, direct again
        string xmq,out;
        if (how<2||how==5) out=to_json(p.doc.d,how==1);
        else {
            Set s; s.compact=how==3; if (how==4) s.nl=s.tab=s.non7=true; xmq=print(p.doc.d,s);
            Parsed r; if (!parse(r,xmq)) fail("xmq printed from JSON does not parse: %s\n  json: %s\n  xmq: %s",mc::esc(r.msg).c_str(),mc::esc(src).c_str(),mc::esc(xmq).c_str());
            out=to_json(r.doc.d);
        }
        if (out.empty()||out.back()!='\n') fail("JSON output does not end with a newline: %s",mc::esc(out).c_str());
        got=J(); V ok=rj::parse(out,got); if (ok!=OK) fail("output is not JSON (%d)\n  json: %s\n  xmq: %s\n  out: %s",how,mc::esc(src).c_str(),mc::esc(xmq).c_str(),mc::esc(out).c_str());
        if (!same(want,got)) { J w=want; if (how>=2&&how<5&&empty_attr(w)&&same(w,got)&&mc::known("KF-json-empty-attribute")) continue;
            fail("JSON value changed (%d)\n  json: %s\n  tree: %s\n  xmq: %s\n  want: %s\n  got:  %s",how,mc::esc(src).c_str(),tree.c_str(),mc::esc(xmq).c_str(),mc::esc(rj::text(want)).c_str(),mc::esc(out).c_str()); }
        if (dump(p.doc)!=tree) fail("printing changed the document (%d): %s",how,mc::esc(src).c_str());
        mc::outcome(out);
    }
}
static void check_json(const J &v, int style=0) { check_json(rj::text(v,style),v); }
// put a value somewhere
static const int NPLACE=9;
static J place(int w, const J &v)
{
    switch (w) {
    case 0: return v;
    case 1: return jo({{"a",v}});
    case 2: return ja({v});
    case 3: return jo({{"",v}});
    case 4: return jo({{"x y",v}});
    case 5: return jo({{"before",jn()},{"a",v},{"z",j0("1")}});
    case 6: return ja({j0("1"),v,jo()});
    case 7: return jo({{"a",jo({{"b",ja({ja({v})})}})}});
    default: return jo({{"_x",v},{"b",v}});
    }
}
static void strings()
{
    static vector<string> A={"a"," ","\n","\t","\r","'","\"","\\","/","<","&","{","}","(",")","=","0","-",".","e","\x01","\x0b","\x7f","é","\xe2\x82\xac","\xf0\x9f\x98\x80","\xc2\xa0","//","true","null","[","]",":",";","#","\x1b","\x08"};
    int n=choose(mc::tier_pick(3,4)); string s; int w=choose(NPLACE); for (int i=0;i<n;i++) s+=A[choose(A.size())]; int style=choose(3);
    if (n>2&&(w==3||w==4||w==5||w==6||w==7||style)) return;
    if (!run("string "+q(s)+" in place "+std::to_string(w)+" style "+std::to_string(style))) return;
    check_json(place(w,js(s)),style);
}
static void looks()
{   // strings that look like something else, and the something else
    static const char A[]="01-+.eE t"; int n=1+choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(8)]; int w=choose(3);
    if (!run("string or number "+s+" in place "+std::to_string(w))) return;
    check_json(place(w,js(s)));
    J j; if (rj::parse(s,j)==OK) check_json(place(w,j));
}
static void keywords()
{
    static vector<string> A={"true","false","null","True","tru","truex"," true","true ","nul","nan","NaN","Infinity","[]","{}","\"\"","[1]","{\"a\":1}","''","0x1","1_0","_","A","S","()","&amp;","&#10;","&lt;x","(A)","//x","/*x*/","/* x"," ","\n","","\n\n","  a\n b","a\nb"," \n ","a\n\n","'''","''","'a'","a'"};
    int v=choose(A.size()),k=choose(A.size()+1),w=choose(NPLACE);
    if (!run("string "+q(A[v])+" under key "+(k<(int)A.size()?q(A[k]):"none")+" in place "+std::to_string(w))) return;
    check_json(place(w,k<(int)A.size()?jo({{A[k],js(A[v])}}):js(A[v])));
}
static J kind(int k) { switch (k) { case 0: return js("v"); case 1: return jn(); case 2: return j0("1"); case 3: return jo(); case 4: return ja(); case 5: return jb(true); case 6: return jo({{"k",j0("1")}}); case 7: return ja({js("1")}); case 8: return js(""); case 9: return js("true"); case 10: return jo({{"_k",js("v")}}); default: return jo({{"",js("")}}); } }
static const int NKIND=12;
static void keys()
{
    static vector<string> A={"a","_",":",".","-","1","[","]","/","|","#","!","&"," ","A","S","é","\"","\\","'","\n","(","=","xmlns","xml","?"};
    int n=choose(mc::tier_pick(4,5)); string s; int v=choose(n<3?NKIND:n<4?6:3),w=n<3?choose(4):choose(2); for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("key "+q(s)+" kind "+std::to_string(v)+" where "+std::to_string(w))) return;
    J o=w==1?jo({{"k",j0("2")},{s,kind(v)}}):jo({{s,kind(v)}});
    if (w==2) o=ja({o}); if (w==3) o=jo({{"p",o}});
    check_json(o);
}
static void indexes()
{   // keys that end like an index
    static vector<string> A={"a","[","]","1","0","x","-","|"};
    int n=3+choose(mc::tier_pick(3,4)); string s; int v=choose(n<5?4:2); for (int i=0;i<n-1;i++) s+=A[choose(A.size())]; s+="]";
    if (s.find('[')==string::npos) return;
    if (!run("key "+q(s)+" kind "+std::to_string(v))) return;
    check_json(jo({{s,kind(v)}}));
}
static void members()
{   // several members: names, order, attributes in between
    static vector<string> K={"a","b","","_","_x","_y","x y","a:b","a:c","b:b","text","comment","//","|","&","A","S","_A","_S","__","a[]","[1]","x y[1]","_1","a.b","é","!DOCTYPE","_//","?p","\n"};
    int n=2+choose(2); int k[3],v[3]; int nk=n==2?K.size():mc::tier_pick(12,18); for (int i=0;i<n;i++) { k[i]=choose(nk); v[i]=choose(n==2?NKIND:mc::tier_pick(3,5)); if (i&&k[i]==k[i-1]) return; }
    int w=n==2?choose(3):0;
    vector<pair<string,J>> m; string d; for (int i=0;i<n;i++) { m.push_back({K[k[i]],kind(v[i])}); d+=" "+q(K[k[i]])+":"+std::to_string(v[i]); }
    if (!run("members"+d+" in place "+std::to_string(w))) return;
    check_json(place(w,jo(m)));
}
static J shape(int &budget)
{
    if (budget<=0) return kind(choose(5));
    budget--;
    int c=choose(7);
    if (c<3) { static const int k[]={0,2,9}; return kind(k[c]); }
    if (c==3) return jo(); if (c==4) return ja();
    static const char *K[]={"a","","x y"};
    int n=1+choose(2); J j=c==5?jo():ja(); int off=c==5?choose(3):0;
    for (int i=0;i<n;i++) { J v=shape(budget); if (c==5) j.m.push_back({K[(off+i)%3],v}); else j.a.push_back(v); }
    return j;
}
static void shapes()
{
    int budget=mc::tier_pick(3,4); J j=shape(budget);
    if (!run("shape "+rj::text(j))) return;
    check_json(j);
}
static void codepoints()
{
    int b=choose(mc::tier_pick(280,0x1100)); unsigned base=mc::thorough()?b*256:b<256?b*256:(b-255)*0x4000+0x10000-0x4000; int w=choose(3);
    if (base>0x10ffff) return;
    if (!run("code points from "+std::to_string(base)+" place "+std::to_string(w))) return;
    for (unsigned c=base;c<base+256;c++) { if (!c||(c>=0xd800&&c<0xe000)) continue; string s=utf8(c); int style=c&1;
        check_json(w==2?jo({{s,js("x"+s)}}):place(w,js(s)),style); }
}
static void sizes()
{
    static int N[]={1,2,31,32,33,99,100,101,255,256,1023,1024,1025,4095,4096,5000,20000};
    int i=choose(17),what=choose(8); int n=N[i]; if (what&&n>1100) return;
    if (!run("size "+std::to_string(n)+" of "+std::to_string(what))) return;
    J j;
    switch (what) {
    case 0: j=js(string(n,'x')); break;
    case 1: j=jo({{string(n,'k')+" ",js(string(n,'\n'))}}); break;
    case 2: j=ja(); for (int k=0;k<n;k++) j.a.push_back(kind(k%NKIND)); break;
    case 3: j=jo(); for (int k=0;k<n;k++) j.m.push_back({"k"+std::to_string(k),kind(k%NKIND)}); break;
    case 4: j=kind(0); for (int k=0;k<n&&k<600;k++) j=ja({j}); break;
    case 5: j=kind(2); for (int k=0;k<n&&k<600;k++) j=jo({{"a",j}}); break;
    case 6: j=kind(9); for (int k=0;k<n&&k<600;k++) j=k%2?ja({j0("1"),j}):jo({{"x y",jn()},{"",j}}); break;
    default: j=j0("-"+string(n,'9')+"."+string(n,'0')+"e+"+string(n,'1')); break;
    }
    check_json(j);
}
static void namespaces()
{   // prefixes declared by "_xmlns:p" are kept
    int decl=choose(4),where=choose(4),v=choose(NKIND),pre=choose(3);
    if (!run("namespace declared "+std::to_string(decl)+" used "+std::to_string(where)+" kind "+std::to_string(v)+" prefix "+std::to_string(pre))) return;
    static const char *P[]={"p","foo","q"}; string p=P[pre];
    vector<pair<string,J>> m; if (decl&1) m.push_back({"_xmlns:p",js("urn:x")}); if (decl&2) m.push_back({"_xmlns:foo",js("http://a\"b")});
    if (where&1) m.push_back({p+":k",kind(v)}); if (where&2) m.push_back({"in",jo({{p+":k",kind(v)},{"z",jn()}})});
    J want=jo(m); string src=rj::text(want);
    bool declared=(decl&1&&p=="p")||(decl&2&&p=="foo");
    Parsed a; if (!parse(a,src,XMQ_CONTENT_JSON)) fail("rejected %s: %s",src.c_str(),a.msg.c_str());
    string xmq; for (int how=0;how<2;how++) { string out; if (!how) out=to_json(a.doc.d); else { xmq=print(a.doc.d,Set()); Parsed b; if (!parse(b,xmq)) fail("xmq does not parse: %s\n  %s\n  json: %s",mc::esc(b.msg).c_str(),mc::esc(xmq).c_str(),src.c_str()); out=to_json(b.doc.d); }
        J got; if (rj::parse(out,got)!=OK) fail("not JSON: %s\n  from %s",mc::esc(out).c_str(),src.c_str());
        if (!same(want,got)) fail("value changed (%d)\n  json: %s\n  xmq: %s\n  got: %s",how,src.c_str(),mc::esc(xmq).c_str(),mc::esc(out).c_str()); mc::outcome(out); }
}
static void prefixes()
{   // prefixes of objects and their members, declared outside, on the object, or never, before or after their use
    int outer=choose(2),key=choose(3),inner=choose(3),n=1+choose(3); static const char *K[]={"a","p:a","q:a"};
    vector<pair<string,J>> m; string d; bool attr=false,elem=false;
    vector<pair<string,J>> at,el;
    for (int i=0;i<n;i++) { int k=choose(6); d+=std::to_string(k); static const char *M[]={"_p:k","_q:k","_k","p:x","q:x","p:o"}; string nm=M[k]; for (auto &x:at) if (x.first==nm) return; for (auto &x:el) if (x.first==nm) return;
        J v=k==5?jo({{"_p:k",js("1")},{"p:y",js("t")}}):js("v"); if (k<3) { at.push_back({nm,v}); attr=true; } else { el.push_back({nm,v}); elem=true; } }
    if (!run("outer "+std::to_string(outer)+" key "+K[key]+" inner "+std::to_string(inner)+" members "+d)) return;
    (void)attr; (void)elem;
    auto decl=[&](vector<pair<string,J>> &v){ v.push_back({"_xmlns:p",js("urn:in")}); };
    if (inner==1) decl(m);
    for (auto &x:at) m.push_back(x);
    if (inner==2) decl(m);
    for (auto &x:el) m.push_back(x);
    vector<pair<string,J>> o; if (outer) o.push_back({"_xmlns:p",js("urn:out")}); o.push_back({K[key],jo(m)}); o.push_back({"z",js("end")});
    J want=jo(o); string src=rj::text(want);
    Parsed a; if (!parse(a,src,XMQ_CONTENT_JSON)) fail("rejected %s: %s",src.c_str(),a.msg.c_str());
    string xmq; for (int how=0;how<2;how++) { string out; if (!how) out=to_json(a.doc.d); else { xmq=print(a.doc.d,Set()); Parsed b; if (!parse(b,xmq)) fail("xmq does not parse: %s\n  %s\n  json: %s",mc::esc(b.msg).c_str(),mc::esc(xmq).c_str(),src.c_str()); out=to_json(b.doc.d); }
        J got; if (rj::parse(out,got)!=OK) fail("not JSON: %s\n  from %s",mc::esc(out).c_str(),src.c_str());
        auto norm=[](J &j,auto &self)->void { // declarations come first
            std::stable_sort(j.m.begin(),j.m.end(),[](auto &x,auto &y){ auto r=[](const string &k){ return k.compare(0,6,"_xmlns")==0?0:k[0]=='_'?1:2; }; return r(x.first)<r(y.first); }); for (auto &x:j.m) self(x.second,self); };
        J w=want; norm(w,norm); norm(got,norm);
        if (!same(w,got)) fail("value changed (%d)\n  json: %s\n  xmq: %s\n  got: %s",how,src.c_str(),mc::esc(xmq).c_str(),mc::esc(out).c_str()); mc::outcome(out);
    }
    // every attribute and element with a declared prefix is in its namespace
    std::function<void(xmlNode*,const char*)> walk=[&](xmlNode *e,const char *ns){ for (xmlNode *c=e;c;c=c->next) if (c->type==XML_ELEMENT_NODE) { const char *in=ns; for (xmlNs *x=c->nsDef;x;x=x->next) if (x->prefix&&!strcmp((char*)x->prefix,"p")) in=(const char*)x->href;
        auto chk=[&](xmlNode *n,xmlNs *x){ bool pre=x&&x->prefix; if (pre&&(strcmp((char*)x->prefix,"p")||!in||!x->href||strcmp((char*)x->href,in))) fail("%s is in the wrong namespace: %s",(char*)n->name,src.c_str()); if (!pre&&in&&!strncmp((char*)n->name,"p:",2)) fail("%s has lost its namespace: %s",(char*)n->name,src.c_str()); };
        chk(c,c->ns); for (xmlAttr *t=c->properties;t;t=t->next) chk((xmlNode*)t,t->ns); walk(c->children,in); } };
    walk(((xmlDoc*)xmqGetImplementationDoc(a.doc.d))->children,NULL);
}
int main(int argc, char **argv)
{
    quiet(); mc::counter_names[0]=NULL;
    return mc::main_(argc,argv,"P12",{{"strings",strings},{"looks",looks},{"keywords",keywords},{"keys",keys},{"indexes",indexes},{"members",members},{"shapes",shapes},{"codepoints",codepoints},{"sizes",sizes},{"namespaces",namespaces},{"prefixes",prefixes}});
}
