// P13: JSON syntax is enforced; strings decode to what the escapes denote; whatever is printed as JSON is JSON.
#include "refjson.h"
#include "forms.h"
using namespace xq; using namespace rj;
using mc::choose; using mc::run; using mc::fail;
static string to_json(XMQDoc *d, bool compact=false) { Set s; s.fmt=XMQ_CONTENT_JSON; s.compact=compact; return print(d,s); }
static bool json_err(int e) { return e==XMQ_ERROR_JSON_INVALID_ESCAPE||e==XMQ_ERROR_JSON_INVALID_CHAR; }
// the content type found by looking at the start must not get in the way: an explicit demand for JSON fails early when
// the text does not look like JSON at all, that verdict is a rejection as well.
static void accept(const string &s)
{
    J v; V ok=rj::parse(s,v);
    Parsed p; bool got=parse(p,s,XMQ_CONTENT_JSON);
    mc::outcome(string(got?"y":"n")+std::to_string(p.err));
    if (ok==OK&&!got) fail("valid JSON rejected: %s\n  json: %s",mc::esc(p.msg).c_str(),mc::esc(s).c_str());
    if (ok==BAD&&got) fail("invalid JSON accepted as %s\n  json: %s",dump(p.doc).c_str(),mc::esc(s).c_str());
    if (got==(p.err!=0)) fail("parse returned %d but error number is %d: %s",got,p.err,mc::esc(s).c_str());
    if (!got&&p.msg.empty()&&p.err!=XMQ_ERROR_EXPECTED_JSON) fail("rejected without a message (%d): %s",p.err,mc::esc(s).c_str());
    if (!got&&ok==BAD&&!json_err(p.err)&&p.err!=XMQ_ERROR_EXPECTED_JSON) fail("rejected with error %d: %s\n  json: %s",p.err,mc::esc(p.msg).c_str(),mc::esc(s).c_str());
    if (!got||ok!=OK) return;
    string out=to_json(p.doc.d); J w; if (rj::parse(out,w)!=OK) fail("printed JSON is not JSON: %s\n  json: %s",mc::esc(out).c_str(),mc::esc(s).c_str());
    J want; if (expected(v,want)&&!same(want,w)) fail("printed JSON differs\n  json: %s\n  want: %s\n  got:  %s",mc::esc(s).c_str(),mc::esc(rj::text(want)).c_str(),mc::esc(out).c_str());
}
static void tokens()
{
    static vector<string> A={"{","}","[","]",",",":","\"a\"","\"\"","1","true","null"," ","\n","-","x"};
    int n=choose(mc::tier_pick(6,7)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("json tokens "+q(s))) return;
    accept(s);
}
static void containers()
{   // inside an object or array
    static vector<string> A={",",":","\"a\"","\"b\"","1","{","}","[","]"," "};
    static vector<std::pair<string,string>> W={{"{","}"},{"[","]"},{"{\"k\":","}"},{"[1","]"},{"{\"k\":1",""},{"[[","]]"},{"{\"k\":{","}}"}};
    int w=choose(W.size()),n=choose(mc::tier_pick(6,7)); string s=W[w].first; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+=W[w].second;
    if (!run("json container "+q(s))) return;
    accept(s);
}
static void numbers()
{
    static const char A[]="019-+.eE \t\r\nx,"; static vector<std::pair<string,string>> W={{"",""},{"[","]"},{"{\"a\":","}"},{"[1,",",2]"}};
    int n=1+choose(mc::tier_pick(5,6)); string s; for (int i=0;i<n;i++) s+=A[choose(n<4?14:8)]; int w=choose(W.size());
    if (!run("json number "+q(W[w].first+s+W[w].second))) return;
    accept(W[w].first+s+W[w].second);
}
static void words()
{
    static vector<string> A={"true","false","null","tru","TRUE","nul","falsee","truex","nullnull","true1","1true","NaN","Infinity","-Infinity","0x1","1_0","+1",".5","5.","'a'","a","undefined","1 2","\"a\"\"b\"","true false","//c\n1","/*c*/1","1//c","{a:1}","{'a':1}","{1:2}","{null:1}","[,]","[1,]","{\"a\":1,}","{,}","{\"a\"}","{\"a\",1}","{\"a\"::1}","[1:2]","[\"a\":1]","","\x0b","\xc2\xa0","\xe2\x80\xa8","\x0c"};
    static vector<std::pair<string,string>> W={{"",""},{" ","\n"},{"[","]"},{"{\"k\":","}"},{"[1, "," ]"},{"\t\r\n ","\r\n\t "},{"\xc2\xa0",""},{"","\xc2\xa0"},{"[\xc2\xa0","]"},{"[","\x0b]"},{"","x"},{"",","},{"","]"},{"","}"},{"[","}"},{"{\"a\":","]"},{"[",""},{"{\"a\":",""},{""," 1"},{"",std::string("\0",1)}};
    int a=choose(A.size()),w=choose(W.size()); string s=W[w].first+A[a]+W[w].second;
    if (!run("json word "+q(s))) return;
    accept(s);
}
static void bytes()
{   // every byte in every kind of place
    static vector<std::pair<string,string>> W={{"",""},{"\"","\""},{"\"\\","\""},{"[1","]"},{"[","1]"},{"{","\"a\":1}"},{"{\"a\"",":1}"},{"{\"a\":","1}"},{"{\"a\":1","}"},{"","{}"},{"{}",""},{"{\"","\":1}"},{"{\"\\","\":1}"},{"\"\\u00","1\""},{"\"\\u0","01\""},{"\"\\u","001\""},{"\"\\u001","\""},{"\"\\ud83d","\\ude00\""},{"\"\\ud83d\\","ude00\""},{"t","ue"},{"true",""},{"-",""},{"1.",""},{"1e",""},{"0",""}};
    int b=choose(256),w=choose(W.size()); string s=W[w].first+string(1,(char)b)+W[w].second;
    if (!run("byte "+std::to_string(b)+" in "+q(s))) return;
    accept(s);
}
static void strings_()
{   // string contents
    static vector<string> A={"a","\\","\"","u","n","0041","d83d","de00","\\u","/","'","b","\n","x","00","é","\t"};
    int n=choose(mc::tier_pick(5,6)); string s="\""; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+="\""; int w=choose(n<4?3:1);
    if (w==1) s="{"+s+":1}"; if (w==2) s="["+s+"]";
    if (!run("json string "+q(s))) return;
    accept(s);
}
// the decoded string, straight from the document
static void decode()
{
    static vector<string> A={"\\\"","\\\\","\\/","\\b","\\f","\\n","\\r","\\t","\\u0041","\\u00e5","\\u00E5","\\u20ac","\\ud83d\\ude00","\\uDBFF\\uDFFF","\\u0001","\\u001f","\\u007f","\\uffff","\\ud800\\udc00","\\u2028","é","€","\xf0\x9f\x98\x80"," ","x","'","//","\\u000a"};
    int n=1+choose(mc::tier_pick(3,4)); string s="\""; for (int i=0;i<n;i++) s+=A[choose(A.size())]; s+="\"";
    if (!run("decode "+s)) return;
    J v; if (rj::parse(s,v)!=OK) fail("harness");
    for (int w=0;w<4;w++) {
        string t=w==0?s:w==1?"["+s+"]":w==2?"{\"_k\":"+s+"}":"{"+s+":1}";
        Parsed p; if (!parse(p,t,XMQ_CONTENT_JSON)) fail("rejected %s: %s",mc::esc(t).c_str(),mc::esc(p.msg).c_str());
        xmlNode *r=xmlDocGetRootElement(p.doc.x()); if (!r) fail("no root");
        string got; auto txt=[&](xmlNode *c){ string o; for (;c;c=c->next) o+=cs(c->content); return o; };
        if (w==0) got=txt(r->children); else if (w==1) got=r->children?txt(r->children->children):""; else if (w==2) got=r->properties?txt(r->properties->children):"";
        else { xmlNode *e=r->children; if (!e) fail("no member"); if (e->properties) got=txt(e->properties->children); else got=cs(e->name); if (indexed(v.s)||v.s=="_") continue; }
        if (got!=v.s) fail("string %s decoded to %s in %s",q(v.s).c_str(),q(got).c_str(),t.c_str());
    }
    mc::outcome(v.s);
}
static const char *RICH[]={
 "{\"a\":1,\"b c\":[true,false,null,-1.5e+10,\"x\\u00e5\\n\\ud83d\\ude00\",{},[]],\"\":{\"_x\":\"y\",\"z\":\"\"}}",
 "[ [ 1 , 2 ] , { \"k\" : \"v\" , \"l\" : [ ] } , \"\\\"\\\\\\/\" , 0 ]\n",
 " { \"_\" : \"name\", \"_a\" : null, \"|\" : \"t\", \"//\" : \"c\", \"k[0]\":1, \"k[1]\":{\"p:q\":2} } "};
static void edits()
{
    static const char B[]="{}[]\",:0-.e\\u tx\n_/|\x01\xc3"; const int NB=sizeof(B)-1;
    int d=choose(3); string s=RICH[d]; int how=choose(mc::tier_pick(4,5)),at=choose(s.size()+1),b=0;
    if (how==0) s=s.substr(0,at);
    else if (how==1) { if (at==(int)s.size()) return; s.erase(at,1); }
    else if (how==2) { s.insert(at,1,B[choose(NB)]); }
    else if (how==3) { if (at==(int)s.size()) return; s[at]=B[choose(NB)]; }
    else { s.insert(at,1,B[choose(NB)]); int k=choose(6); if (at+1+k<(int)s.size()) s.insert(at+1+k,1,B[choose(NB)]); }
    if (!run("edited json "+q(s))) return;
    accept(s);
}
static void deep()
{
    int n=choose(4); static int N[]={10,100,500,1000}; int k=choose(4),m=choose(4);
    if (!run("nesting "+std::to_string(N[n])+" kind "+std::to_string(k)+" defect "+std::to_string(m))) return;
    string s,e; for (int i=0;i<N[n];i++) { bool ob=k==1||(k>=2&&i%2); s+=ob?"{\"a\":":"["; e.insert(e.begin(),ob?'}':']'); }
    if (m==1) e.pop_back(); if (m==2) e+="]"; if (m==3) e[N[n]/2]=e[N[n]/2]=='}'?']':'}';
    accept(s+"1"+e);
}
// ------------------------------------------------ output
static void is_json(XMQDoc *d, const char *what)
{
    string before=dump((xmlDoc*)xmqGetImplementationDoc(d));
    string o[2]; for (int c=0;c<2;c++) {
        o[c]=to_json(d,c); J v; V r=rj::parse(o[c],v);
        if (r!=OK) fail("%s: output is not JSON\n  tree: %s\n  json: %s",what,before.c_str(),mc::esc(o[c]).c_str());
        mc::outcome(o[c]);
        Parsed p; if (!parse(p,o[c],XMQ_CONTENT_JSON)) fail("%s: the printed JSON is rejected: %s\n  tree: %s\n  json: %s",what,mc::esc(p.msg).c_str(),before.c_str(),mc::esc(o[c]).c_str());
        string again=to_json(p.doc.d); J w; if (rj::parse(again,w)!=OK) fail("%s: second output is not JSON\n  json: %s\n  again: %s",what,mc::esc(o[c]).c_str(),mc::esc(again).c_str());
    }
    string after=dump((xmlDoc*)xmqGetImplementationDoc(d)); if (after!=before) fail("printing changed the document\n  before: %s\n  after: %s",before.c_str(),after.c_str());
}
using forms::D; using forms::el; using forms::tx; using forms::en; using forms::co; using forms::pi; using forms::at; using forms::ae; using forms::atx; using forms::F; using forms::NF; using forms::N;
static void nodes()
{
    int n=1+choose(3),root=choose(n<3?6:2); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NF);
    string d; for (int i=0;i<n;i++) d+=string(i?", ":"")+F[f[i]].name;
    if (!run("print "+d+" root "+std::to_string(root))) return;
    D=newdoc(); N r=el((N)D,root==2||root==3?"_":"root"),p=r;
    if (root==1||root==3) at(r,"A"); if (root==4) { p=el(r,"in"); at(p,"A"); } if (root==5) { p=el(r,"_"); at(p,"_","key \""); }
    for (int i=0;i<n;i++) F[f[i]].make(p);
    Doc x; adopt(x,D); is_json(x.d,"forms");
}
static void marks()
{   // the attributes that mark types, on elements with all kinds of children
    static const char *AT[]={"A","S","_","k"}; int set=choose(16),val=choose(3),c=choose(13),where=choose(5),nm=choose(2);
    if (!run("attributes "+std::to_string(set)+" with values "+std::to_string(val)+" content "+std::to_string(c)+" where "+std::to_string(where)+" name "+std::to_string(nm))) return;
    D=newdoc(); N p=(N)D; if (where==1) p=el(p,"root"); if (where==2) { p=el(p,"root"); el(p,"before"); } if (where==3) { p=el(p,"_"); at(p,"A"); } if (where==4) { p=el(p,"root"); p=el(p,"l"); at(p,"A"); tx(el(p,"_"),"1"); }
    N e=el(p,nm?"_":"e"); for (int i=0;i<4;i++) if (set>>i&1) at(e,AT[i],val==0?NULL:val==1?"":"v\"\n");
    switch (c) { case 0: break; case 1: tx(e,"1"); break; case 2: tx(e,"true"); break; case 3: tx(e,""); break; case 4: tx(e,"x\"y"); break; case 5: en(e,"foo"); break; case 6: en(e,"lt"); tx(e,"1"); break; case 7: co(e,"c"); break; case 8: el(e,"x"); break; case 9: tx(el(e,"_"),"1"); tx(el(e,"_"),"t"); break; case 10: tx(e,"1"); tx(e,"2"); break; case 11: tx(e,"1"); el(e,"y"); break; default: pi(e,"p","c"); }
    if (where==2) el(p,"after");
    Doc x; adopt(x,D); is_json(x.d,"marks");
}
static void texts()
{   // characters in every place that is quoted
    static vector<string> A={"\"","\\","\n","\t","\x01","\x0b","\x07","\x1b","\x1f","\x7f","é","\xf0\x9f\x98\x80","/","'","a","1","{","\r","\x08","\x0c","\xe2\x80\xa8"};
    int w=choose(9),n=choose(mc::tier_pick(3,4)+1); if (n>2&&w>3) return; string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("text "+q(s)+" in place "+std::to_string(w))) return;
    D=newdoc(); if (w==7) co((N)D,s); N r=el((N)D,"root");
    switch (w) { case 0: tx(r,s); break; case 1: tx(el(r,"a"),s); break; case 2: at(r,"k",s.c_str()); el(r,"x"); break; case 3: tx(r,s); el(r,"x"); break; case 4: co(r,s); el(r,"x"); break; case 5: pi(r,"p",s.c_str()); el(r,"x"); break; case 6: xmlNewNs(r,X(s),X("p")); el(r,"x"); break; case 7: break; default: { N e=el(r,"_"); at(e,"_",s.c_str()); tx(e,"v"); } }
    Doc x; adopt(x,D); is_json(x.d,"text");
    if (w!=0&&w!=1&&w!=2) return;
    string o=to_json(x.d); J v; rj::parse(o,v); string got; if (w==0) got=v.s; else for (auto &m:v.m) if (m.first==(w==1?"a":"_k")) got=m.second.s;
    if (got!=s) fail("text %s printed as %s",q(s).c_str(),mc::esc(o).c_str());
}
static void tops()
{   // around the root
    static const char *T[]={"nothing","comment","pi","comment with quote"};
    int dt=choose(3),a=choose(4),b=choose(4),c=choose(4),d=choose(4),r=choose(5);
    if (!run(string("doctype ")+std::to_string(dt)+" "+T[a]+", "+T[b]+", root "+std::to_string(r)+", "+T[c]+", "+T[d])) return;
    D=newdoc(); auto put=[&](int k){ switch(k) { case 1: co((N)D,"c"); break; case 2: pi((N)D,"q","\"v\""); break; case 3: co((N)D,"\"\n"); break; } };
    if (dt) xmlCreateIntSubset(D,X("root"),dt==2?X("-//W3C//DTD o'X"):NULL,X(dt==2?"a\"b.dtd":"x.dtd"));
    put(a); put(b); N e=el((N)D,r==1?"_":"root"); if (r==2) tx(e,"1"); if (r==3) { at(e,"A"); tx(el(e,"_"),"1"); } if (r==4) { at(e,"k","v"); tx(e,"x"); } put(c); put(d);
    Doc x; adopt(x,D); is_json(x.d,"prolog");
}
static void sources()
{   // documents read from every format
    static const char *S[]={"<a/>","<a>x<b/>y<b/></a>","<p:a xmlns:p='u' p:k='v'><p:b/><c xmlns='w'><d/></c></p:a>","<a><![CDATA[x\"<]]><b><![CDATA[]]></b></a>","<!DOCTYPE a [<!ENTITY e 'v\"'>]><a k='&e;'>&e;</a>","<?p q?><!--c--><a><?p q?></a><!--d-->",
        "<html><body>x<br>y<p>z<script>if (a<\"b\") {}</script></body></html>","<!DOCTYPE html><html><head><title>a\"b</title></head><body a=b c></body></html>","a{'x'&nbsp;'y'}","?p=q a=1","// c\na(k)","a(A){'1' _=2 'x' //c\n ?p=q\n &x; b{c=1}}","x(xmlns=u){y(xmlns:p=v p:k=w)}","!DOCTYPE='html SYSTEM \"x\"' html{body}","a=(&#10;'x'&#1;)","a=(&#x10ffff; &#xd7ff;)","a{b=&foo; c=('x'&foo;'y')}","_(_=x)","_(A _=x)=1","_","_=1","a","1","[]","{\"a\":{\"p:q\":{}}}","_{_{_}}","_(A){_(A){_(A)}}","a{text=1 comment=2 'x' //c\n 'y' //d\n}"};
    int s=choose(sizeof(S)/sizeof(S[0])),ct=choose(3);
    if (!run(string("source ")+q(S[s])+" flags "+std::to_string(ct))) return;
    Parsed p; if (!parse(p,S[s],XMQ_CONTENT_DETECT,ct==1?XMQ_FLAG_TRIM_NONE:ct==2?XMQ_FLAG_TRIM_HEURISTIC:0)) { if (strchr("<a_?/!x1[{",S[s][0])) fail("rejected %s: %s",S[s],p.msg.c_str()); return; }
    is_json(p.doc.d,"source");
}
int main(int argc, char **argv)
{
    quiet();
    return mc::main_(argc,argv,"P13",{{"tokens",tokens},{"containers",containers},{"numbers",numbers},{"words",words},{"bytes",bytes},{"strings",strings_},{"decode",decode},{"edits",edits},{"deep",deep},{"nodes",nodes},{"marks",marks},{"texts",texts},{"tops",tops},{"sources",sources}});
}
