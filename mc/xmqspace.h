// The spaces of xmq sources shared by the checks of the parser, the tokenizer and the colourizer.
#pragma once
#include "refxmq.h"
namespace space {
using namespace xq; using mc::choose; using mc::run;
static void (*check)(const string &s, const char *implicit)=NULL;    // what to do with every source
static int shorten=0;                                                // reduce the lengths by this much
static inline int lens(int q, int t) { return mc::tier_pick(q,t)-shorten; }
static void strings(const vector<string> &A, int maxlen, const char *implicit=NULL, const string &pre="", const string &post="")
{
    int n=choose(maxlen+1); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    s=pre+s+post;
    if (!run("xmq "+q(s)+(implicit?string(" implicit root ")+implicit:""))) return;
    check(s,implicit);
}
static void tokens()
{
    static vector<string> A={"a","b:c","=","(",")","{","}","'q'","''","'''x'y'''","&lt;","&abc;","&#10;"," ","\n","\t","//c\n","/*c*/","1","xmlns","?p","!DOCTYPE","'","&","/"};
    strings(A,lens(4,5));
}
static void chars()
{
    static vector<string> A={"a","=","(",")","{","}","'","&",";","/","*","\n"," "};
    strings(A,lens(5,6));
}
static void values()
{   // what may stand as an unquoted value and where it ends
    static vector<string> A={"a","=","(",")","{","}","'","&","/","*","\"",";","#","\\","\xc3\xa5","\xc2\xa0","\xe2\x80\x81","\t","\r","\x01","\x7f","<","!","?",",","-"," "};
    int where=choose(2);
    strings(A,lens(3,4),NULL,where?"a(b=":"a=",where?")":"\nc");
}
static void quotes()
{   // quotes of every depth in every position, with newlines and columns
    static vector<string> A={"'","''","x"," ","\n","/","é"};
    static const char *PRE[]={"a=","a{\n    ","a(b=","a=(","  'x'&lt; ","a(b='1'\n  cc='","é='z' "};
    static const char *POST[]={"","\n}",")",")","","')",""};
    int w=choose(7);
    strings(A,lens(5,7),NULL,PRE[w],POST[w]);
}
static void multiline()
{   // content of multi line quotes and comments
    static vector<string> L={"","x"," x","   x","x  ","  "," x y ","x\r","å"};
    int kind=choose(5); static const char *PRE[]={"a='","a { b\n   '''","   /*","a(  b=''''","// x\n  ///* q *///*"}; static const char *POST[]={"'","'''}","*/","'''')","*///"};
    int n=1+choose(lens(4,5)); string s=PRE[kind];
    for (int i=0;i<n;i++) { if (i) s+="\n"; s+=L[choose(L.size())]; }
    s+=POST[kind];
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void comments()
{
    static vector<string> A={"/","//","*"," ","x","\n","'"};
    int w=choose(2);
    strings(A,lens(6,8),NULL,w?"a{/":"/",w?"":"\nb");
}
static void entities()
{
    static vector<string> A={"&","#","x","1","0","a","F","d8",";","g","9"};
    static const char *PRE[]={"","a=","a(b=","a=('1'"}; static const char *POST[]={"","\n",")"," )"};
    int w=choose(4);
    strings(A,lens(5,6),NULL,string(PRE[w])+"&",POST[w]);
}
static void plain()
{   // processing instructions, doctypes and namespace declarations take every form of value
    static vector<string> V={"","=","=x","='x y'","=('x' 'y')","=()","=('x' &lt; '\n y')","=&#65;","=&amp;","=&abc;","=('a' &abc;)","=''","='''\n  a\n  b'''","(x)","{}"," = 'q'","='html PUBLIC \"a\" \"b\"'","='html [<!ENTITY a \"b\">]'","='\"'","='a b'","=''''a'b''''"};
    static vector<string> H={"!DOCTYPE","?p","?","? ","!","!DOCTYPEx","?p:q","?x-y","x(xmlns","x(xmlns:p","p:x(xmlns:p","x(p:y=1 xmlns:p"};
    static vector<string> W={"","a ","a{","a{}\n","//c\n","!DOCTYPE=html ","'t'\n","?q "};
    int w=choose(W.size()),h=choose(H.size()),v=choose(V.size()); bool at=h>=8;
    string s=W[w]+H[h]+V[v]+(at?(choose(2)?") { y p:z(p:k=1) }":" c=2)"):(choose(2)?"":" b"))+(w==2?"}":"");
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void namespaces()
{
    static vector<string> D={"","(xmlns=u)","(xmlns=v)","(xmlns='')","(xmlns:p=u)","(xmlns:p=v)","(k=1 xmlns=w p:k=2 xmlns:p=w)","(xml:lang=sv)"};
    static vector<string> N={"a","p:a","r:a"};
    string s="x(xmlns:r=rr xmlns:p=pp)"; bool rootdecl=choose(2); if (!rootdecl) s="x";
    s+="{"; string d;
    int n1=choose(3),d1=choose(D.size()),n2=choose(3),d2=choose(D.size()),n3=choose(2),d3=choose(D.size()); bool sib=choose(2);
    s+=N[n1]+D[d1]+"{"+N[n2]+D[d2]+(sib?" ":"{")+N[n3]+D[d3]+(sib?"":"}")+"}"+"e p:f(p:g)}";
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void implicit()
{
    static vector<string> A={"a","r","{","}","=1 ","'t'","//c\n","!DOCTYPE=r","(x)"," ","?p "};
    strings(A,lens(5,6),"r");
}
// A valid document of many constructs; every single byte edit of it must be judged as the grammar does.
static const char *SEED[]={
"// head\n!DOCTYPE = html\n?pi = 'v'\nroot(a=1 b = 'two words'\n     c:d=('x' &#10; 'y') xmlns:c=http://u/v) {\n    k = v\n    k2(x)\n    'text\n     more'\n    /* c */\n    e = ('a' &abc; ''' 'q' ''')\n    &lt;\n    c:n { c:m = c:1 }\n}\n",
"a{b{c=1 d='''x'''}}//e",
"a=\n  b\nc = (&a; '1'\n'2')\n///* m *///* n\n     o *///\nå",
"alfa =\nbeta { 'more' }\ngamma(x = 'it's') = 'There's a man'\n",
};
static void edits()
{
    static const char C[]="a= \n\t(){}'&;/*\"#!?:\xc3\x01";
    int w=choose(4); string s=SEED[w]; int pos=choose(s.size()+1); int op=choose(3);
    if (op==0) { int k=choose(sizeof(C)-1); s.insert(pos,1,C[k]); }
    else if (op==1) { if (pos==(int)s.size()) return; s.erase(pos,1+choose(2)); }
    else { if (pos==(int)s.size()) return; int k=choose(sizeof(C)-1); s[pos]=C[k]; if (mc::thorough()) { int p2=choose(s.size()); int k2=choose(8); s[p2]=C[k2]; } }
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void truncated()
{
    int w=choose(4); string s=SEED[w]; int pos=choose(s.size()+1); int tail=choose(8); static const char *T[]={"","}","'",")","=","*/","\n","/"};
    s=s.substr(0,pos)+T[tail];
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void nodes()
{   // sentences with their trees: three nodes of every kind with every spacing
    static vector<string> N={"a","a=1","a='x y'","a=''","a=('x' &b; 'y')","a=&b;","a(k)","a(k=1 l='2 3')","a(k=('x' &lt;))=v","a{}","a{b}","a{b=1 'x'}","p(xmlns=u)","'t'","'''t\n u'''","&b;","&lt;","&#229;","//c\n","/* c */","?p=x","?p","a { b { c = 1 'd' } //e\n }","a(xmlns:q=u){q:b(q:c=1)}"};
    static const char *S[]={" ","\n","","  \n ","\r\n","\xc2\xa0"," \xe2\x80\x80 "};
    int n=3-(shorten>0); string s; int sp=choose(7); int wrap=choose(2); if (wrap) s="r{";
    for (int i=0;i<n;i++) { if (i) s+=S[sp]; s+=N[choose(N.size())]; }
    if (wrap) s+="}";
    if (!run("xmq "+q(s))) return;
    check(s,NULL);
}
static void deep()
{   // nesting and long tokens
    int kind=choose(8); static int NN[]={1,2,3,10,63,64,65,255,256,257,1000,1023,1024,1025,2000}; int n=NN[choose(15)]; int broken=choose(3); string s;
    auto rep=[&](const string &x,int k){ string o; for (int i=0;i<k;i++) o+=x; return o; };
    switch (kind) {
    case 0: if (n>1000) n=1000; s=rep("a{",n)+rep("}",n); break;
    case 1: s="a='"+rep("x",n)+"'"; break;
    case 2: s=rep("'",n+2)+"x"+rep("'",n+2); s="a="+s; break;
    case 3: s="a("+rep("b=1 ",n)+")"; break;
    case 4: s="a=("+rep("'x' &#10;",n)+")"; break;
    case 5: s=rep("/",n)+"* x *"+rep("/",n)+" a"; break;
    case 6: s=rep("a",n)+"="+rep("b",n); break;
    case 7: s="a{"+rep(" \n",n)+rep("b\n",n)+"}"; break;
    }
    if (broken==1) s.pop_back(); else if (broken==2) s+="\"";
    if (!run("kind "+std::to_string(kind)+" size "+std::to_string(n)+" variant "+std::to_string(broken))) return;
    check(s,NULL);
}
static void codepoints()
{   // every code point, in blocks, inside every token that may hold it; positions after it are counted in characters
    static const char *PRE[]={"a='","/*","a=b//","a=x","b(c='","//* ","'"}; static const char *POST[]={"'}","*/}","\n}"," }","'=","*// }","'&"};
    const int N=32; int b=choose(0x110000/N),w=choose(shorten?3:7); string x;
    for (int c=b*N;c<b*N+N;c++) if (c>0x9f&&!(c>=0xd800&&c<=0xdfff)&&c!=0xfffe&&c!=0xffff) x+=utf8(c);
    if (x.empty()) return;
    string s=PRE[w]+x+POST[w];
    if (!run("U+"+std::to_string(b*N)+" context "+std::to_string(w))) return;
    check(s,NULL);
}
static void names()
{   // words that are almost, or begin with, a reserved word
    static vector<string> A={"xmlns","xml","a",":","-",".","_","#","9","DOCTYPE"};
    static const char *PRE[]={"","x(","x(xmlns:a=u ","?","&","!","x(xmlns:"}; static const char *POST[]={"=1",")","=2)","",";"," = h","=u){a:b}"};
    int w=choose(7);
    strings(A,lens(4,5),NULL,PRE[w],POST[w]);
}
static const vector<mc::Phase> phases={{"codepoints",codepoints},{"names",names},{"tokens",tokens},{"chars",chars},{"values",values},{"quotes",quotes},{"multiline",multiline},{"comments",comments},{"entities",entities},{"plain",plain},{"namespaces",namespaces},{"implicit",implicit},{"edits",edits},{"truncated",truncated},{"nodes",nodes},{"deep",deep}};
}
