// P03: any text value survives printing to XMQ and parsing back.
#include "xq.h"
using namespace xq;
using mc::choose; using mc::run; using mc::fail;

// Build a document with text v at position pos.
static const char *POS[]={"element value","attribute value","nested element value","text before element","text after element","text between comments","value of element with attribute","attribute of inner element","text alone in deep body"};
static const int NPOS=9;
static xmlDoc *make(int pos, const string &v)
{
    xmlDoc *d=newdoc(); xmlNode *r=add_elem(d,NULL,"root");
    switch (pos) {
    case 0: add_text(d,r,v); break;
    case 1: add_attr(d,r,"x",v); break;
    case 2: { xmlNode *b=add_elem(d,r,"b"); xmlNode *c=add_elem(d,b,"longer"); add_text(d,c,v); add_elem(d,b,"e"); break; }
    case 3: { add_text(d,r,v); add_elem(d,r,"b"); break; }
    case 4: { add_elem(d,r,"b"); add_text(d,r,v); break; }
    case 5: { xmlAddChild(r,xmlNewDocComment(d,X("c"))); add_text(d,r,v); xmlAddChild(r,xmlNewDocComment(d,X("d"))); break; }
    case 6: { add_attr(d,r,"x","1"); add_text(d,r,v); break; }
    case 7: { xmlNode *b=add_elem(d,r,"b"); add_attr(d,b,"x",v); add_attr(d,b,"yy","z"); add_text(d,b,"q"); break; }
    case 8: { xmlNode *b=add_elem(d,r,"b"); xmlNode *c=add_elem(d,b,"c"); add_elem(d,c,"x"); add_text(d,c,v); break; }
    }
    return d;
}
static const Set &setting(int i)
{
    static vector<Set> S;
    if (S.empty()) {
        Set s; S.push_back(s);
        s=Set(); s.compact=true; S.push_back(s);
        s=Set(); s.nl=true; S.push_back(s);
        s=Set(); s.tab=true; S.push_back(s);
        s=Set(); s.non7=true; S.push_back(s);
        s=Set(); s.indent=0; S.push_back(s);
        s=Set(); s.indent=1; S.push_back(s);
        s=Set(); s.compact=true; s.non7=true; s.tab=true; S.push_back(s);
        s=Set(); s.nl=s.tab=s.non7=true; S.push_back(s);
        s=Set(); s.nl=true; s.tab=true; s.indent=2; S.push_back(s);
    }
    return S[i];
}
static const int NSET=10;

static void roundtrip(int pos, const string &v, const Set &st)
{
    Doc d; adopt(d,make(pos,v));
    string want=dump(d);
    string out=print(d.d,st);
    Parsed p;
    if (!parse(p,out)) fail("printed xmq does not parse: %s\n  xmq: %s",mc::esc(p.msg).c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    mc::outcome(out);
    if (got!=want) fail("value changed\n  xmq:  %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
}
static void values(const vector<string> &alpha, int maxlen, int npos, int nset)
{
    int len=choose(maxlen+1);
    string v; for (int i=0;i<len;i++) v+=alpha[choose(alpha.size())];
    int pos=choose(npos), st=choose(nset);
    if (!run("text "+q(v)+" as "+POS[pos]+", "+setname(setting(st)))) return;
    roundtrip(pos,v,setting(st));
}
static void wide()
{   // every interesting character class, short
    static vector<string> A={"a","'"," ","\n","\t","\r","(",")","{","}","=","&","/","*","\"",";","<","#","-",":","!","?","\xc3\xa5","\xc2\xa0","\xe2\x80\x83","\xf0\x9f\x98\x80","0","\x7f"};
    values(A,mc::tier_pick(2,3),NPOS,NSET);
}
static void core()
{   // quotes, whitespace, newline: where representation decisions interact
    static vector<string> A={"a","'"," ","\n","\t","\xc3\xa5"};
    values(A,mc::tier_pick(4,6),NPOS,NSET);
}
static void lines()
{   // longer multi line texts: lines built from fragments
    static vector<string> L={"","a"," a","  a","a ","'","''","'''a","a'''"," ","  ","\t","\tb","(","{","&lt;"};
    int n=2+choose(mc::tier_pick(2,3)); string v;
    for (int i=0;i<n;i++) { if (i) v+="\n"; v+=L[choose(L.size())]; }
    static int P[]={0,1,2,4,7}; int pos=P[choose(5)];
    static int S[]={0,1,3,4,5}; int st=S[choose(5)];
    if (!run("text "+q(v)+" as "+POS[pos]+", "+setname(setting(st)))) return;
    roundtrip(pos,v,setting(st));
}
static void runs()
{   // long runs of one character next to others: quote depth, many spaces, many newlines
    static vector<string> A={"'"," ","\n","\t","a","/","é"};
    int a=choose(A.size()); static int N[]={1,2,3,4,5,7,8,9,31,32,33,63,64,65,66,127,128,129,255,256,257,1023,1024,1025};
    int n=N[choose(24)];
    int b=choose(A.size()), c=choose(A.size()); int where=choose(3);
    string r; for (int i=0;i<n;i++) r+=A[a];
    string v= where==0? r+A[b]+A[c] : where==1 ? A[b]+r+A[c] : A[b]+A[c]+r;
    static int P[]={0,1,3,7}; int pos=P[choose(4)]; static int S[]={0,1,2,3,4}; int st=S[choose(5)];
    if (!run("text of "+std::to_string(n)+" x "+q(A[a])+" placed "+std::to_string(where)+" around "+q(A[b]+A[c])+" as "+POS[pos]+", "+setname(setting(st)))) return;
    roundtrip(pos,v,setting(st));
}
static void codepoints()
{   // every legal XML code point, alone or next to a letter or quote
    unsigned hi=choose(0x110), lo=choose(256); unsigned c=hi*256+lo;
    int form=choose(mc::tier_pick(2,4)); int pos=choose(2); int st=choose(3);
    bool legal = c==9||c==10||c==13||(c>=0x20&&c<=0xd7ff)||(c>=0xe000&&c<=0xfffd)||(c>=0x10000);
    if (!legal) return;
    if (!mc::thorough() && c>=0x3100 && c<0xe000 && lo!=0 && lo!=255) return;   // quick: sparse in the CJK blocks
    if (!mc::thorough() && c>=0x10400 && lo!=0 && lo!=255 && lo!=0x7f) return;
    string u=utf8(c); string v= form==0?u: form==1? "a"+u+"b" : form==2 ? "'"+u : u+"\n"+u;
    static int S[]={0,1,4};
    if (!run("code point U+"+std::to_string(c)+" form "+std::to_string(form)+" as "+POS[pos]+", "+setname(setting(S[st])))) return;
    roundtrip(pos,v,setting(S[st]));
}
static void quote()
{   // the standalone compact quote
    static vector<string> A={"a","'"," ","\n","\t","\r","(",")","{","}","=","&","/","*","\"","\xc3\xa5","\xc2\xa0","1"};
    int len=choose(mc::tier_pick(4,5)+1); string v; for (int i=0;i<len;i++) v+=A[choose(A.size())];
    if (!run("compact quote of "+q(v))) return;
    char *s=xmqCompactQuote(v.c_str()); string out=s?s:""; free(s);
    if (out.find('\n')!=string::npos) fail("compact quote contains a newline: %s",mc::esc(out).c_str());
    mc::outcome(out);
    Parsed p; if (!parse(p,"a="+out)) fail("quote does not parse: %s: %s",mc::esc(out).c_str(),mc::esc(p.msg).c_str());
    string want="<a"+(v.empty()?string(""):"["+q(v)+"]")+">";
    if (dump(p.doc)!=want) fail("quote %s denotes %s, want %s",mc::esc(out).c_str(),dump(p.doc).c_str(),want.c_str());
}
int main(int c, char **v)
{
    quiet();
    return mc::main_(c,v,"P03",{{"wide",wide},{"core",core},{"lines",lines},{"runs",runs},{"codepoints",codepoints},{"quote",quote}});
}
