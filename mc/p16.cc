// P16: the document of an ixml parse is the parse tree with marks, aliases and insertions applied.
#include "ixrun.h"
using namespace ixml; using namespace ixrun;

static const Style plain;
static bool hides(const Alts &a);
static bool hides(const Term &t) { if (t.rep!=ONE) return hides(*t.f)||(t.sep&&hides(*t.sep)); if (t.k==INS) return true; if (t.k==GROUP) return hides(t.alts); return t.k!=REF&&t.mark=='-'; }
static bool hides(const Alts &a) { for (auto &x:a) for (auto &t:x) if (hides(*t)) return true; return false; }

static void judge(const ixml::Grammar &g, const string &text, const vector<string> &inputs)
{
    Model m(g);
    if (m.loop) { mc::count(3); return; }
    ixrun::Grammar gr(text);
    if (!gr.ok) mc::fail("the grammar was refused: %s",gr.p.msg.c_str());
    bool whole=true; for (auto &r:g) if (hides(r.alts)) whole=false;
    for (auto &in:inputs) {
        Result r=m.parse(in);
        if (!r.accepted) { mc::count(4); continue; }
        if (r.odd||r.capped) { mc::count(2); continue; }
        string txt; Out o=run(gr.p.doc.d,in,0,[&](xmlDoc *d){ txt=tree_text(d->children); });
        if (!o.ok) mc::fail("input %s: rejected: %s",xq::q(in).c_str(),o.msg.c_str());
        mc::count(r.count==1?0:1);
        if (!r.trees.count(o.tree)) mc::fail("input %s: the tree is %s, expected %s%s",xq::q(in).c_str(),o.tree.c_str(),r.trees.begin()->c_str(),r.trees.size()>1?" or another parse":"");
        (void)whole; (void)txt;
        if (whole&&r.count==1) { // attributes move text to the front, the order is only exact without them
            if (o.tree.find(" @")==string::npos&&txt!=in) mc::fail("input %s: the text of the tree is %s",xq::q(in).c_str(),xq::q(txt).c_str());
        }
        mc::outcome(o.tree);
    }
}
static void go(const ixml::Grammar &g, const vector<string> &inputs, const Style &st=plain)
{
    string text=spell(g,st);
    if (!mc::run(text)) return;
    judge(g,text,inputs);
}
static const char M4[]={0,'^','-','@'}, M3[]={0,'^','-'};
static char m4() { return M4[mc::choose(4)]; }
static char m3() { return M3[mc::choose(3)]; }
static string al(const char *n) { return mc::choose(2)?n:""; }

static void marks() // marks and aliases of rules and of references, in a chain of three rules
{
    char ra=m4(), rb=m4(), fa=m4(), fb=m4(), t1=m3(); string xa=al("xa"), xb=al("xb"), ya=al("ya"), yb=al("yb");
    char t2=mc::thorough()?m3():0;
    go({{"S",0,"",{{str("a",t1),nref("A",fa,ya),str("b",t2)}}},{"A",ra,xa,{{str("c"),nref("B",fb,yb),str("d",t1)}}},{"B",rb,xb,{{str("e",t2),set({range('f','g')},false,t1)},{}}}},{"accedb","acefdb","acegdb","acdb"});
}
static void roots() // marks and aliases of the first rule, also when it refers to itself
{
    char r=M4[mc::choose(3)], f=m4(); string x=al("x"), y=al("y"); int k=mc::choose(3);
    Alts a; if (k==0) a={{str("a")},{str("b"),nref("S",f,y)}}; else if (k==1) a={{str("a")},{nref("S",f,y),str("b")}}; else a={{str("a")},{str("b"),nref("A",f,y)}};
    ixml::Grammar g={{"S",r,x,a}}; if (k==2) g.push_back({"A",0,"",{{str("c")},{str("d"),nref("S",f,y)}}});
    go(g,{"a","ba","ab","bba","abb","bc","bda","bdbc","bdbda"});
}
static T wrapctx(int k, T t, const vector<T> &sep)
{
    switch (k) {
    case 0: return t;
    case 1: return group({{t}});
    case 2: return rep(OPT,t);
    case 3: return rep(STAR,t);
    case 4: return rep(PLUS,t);
    case 5: return rep(STARSEP,t,sep[0]);
    case 6: return rep(PLUSSEP,t,sep[0]);
    case 7: return rep(STARSEP,sep[1],t);
    case 8: return rep(PLUSSEP,sep[1],t);
    case 9: return group({{t},{str("x")}});
    case 10: return group({{t,str("x")}});
    default: return group({{str("x",'-'),t}});
    }
}
static T marked(int k, char m) // every kind of factor with a mark
{
    switch (k) {
    case 0: return str("a",m); case 1: return str("ab",m); case 2: return hex('a',m); case 3: return set({range('a','c')},false,m); case 4: return set({range('x','z')},true,m);
    case 5: return nref("A",m); case 6: return nref("A",m,"al"); case 7: return nref("H",m); case 8: return nref("E",m); default: return ins("i");
    }
}
static const vector<ixml::Rule> &rest() { static vector<ixml::Rule> r={{"A",0,"",{{str("a"),nref("E")}}},{"H",'-',"",{{str("h")},{nref("A"),str("h",'-')}}},{"E",'^',"ee",{{str("b")},{}}}}; return r; }
static void places() // a marked factor in every place: repeated, as separator, in groups of groups
{
    int k=mc::choose(10), c1=mc::choose(12), c2=mc::choose(12); char m=k<5?m3():k<9?m4():0;
    vector<T> sep={str(",",m3()),str("s")};
    T t=wrapctx(c1,marked(k,m),sep); if (t->rep!=ONE&&c2) t=group({{t}});
    t=wrapctx(c2,t,sep);
    ixml::Grammar g={{"S",0,"",{{str("<",'-'),t,str(">")}}}}; for (auto &r:rest()) g.push_back(r);
    vector<string> in; for (string s:{"","a","b","c","ab","h","ah","abh","x","xa","ax","a,a","a,b","ab,ab","s","sas","sabs","ss","shs","aa","abab","hh","xaxa","axax","sxasxas","s,s","h,ah","xabxa","saas","s,as","a,a,a","xa,xa","sabsabs","sbscs","sahshs","i"}) in.push_back("<"+s+">");
    go(g,in);
}
static void twoplaces() // two marked factors next to each other, also one charset with two marks
{
    int k=mc::choose(10), l=mc::choose(10), c1=mc::choose(5), c2=mc::choose(5); char m=k<5?m3():k<9?m4():0, n=l<5?m3():l<9?m4():0;
    vector<T> sep={str(","),str("s")};
    ixml::Grammar g={{"S",0,"",{{wrapctx(c1,marked(k,m),sep),wrapctx(c2,marked(l,n),sep)},{str("!")}}}}; for (auto &r:rest()) g.push_back(r);
    static vector<string> in=words({"a","b","h"},4);
    go(g,in);
}
static void inserts() // insertions everywhere: alone, in empty alternatives, repeated, in attributes, in hidden rules, as separators
{
    static vector<T> v={str("a"),str("b",'-'),ins("i"),ins("'<&"),insx('k'),insx(0x20ac),ins("two words"),nref("A"),nref("A",'@'),nref("A",'-'),rep(STAR,group({{str("a"),ins("r")}})),rep(OPT,group({{str("a"),ins("o")}})),rep(STARSEP,str("a"),ins("/")),group({{ins("g")},{str("c"),ins("h")}}),group({{ins("p"),ins("q")}})};
    int n=mc::choose(mc::tier_pick(3,4))+1; Alt a; for (int i=0;i<n;++i) a.push_back(v[mc::choose(v.size())]);
    char rm=m4(); int e=mc::choose(3);
    go({{"S",0,"",{a}},{"A",rm,"",{{str("c"),ins("x")},e==0?Alt{ins("empty")}:e==1?Alt{}:Alt{ins("y"),str("d",'-'),ins("z")}}}},words({"a","b","c","d"},mc::tier_pick(3,4)));
}
static void attributes() // what becomes of elements, hidden text, insertions, attributes and repetitions inside an attribute
{
    static vector<T> v={str("a"),str("b",'-'),ins("i"),nref("E"),nref("E",'-'),nref("E",'@'),nref("N"),nref("N",'@'),rep(PLUS,str("c")),rep(STARSEP,str("d"),str(",",'-')),group({{str("a")},{nref("E"),str("a")}})};
    int n=mc::choose(3)+1; Alt a; for (int i=0;i<n;++i) a.push_back(v[mc::choose(v.size())]);
    char fm=m4(); string x=al("x");
    go({{"S",0,"",{{str("<"),nref("T",fm,x),str(">")}}},{"T",'@',"",{a}},{"E",0,"",{{str("e")},{str("e"),str("f",'-'),nref("N")}}},{"N",'-',"",{{str("n")},{ins("j"),str("m")}}}},
       [&]{ vector<string> r; for (auto &s:words({"a","b","c","d","e","ef","n","m",","},3)) r.push_back("<"+s+">"); return r; }());
}
static void recursion() // trees of recursive grammars
{
    static vector<T> s={str("a"),str("b",'-'),nref("A"),nref("S"),nref("A",'-'),nref("S",'-'),rep(OPT,nref("A")),rep(STAR,nref("A")),rep(PLUSSEP,nref("A"),str("a"))};
    static vector<T> s2={str("a",'-'),str("b"),nref("S"),nref("A"),nref("S",'-')};
    auto alt=[&](const vector<T> &v, int max) { Alt a; int n=mc::choose(max+1); for (int i=0;i<n;++i) a.push_back(v[mc::choose(v.size())]); return a; };
    Alts S={alt(s,2)}; Alts A={alt(s2,2),alt(s2,mc::tier_pick(1,2))};
    go({{"S",0,"",S},{"A",0,"",A}},words({"a","b"},4));
}
static void expressions() // the usual grammars over all short inputs
{
    static vector<ixml::Grammar> g={
        {{"e",0,"",{{nref("t")},{nref("e"),str("+",'-'),nref("t")}}},{"t",0,"",{{nref("f")},{nref("t"),str("*"),nref("f")}}},{"f",'-',"",{{nref("n")},{str("("),nref("e"),str(")")}}},{"n",'@',"",{{rep(PLUS,set({range('0','9')}))}}}},
        {{"e",0,"",{{nref("t")},{nref("t"),str("+"),nref("e")}}},{"t",'-',"",{{nref("f")},{nref("f"),str("*",'-'),nref("t",0,"prod")}}},{"f",0,"",{{nref("n",'-')},{str("(",'-'),nref("e",'-'),str(")",'-')}}},{"n",0,"num",{{rep(PLUS,set({range('0','9')}))}}}},
        {{"l",0,"",{{rep(STARSEP,nref("i"),str("+"))}}},{"i",0,"",{{nref("k",'@'),str("*",'-'),nref("v")},{nref("k",'@')}}},{"k",0,"key",{{rep(PLUS,set({range('0','4')}))}}},{"v",0,"",{{rep(STAR,set({range('0','9'),chars("*()")}))}}}},
        {{"p",0,"",{{str("(",'-'),rep(STAR,nref("p")),str(")",'-')},{nref("n")}}},{"n",0,"",{{set({klass("Nd")})},{str("+"),nref("n"),ins("!")}}}},
    };
    int k=mc::choose(g.size()); int chunk=mc::choose(8);
    static vector<string> all=words({"1","2","+","*","(",")"},5);
    vector<string> in; for (size_t i=chunk;i<all.size();i+=8) in.push_back(all[i]);
    Style st; if (!mc::run("expression grammar "+std::to_string(k)+" part "+std::to_string(chunk)+"\n"+spell(g[k],st))) return;
    judge(g[k],spell(g[k],st),in);
}
static void texts() // characters of all kinds pass through to text and attribute values
{
    static vector<string> ch={"a","<",">","&","\"","'"," ","\t","\n","]]>","--","&amp;","{","}","=","\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80","\xcc\x81","\xc2\xa0","\xe2\x80\xa8","\xef\xbf\xbd","\xef\xbb\xbf"};
    string s=ch[mc::choose(ch.size())]+ch[mc::choose(ch.size())]; if (mc::thorough()) s+=ch[mc::choose(ch.size())];
    char m=m4(), im=m4();
    T any=set({},true);
    ixml::Grammar g={{"S",0,"",{{nref("A",m),rep(STAR,nref("B",im))}}},{"A",0,"",{{any}}},{"B",0,"",{{any}}}};
    if (im=='@') g[0].alts={{nref("A",m),nref("C",im)}}, g.push_back({"C",0,"",{{rep(STAR,nref("B",'-'))}}}), g.push_back({"D",0,"",{{any}}});
    go(g,{s,s+s});
}
static void inplace() // the characters of literals are text as they are
{
    static vector<string> ch={"a","<","&","\"","'"," ","\n","]]>","\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80"};
    string s=ch[mc::choose(ch.size())], t=ch[mc::choose(ch.size())]; char m=m3(), n=m4(); Style st; st.quote=mc::choose(2)?'"':'\''; st.hexchars=mc::choose(2);
    if (s.find('\n')!=string::npos&&!st.hexchars) { mc::run("-"); return; } if (t.find('\n')!=string::npos&&!st.hexchars) { mc::run("-"); return; }
    go({{"S",0,"",{{str(s,m),nref("A",n),ins(t=="\n"?"n":t)}}},{"A",0,"",{{str(t),str(s)},{rep(PLUS,set({chars(t)},false,m))}}}},{s+t+s,s+t,s+t+t},st);
}
static void sizes() // many siblings, deep trees, long attributes, many rules
{
    static vector<int> n={1,2,3,10,64,100,255,256,300,1000}; int k=mc::choose(6), len=n[mc::choose(n.size())];
    ixml::Grammar g; string in, want;
    if (k==0) { g={{"S",0,"",{{rep(STAR,nref("A"))}}},{"A",0,"",{{str("a")}}}}; in=string(len,'a'); want="[<S["; for (int i=0;i<len;++i) want+="<A['a']>"; want+="]>]"; }
    else if (k==1) { g={{"S",0,"",{{str("a"),nref("S")},{str("b")}}}}; in=string(len,'a')+"b"; want="["; for (int i=0;i<=len;++i) want+="<S["+string(i<len?"'a'":"'b'"); for (int i=0;i<=len;++i) want+="]>"; want+="]"; }
    else if (k==2) { g={{"S",0,"",{{nref("S"),str("a")},{str("b")}}}}; in="b"+string(len,'a'); want="["; for (int i=0;i<=len;++i) want+="<S["; want+="'b'"; for (int i=0;i<len;++i) want+="]>'a'"; want+="]>]"; }
    else if (k==3) { g={{"S",0,"",{{nref("A",'@'),str("b")}}},{"A",0,"",{{rep(PLUS,str("a"))}}}}; in=string(len,'a')+"b"; want="[<S @A='"+string(len,'a')+"'['b']>]"; }
    else if (k==4) { len=std::min(len,300); for (int i=0;i<len;++i) g.push_back({"r"+std::to_string(i),0,"",{{i+1<len?nref("r"+std::to_string(i+1)):str("a")}}}); in="a"; want="["; for (int i=0;i<len;++i) want+="<r"+std::to_string(i)+"["; want+="'a'"; for (int i=0;i<len;++i) want+="]>"; want+="]"; }
    else { g={{"S",0,"",{{rep(STARSEP,nref("A",'-'),str(",",'-'))}}},{"A",0,"",{{str("a"),ins("-"),nref("B",'@')}}},{"B",0,"",{{str("b")},{}}}}; g[1].mark='^'; g[0].alts={{rep(STARSEP,nref("A"),str(",",'-'))}}; want="[<S["; for (int i=0;i<len;++i) { in+=(i?",a":"a")+string(i%3?"":"b"); want+="<A @B='"+string(i%3?"":"b")+"'['a-']>"; } want+="]>]"; }
    string text=spell(g,plain);
    if (!mc::run("size "+std::to_string(k)+" "+std::to_string(len))) return;
    ixrun::Grammar gr(text); if (!gr.ok) mc::fail("refused");
    Out o=run(gr.p.doc.d,in); if (!o.ok) mc::fail("rejected %s",o.msg.c_str());
    mc::count(0);
    if (o.tree!=want) { size_t i=0; while (i<want.size()&&i<o.tree.size()&&want[i]==o.tree[i]) i++; mc::fail("the tree differs at %zu of %zu: %s, expected %s",i,want.size(),o.tree.substr(i>10?i-10:0,60).c_str(),want.substr(i>10?i-10:0,60).c_str()); }
}
int main(int argc, char **argv)
{
    xq::quiet();
    const char *c[]={"inputs with one parse","inputs with several parses","unspecified trees","grammars with loops","inputs outside the language"};
    for (int i=0;i<5;++i) mc::counter_names[i]=c[i];
    return mc::main_(argc,argv,"P16",{{"marks",marks},{"roots",roots},{"places",places},{"twoplaces",twoplaces},{"inserts",inserts},{"attributes",attributes},{"recursion",recursion},{"expressions",expressions},{"texts",texts},{"inplace",inplace},{"sizes",sizes}});
}
