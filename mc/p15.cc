// P15: ixml parsing accepts exactly the language of the grammar; a broken grammar is an error.
#include "ixrun.h"
#include <map>
#include <set>
using namespace ixml; using namespace ixrun;

static const Style plain;

static void judge(const ixml::Grammar &g, const string &text, const vector<string> &inputs)
{
    Model m(g);
    ixrun::Grammar gr(text);
    if (m.undefined) { if (gr.ok) mc::fail("a name without rule was accepted"); mc::count(3); return; }
    if (!gr.ok) mc::fail("the grammar was refused: %s",gr.p.msg.c_str());
    for (auto &in:inputs) {
        bool want=m.accepts(decode(in));
        Out o=run(gr.p.doc.d,in);
        mc::count(want?0:1);
        if (o.ok!=want) {
            if (m.loop && !o.ok && mc::known("KF-ixml-loop")) { mc::count(2); return; }
            mc::fail("input %s: the reference %s it, xmq %s (%s)",xq::q(in).c_str(),want?"accepts":"rejects",o.ok?"accepts":"rejects",o.msg.c_str());
        }
        if (!o.ok && (!o.err || o.msg.empty())) mc::fail("input %s: refused without an error",xq::q(in).c_str());
        mc::outcome(o.tree+o.msg);
    }
}
static void go(const ixml::Grammar &g, const vector<string> &inputs, const Style &st=plain)
{
    string text=spell(g,st);
    if (!mc::run(text)) return;
    judge(g,text,inputs);
}
static const vector<string> ABC3=words({"a","b","c"},3), AB4=words({"a","b"},4), ABC2=words({"a","b","c"},2);

static vector<T> factors() { return {str("a"),str("b"),str("ab"),str(""),set({range('a','b')}),set({chars("ac")}),set({range('a','a')},true),set({}),set({},true),hex('a'),nref("A"),nref("S"),
    group({{str("a")},{str("b")}}),group({{str("a"),str("b")}}),group({{}}),group({{},{str("b")}}),ins("x")}; }
static vector<T> terms(const vector<T> &f, bool seps)
{
    vector<T> r;
    for (auto &x:f) { r.push_back(x); r.push_back(rep(OPT,x)); r.push_back(rep(STAR,x)); r.push_back(rep(PLUS,x)); }
    if (seps) for (auto &x:f) for (T s:{str("b"),set({range('b','c')}),group({{str("b")},{}}),nref("A")}) { r.push_back(rep(STARSEP,x,s)); r.push_back(rep(PLUSSEP,x,s)); }
    return r;
}
static const ixml::Rule &ruleA() { static ixml::Rule a{"A",0,"",{{str("b")},{str("a"),str("c")}}}; return a; }

static void single() // one alternative with one term, every kind of factor, repetition and separator
{
    static vector<T> t=terms(factors(),true);
    T x=t[mc::choose(t.size())];
    go({{"S",0,"",{{x}}},ruleA()},ABC3);
}
static void pairs() // a sequence of two terms, and two alternatives
{
    static vector<T> t=terms({str("a"),str("b"),str("ab"),set({range('a','b')}),set({range('a','a')},true),nref("A"),group({{str("a")},{str("b")}}),str("")},false);
    T x=t[mc::choose(t.size())], y=t[mc::choose(t.size())]; int two=mc::choose(2);
    Alts a; if (two) a={{x},{y}}; else a={{x,y}};
    go({{"S",0,"",a},ruleA()},ABC3);
}
static void nested() // repetitions of repetitions of groups
{
    static vector<T> base={str("a"),nref("A"),set({chars("ab")}),str("ab")};
    auto wrap=[&](T t)->T { int k=mc::choose(8); T s=str("c");
        switch (k) { case 0: return group({{t}}); case 1: return rep(OPT,t); case 2: return rep(STAR,t); case 3: return rep(PLUS,t); case 4: return rep(STARSEP,t,s); case 5: return rep(PLUSSEP,t,s); case 6: return group({{t},{str("c")}}); default: return group({{t,str("b")}}); } };
    T t=base[mc::choose(base.size())];
    int depth=mc::tier_pick(3,4);
    for (int d=0;d<depth;++d) { t=wrap(t); if (t->rep!=ONE) t=group({{t}}); }
    go({{"S",0,"",{{t}}},ruleA()},words({"a","b","c"},mc::tier_pick(4,4)));
}
static void recursion() // two rules referring to each other: left, right, middle, mutual recursion
{
    static vector<T> s={str("a"),nref("A"),nref("S"),rep(OPT,nref("A")),rep(STAR,nref("A"))};
    static vector<T> s2={str("a"),str("b"),nref("S"),nref("A")};
    auto alt=[&](const vector<T> &v, int max) { Alt a; int n=mc::choose(max+1); for (int i=0;i<n;++i) a.push_back(v[mc::choose(v.size())]); return a; };
    Alts S={alt(s,2)}; Alts A={alt(s2,2),alt(s2,2)};
    if (mc::thorough()&&mc::choose(2)) S.push_back(alt(s2,1));
    go({{"S",0,"",S},{"A",0,"",A}},AB4);
}
static void deeprules() // three rules, three symbols in each alternative
{
    static vector<T> v={str("a"),nref("A"),nref("B"),nref("S")};
    T x[6]; for (int i=0;i<(mc::thorough()?6:5);++i) x[i]=v[mc::choose(v.size())];
    if (!mc::thorough()) x[5]=str("b");
    go({{"S",0,"",{{x[0],x[1],str("b")},{str("a")}}},{"A",0,"",{{x[2],x[3]},{str("b")}}},{"B",0,"",{{x[4],x[5]},{}}}},AB4);
}
static void sets() // members of sets: ranges, strings, hex, classes, with and without ~, against characters of every category
{
    static vector<Member> m={range('a','b'),range('b','b'),range('a','z'),chars("ab"),chars(""),chars("\xc3\xa5\xe2\x82\xac"),code('a'),code(0x20ac),range(0xe5,0xff),range(' ',0x10ffff),range(0x1f600,0x1f600),
        klass("L"),klass("Ll"),klass("Lu"),klass("Lt"),klass("Lm"),klass("Lo"),klass("LC"),klass("N"),klass("Nd"),klass("Nl"),klass("No"),klass("P"),klass("Pc"),klass("Pd"),klass("Ps"),klass("Pe"),klass("Pi"),klass("Pf"),klass("Po"),
        klass("S"),klass("Sm"),klass("Sc"),klass("Sk"),klass("So"),klass("Z"),klass("Zs"),klass("Zl"),klass("Zp"),klass("C"),klass("Cc"),klass("Cf"),klass("M"),klass("Mn")};
    static vector<string> in=[]{ vector<string> r{""}; for (unsigned c:{1u,9u,10u,13u,0x1fu,0x7fu,0x85u,0xadu,0x20acu,0x2160u,0x1c5u,0x2b0u,0x300u,0x2028u,0x2029u,0x5d0u,0x4e00u,0x1f600u,0x3b1u,0x391u}) r.push_back(encode(c));
        for (unsigned c=' ';c<0x7f;++c) r.push_back(encode(c)); for (unsigned c=0xa0;c<0x100;++c) r.push_back(encode(c)); r.push_back("ab"); return r; }();
    int n=1+mc::choose(2); vector<Member> mm; for (int i=0;i<n;++i) mm.push_back(m[mc::choose(m.size())]);
    bool ex=mc::choose(2);
    Style st; st.hexchars=mc::choose(2);
    if (n==2&&!mc::thorough()&&st.hexchars) { mc::run("-"); return; }
    go({{"S",0,"",{{set(mm,ex)}}}},n==1||mc::thorough()?in:vector<string>{"","a","b","z","A","5","_","-","+","$"," ","\n","\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80","ab"},st);
}
static void classes() // every character assigned in Unicode 15.0 belongs to exactly the class of its category
{
    int chunk=mc::choose(mc::tier_pick(0x40,0x440));
    unsigned from=chunk*0x400;
    static vector<unsigned> edges=[]{ vector<unsigned> r; for (auto &u:unicats) for (unsigned c:{u.from-1,u.from,u.to,u.to+1}) r.push_back(c); return r; }();
    vector<unsigned> cs; string in; auto add=[&](unsigned c) { if (c==0||c>0x10ffff||(c>=0xd800&&c<0xe000)) return; string k=category(c); if (k=="Cn"||c==0x295||c==0x1171e) return; // two characters have changed category since
        cs.push_back(c); in+=encode(c); };
    if (mc::thorough()||chunk<0x30) for (unsigned c=from;c<from+0x400;++c) add(c);
    else for (size_t i=(chunk-0x30)*edges.size()/0x10;i<(chunk-0x2f)*edges.size()/0x10;++i) add(edges[i]);
    static string text=[]{ string s="S:(", r; const char *k[]={"Ll","Lu","Lt","Lm","Lo","Mn","Mc","Me","Nd","Nl","No","Pc","Pd","Ps","Pe","Pi","Pf","Po","Sm","Sc","Sk","So","Zs","Zl","Zp","Cc","Cf","Co"}; for (auto x:k) { s+=string(x==k[0]?"":";")+x; r+=string(x)+":-["+x+"]."; } return s+")*."+r; }();
    if (!mc::run("classes of "+std::to_string(cs.size())+" characters from chunk "+std::to_string(chunk))) return;
    ixrun::Grammar gr(text); if (!gr.ok) mc::fail("refused: %s",gr.p.msg.c_str());
    Out o=run(gr.p.doc.d,in);
    if (!o.ok) mc::fail("rejected: %s",o.msg.c_str());
    string want="[<S["; for (unsigned c:cs) want+="<"+category(c)+"[]>"; want+="]>]";
    if (o.tree!=want) { size_t k=0; while (k<want.size()&&k<o.tree.size()&&want[k]==o.tree[k]) k++; size_t n=0; for (size_t j=0;j<k;++j) if (want[j]=='<') n++; mc::fail("class of U+%04X differs: %s, expected %s",n>=2&&n-2<cs.size()?cs[n-2]:0,o.tree.substr(k>6?k-6:0,20).c_str(),want.substr(k>6?k-6:0,20).c_str()); }
}
static void sharedsets() // the same set in several places and with several marks
{
    static vector<T> v={set({chars("ab")}),set({chars("ab")},false,'-'),set({chars("ab")},true),set({chars("ab")},true,'-'),set({range('a','b')}),set({chars("ba")}),str("a",'-'),str("a")};
    T a=v[mc::choose(v.size())],b=v[mc::choose(v.size())],c=v[mc::choose(v.size())]; int shape=mc::choose(3);
    ixml::Grammar g;
    if (shape==0) g={{"S",0,"",{{a,b,c}}}};
    else if (shape==1) g={{"S",0,"",{{a},{b},{c}}}};
    else g={{"S",0,"",{{a,nref("A")}}},{"A",0,"",{{b,c}}}};
    go(g,ABC3);
}
static void spelling() // white space, comments, quotes, definition and alternative signs, prolog: all of them mean the same
{
    static vector<string> ws={""," ","\n","\t\r\n ","{c}"," {a {nested} b} ","{}","{'}","{.}"};
    Style st; st.ws=ws[mc::choose(ws.size())]; st.quote=mc::choose(2)?'"':'\''; st.def=mc::choose(2)?":":"="; st.alt=mc::choose(2)?";":"|"; st.hexchars=mc::choose(2);
    st.before=vector<string>{"","ixml version \"1.0\".\n","ixml version '1.0' .","  ","{c}\n","ixml{x}version{y}'1.0'{z}.{w}"}[mc::choose(6)];
    st.after=vector<string>{"","\n","{end}"," \n\n"}[mc::choose(4)];
    static vector<ixml::Grammar> gs={
        {{"S",'^',"",{{str("a"),rep(STAR,nref("A",'-')),rep(OPT,set({range('a','b'),code('c'),chars("q'\"")},true,'-'))},{rep(PLUSSEP,group({{str("b")},{}}),set({chars("c")}))}}},{"A",'@',"",{{str("'"),hex('b','-')},{rep(PLUSSEP,str("a"),str("\""))}}}},
        {{"ixml",0,"",{{nref("version",'@'),str("a")},{}}},{"version",'-',"",{{rep(PLUS,set({klass("Nd"),klass("Lu")}))}}}},
        {{"error",'-',"",{{nref("a-b.c")},{}}},{"a-b.c",'^',"",{{nref("_x",0,"y")}}},{"_x",0,"z",{{str("a"),ins("i")},{str("b")}}}} };
    int gi=mc::choose(2);
    go(gs[gi],gi==0?words({"a","b","c","'"},3):words({"a","A","1"},2),st);
}
static void names() // names of rules: letters, digits, - and _, also those with a meaning elsewhere
{
    static vector<string> nm={"S","a","error","ixml","version","x1","_","_a","a-b","A_1","L","Nd","very-long-name-of-a-rule-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on","eof"};
    string a=nm[mc::choose(nm.size())], b=nm[mc::choose(nm.size())];
    if (a==b) { mc::run("-"); return; }
    int shape=mc::choose(3);
    ixml::Grammar g;
    if (shape==0) g={{a,0,"",{{nref(b),str("a")},{str("b")}}},{b,0,"",{{str("b")},{}}}};
    else if (shape==1) g={{a,0,"",{{rep(PLUS,nref(b,'-'))}}},{b,'@',"",{{str("a")}}}};
    else g={{a,0,"",{{nref(b,0,a)}}},{b,0,"",{{str("a")}}}};
    go(g,AB4);
}
static void strings() // literals: quotes inside, all kinds of characters, hex
{
    static vector<string> s={"a","'","\"","''","\"\"","'\"","\\","#61","{","}","{a}",".",";","\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80"," ","\t","a b","]","&","<","\xc2\x80"};
    string x=s[mc::choose(s.size())], y=s[mc::choose(s.size())]; Style st; st.quote=mc::choose(2)?'"':'\''; st.hexchars=mc::choose(2);
    int shape=mc::choose(3); ixml::Grammar g;
    if (shape==0) g={{"S",0,"",{{str(x),str(y)}}}}; else if (shape==1) g={{"S",0,"",{{set({chars(x)}),set({chars(y)},true)}}}}; else g={{"S",0,"",{{rep(PLUS,str(x),T())},{str(y)}}}};
    vector<string> in={"",x,y,x+y,y+x,x+x,x+y+x,"a","aa","b","\\"};
    for (unsigned c:decode(x+y)) { in.push_back(encode(c)); in.push_back(encode(c)+"b"); }
    go(g,in,st);
}
static void undefined() // a name without rule anywhere
{
    static vector<T> v={nref("X"),rep(OPT,nref("X")),rep(STAR,nref("X")),group({{nref("X")},{str("a")}}),rep(STARSEP,str("a"),nref("X")),nref("X",'-'),nref("X",'@'),nref("X",0,"S"),str("a"),nref("A")};
    T x=v[mc::choose(v.size())], y=v[mc::choose(v.size())]; int where=mc::choose(2);
    ixml::Grammar g; if (where) g={{"S",0,"",{{x},{y}}},ruleA()}; else g={{"S",0,"",{{nref("A")}}},{"A",0,"",{{str("a")},{x,y}}}};
    go(g,ABC2);
}
// ------------------------------------------------------------------ broken grammars
// The syntax of ixml (chapter "Complete Grammar" of the specification) as tokens, read by the reference engine itself.
static const vector<string> TOK={"S","a",":","=",".",",",";","|","(",")","?","*","+","**","++","'b'","#62","-","^","@","[","]","~","'a'-'c'","Nd",">","\"","#","{","}","{c}"};
// A reader of ixml after the specification. lenient additionally allows what xmq is known to tolerate: a missing comma, no space between rules, an empty string.
struct Spec {
    const string &t; bool lenient; size_t i=0; std::map<string,int> defined; std::set<string> used;
    Spec(const string &t, bool lenient) : t(t), lenient(lenient) {}
    struct Bad {};
    char c(size_t k=0) const { return i+k<t.size()?t[i+k]:0; }
    void need(char x) { if (c()!=x) throw Bad(); i++; }
    bool ws() { size_t from=i; for (;;) { if (c()==' '||c()=='\t'||c()=='\n'||c()=='\r') i++; else if (c()=='{') comment(); else return i>from; } }
    void comment() { need('{'); while (c()!='}') { if (i>=t.size()) throw Bad(); if (c()=='{') comment(); else i++; } i++; }
    static bool letter(char x) { return (x>='a'&&x<='z')||(x>='A'&&x<='Z'); }
    bool namestart() const { return letter(c())||c()=='_'; }
    string name() { if (!namestart()) throw Bad(); size_t from=i; while (namestart()||c()=='-'||(c()>='0'&&c()<='9')) i++; return t.substr(from,i-from); }
    string alias() { ws(); if (c()!='>') return ""; i++; ws(); string n=name(); ws(); return n; }
    size_t str() { char q=c(); if (q!='"'&&q!='\'') throw Bad(); i++; size_t n=0; for (;;) { if (i>=t.size()) throw Bad(); if (c()==q) { if (c(1)==q) { i+=2; n++; continue; } i++; break; } n++; i++; } if (!n&&!lenient) throw Bad(); last=t[i-2]; return n; }
    unsigned long last=0;
    void hex() { need('#'); unsigned long v=0; int n=0; while (isxdigit((unsigned char)c())) { v=v*16+(isdigit((unsigned char)c())?c()-'0':(c()|32)-'a'+10); if (v>0x10ffff) throw Bad(); i++; n++; } if (!n||(v>=0xd800&&v<=0xdfff)) throw Bad(); last=v; }
    bool lit() const { return c()=='"'||c()=='\''||c()=='#'; }
    size_t literal() { if (c()=='#') { hex(); return 1; } return str(); }
    void grammar() { ws(); bool first=true; do { if (!first&&!sep&&!lenient) throw Bad(); rule(); sep=ws(); first=false; } while (i<t.size()); }
    bool sep=false;
    void rule() { if (c()=='@'||c()=='^'||c()=='-') { i++; ws(); } string n=name(); alias(); defined[n]++; ws(); if (c()!=':'&&c()!='=') throw Bad(); i++; ws(); alts(); need('.'); }
    void alts() { alt(); while (c()==';'||c()=='|') { i++; ws(); alt(); } }
    bool start() const { return lit()||namestart()||c()=='('||c()=='['||c()=='~'||c()=='@'||c()=='^'||c()=='-'||c()=='+'; }
    void alt() { if (!start()) return; term(); for (;;) { ws(); if (c()==',') { i++; ws(); if (!start()) throw Bad(); } else if (!(lenient&&start())) return; term(); } }
    void term() { factor(); char x=c(); if (x=='?') { i++; ws(); } else if (x=='*'||x=='+') { i++; if (c()==x) { i++; ws(); factor(); } else ws(); } }
    void factor() {
        if (c()=='(') { i++; ws(); alts(); need(')'); ws(); return; }
        if (c()=='+') { i++; ws(); literal(); ws(); return; }
        char m=0; if (c()=='@'||c()=='^'||c()=='-') { m=c(); i++; ws(); }
        if (namestart()) { used.insert(name()); alias(); ws(); return; }
        if (m=='@') throw Bad();
        if (lit()) { literal(); ws(); return; }
        if (c()=='~') { i++; ws(); if (c()!='[') throw Bad(); }
        need('['); ws();
        if (c()!=']') for (;;) { member(); ws(); if (c()==';'||c()=='|') { i++; ws(); continue; } break; }
        need(']'); ws();
    }
    void member() {
        if (lit()) { size_t n=literal(); unsigned long from=last; ws(); if (c()!='-') return; if (n!=1) throw Bad(); i++; ws(); if (literal()!=1||last<from) throw Bad(); return; }
        static const std::set<string> cls={"C","Cc","Cf","Cn","Co","Cs","L","LC","Ll","Lm","Lo","Lt","Lu","M","Mc","Me","Mn","N","Nd","Nl","No","P","Pc","Pd","Pe","Pf","Pi","Po","Ps","S","Sc","Sk","Sm","So","Z","Zl","Zp","Zs"};
        string n; while (letter(c())&&n.size()<3) n+=t[i++];
        if (!cls.count(n)) throw Bad();
    }
    bool read() { try { grammar(); return i==t.size(); } catch (Bad&) { return false; } }
};
static void broken_tokens(const vector<int> &seq)
{
    string text; for (int t:seq) text+=TOK[t]+(TOK[t]=="S"||TOK[t]=="a"||TOK[t]=="Nd"?" ":"");
    if (!mc::run(text)) return;
    Spec strict(text,false), loose(text,true); bool ok=strict.read(), maybe=loose.read();
    ixrun::Grammar gr(text);
    if (!ok&&maybe) { mc::count(6); return; }
    if (!ok) { mc::count(5); if (gr.ok) mc::fail("a broken grammar was accepted"); if (!gr.p.err||gr.p.msg.empty()) mc::fail("refused without an error"); return; }
    bool names=false; // syntactically fine: it can still be refused when a name has no rule or two
    for (auto &u:strict.used) if (!strict.defined.count(u)) names=true;
    for (auto &d:strict.defined) if (d.second>1) names=true;
    mc::count(names?7:4);
    if (!gr.ok&&!names) mc::fail("a correct grammar was refused: %s",gr.p.msg.c_str());
}
static int T_(const char *s) { for (size_t i=0;i<TOK.size();++i) if (TOK[i]==s) return i; abort(); }
static void broken_body() // S : <every token sequence> .
{
    int n=mc::choose(mc::tier_pick(5,6)); vector<int> q={T_("S"),T_(":")};
    for (int i=0;i<n;++i) q.push_back(mc::choose(TOK.size()));
    q.push_back(T_("."));
    broken_tokens(q);
}
static void broken_start() // every token sequence as a whole grammar
{
    int n=mc::choose(mc::tier_pick(5,6)); vector<int> q; for (int i=0;i<n;++i) q.push_back(mc::choose(TOK.size()));
    broken_tokens(q);
}
static void broken_set() // S : [ <sequence> ] .
{
    int n=mc::choose(mc::tier_pick(5,6)); vector<int> q={T_("S"),T_(":"),T_("[")}; for (int i=0;i<n;++i) q.push_back(mc::choose(TOK.size()));
    q.push_back(T_("]")); q.push_back(T_("."));
    broken_tokens(q);
}
static void broken_edit() // every one token deletion, replacement, insertion and truncation of a rich grammar
{
    static vector<int> base; if (base.empty()) for (const char *s:{"{c}","S",":","'b'",",","-","a","*","{c}",";","^","#62","**","(","a",",","'b'","?","|",")",".","@","a","=","~","[","'a'-'c'",";","Nd","|","'b'","]","++","-","'b'",",","+","'b'","."}) base.push_back(T_(s));
    int kind=mc::choose(4), at=mc::choose(base.size()+1); vector<int> q=base;
    if (kind==0) { if (at<(int)q.size()) q.erase(q.begin()+at); }
    else if (kind==1) { int t=mc::choose(TOK.size()); if (at<(int)q.size()) q[at]=t; }
    else if (kind==2) { int t=mc::choose(TOK.size()); q.insert(q.begin()+at,t); }
    else q.resize(at);
    broken_tokens(q);
}
static void ranges() // ranges must be ordered and have single characters, hex must be a character
{
    static vector<std::pair<string,bool>> g={{"S:['a'-'b'].",true},{"S:['b'-'a'].",false},{"S:['a'-'a'].",true},{"S:['ab'-'c'].",false},{"S:['a'-'bc'].",false},{"S:[''-'c'].",false},{"S:['a'-''].",false},{"S:[#61-#62].",true},{"S:[#62-#61].",false},{"S:['a'-#62].",true},
        {"S:#110000.",false},{"S:#10ffff.",true},{"S:#d800.",false},{"S:#dfff.",false},{"S:#e000.",true},{"S:#ffffffffffffffffffff.",false},{"S:#.",false},{"S:#g.",false},{"S:#61.",true},{"S:#0061.",true},{"S:[#].",false},{"S:[#110000].",false},{"S:+#110000.",false},{"S:+#.",false},{"S:[\"a\"-].",false},{"S:[-\"a\"].",false},{"S:[Xx].",false},{"S:[l].",false},{"S:[Lz].",false},{"S:[LL].",false},{"S:[Ll;Lu].",true},{"S:[\"a\";].",false},{"S:[;].",false},
        {"",false},{" ",false},{"S",false},{"S:",false},{"S:'a'",false},{"S:'a",false},{"S:'a'..",false},{"S:'a'.S2",false},{"S:{'a'.",false},{"S:'a'.{",false},{"S:'a'.}",false},{"S:'a'.{}",true},{"ixml version '1.0'.",false},{"ixml version '1.0'.S:.",true},{"ixml version 1.0.S:.",false},{"ixml version '1.0' S:.",false},{"1:'a'.",false},{"-:'a'.",false},{"S::'a'.",false},{"S:.",true},{"S:;.",true},{"S:();().",true},{"S:(.",false},{"S:).",false},{"S:a:'x'.",false},{"S:'a'**.",false},{"S:'a'++.",false},{"S:**'a'.",false},{"S:*.",false},{"S:?.",false},{"S:,'a'.",false},{"S:'a',.",false},{"S:'a',,'b'.",false},{"S:@'a'.",false},{"S:@[Ll].",false},{"S:-+'a'.",false},{"S:~'a'.",false},{"S:~.",false},{"S:--'a'.",false},{"S:-^'a'.",false},{"--S:'a'.",false},{"S>:'a'.",false},{"S>T:'a'.",true},{"S:T>.T:'a'.",false},{"S:'a'>b.",false}};
    auto &x=g[mc::choose(g.size())];
    if (!mc::run(x.first)) return;
    ixrun::Grammar gr(x.first); mc::count(x.second?4:5);
    if (gr.ok!=x.second) mc::fail("grammar %s",gr.ok?"accepted but broken":("refused but correct: "+gr.p.msg).c_str());
}
static void sizes() // long inputs, many rules, deep nesting
{
    static vector<int> n={1,2,10,100,500,1000,3000}; int k=mc::choose(4), len=n[mc::choose(mc::thorough()?7:6)];
    ixml::Grammar g; vector<string> in; string as(len,'a');
    if (k==0) { g={{"S",0,"",{{rep(STAR,str("a"))}}}}; in={as,as+"b",as.substr(1),"b"+as}; }
    else if (k==1) { g={{"S",0,"",{{str("a"),nref("S"),str("b")},{}}}}; len=std::min(len,1000); as=string(len,'a'); in={as+string(len,'b'),as+string(len-1,'b'),as}; }
    else if (k==2) { len=std::min(len,500); for (int i=0;i<len;++i) g.push_back({"r"+std::to_string(i),0,"",{{i+1<len?nref("r"+std::to_string(i+1)):str("a")}}}); in={"a","","aa"}; }
    else { len=std::min(len,100); T t=str("a"); for (int i=0;i<len;++i) t=group({{t}}); g={{"S",0,"",{{t}}}}; in={"a","","aa"}; }
    string text=spell(g,plain);
    if (!mc::run("size "+std::to_string(k)+" "+std::to_string(len))) return;
    ixrun::Grammar gr(text); if (!gr.ok) mc::fail("refused");
    for (size_t i=0;i<in.size();++i) { Out o=run(gr.p.doc.d,in[i]); bool want=k==0?i==0||i==2:i==0; if (o.ok!=want) mc::fail("input %zu %s",i,o.ok?"accepted":"rejected"); }
}
static void codes() // two terminals, or the ends of a range, over pairs of code points at the boundaries of digits and encodings
{
    static vector<unsigned> c={9,10,0x20,'a','b',0x5f,0x7e,0x7f,0x80,0xa1,0xff,0x100,0x101,0x110,0x111,0x400,0x401,0x7ff,0x800,0xfff,0x1000,0x1001,0x1111,0x2028,0xd7ff,0xe000,0xfeff,0xfffd,0x10000,0x10001,0x1000f,0x10010,0x11111,0x1f600,0x1f601,0xfffff,0x100000,0x100001,0x10000f,0x100010,0x101000,0x101001,0x10fffd,0x10ffff};
    unsigned a=c[mc::choose(c.size())],b=c[mc::choose(c.size())]; int shape=mc::choose(6); Style st; if (shape&1) st.hexchars=true;
    ixml::Grammar g; vector<string> in; string A=encode(a),B=encode(b); if (a=='\n'||b=='\n') st.hexchars=true;
    if (shape<2&&st.hexchars) g={{"S",0,"",{{hex(a),hex(b)}}}};
    else if (shape<2) g={{"S",0,"",{{str(A),str(B)}}}};
    else if (shape<4) { if (a>b) { mc::run("-"); return; } g={{"S",0,"",{{set({range(a,b)}),set({range(b,b)})}}}}; }
    else g={{"S",0,"",{{set({code(a)},true),set({chars(A+B)})}}}};
    if (shape==0&&st.hexchars) { mc::run("-"); return; }
    in={"",A,B,A+B,B+A,A+A,B+B,A+B+A};
    auto ok=[](unsigned x){ return x==9||x==10||(x>=32&&x<0xd800)||(x>=0xe000&&x<0x110000&&(x&0xfffe)!=0xfffe); };
    if (shape>1) for (unsigned x:{a-1,a+1,b-1,b+1}) if (ok(x)) { in.push_back(encode(x)+B); in.push_back(encode(x)+A); }
    go(g,in,st);
}
static void generated() // many groups, options, repetitions and sets in one grammar, each with a letter of its own
{
    static int NN[]={1,2,3,9,10,11,12,99,100,101,102,128,255,256,257}; int n=NN[mc::choose(mc::thorough()?15:13)], kind=mc::choose(7);
    if (!mc::run("generated "+std::to_string(n)+" of kind "+std::to_string(kind))) return;
    ixml::Rule r{"S",0,"",{{}}}; auto L=[](int i){ return encode(0x4e00+i); };
    vector<T> all;
    for (int i=0;i<n;++i) { T x=str(L(i)); switch (kind) {
        case 0: x=rep(OPT,x); break; case 1: x=rep(STAR,x); break; case 2: x=rep(OPT,group({{x}})); break; case 3: x=rep(OPT,set({range(0x4e00+i,0x4e00+i)})); break;
        case 4: x=group({{x},{}}); break; case 5: x=rep(STARSEP,x,str(",")); break; default: x=rep(OPT,group({{rep(PLUS,x)}})); break; }
        all.push_back(x); }
    // n alternatives would be another shape: here all follow each other, so that any subset in order is in the language
    Alts a(1); for (auto &x:all) a[0].push_back(x);
    ixml::Grammar g={{"S",0,"",a}};
    ixrun::Grammar gr(spell(g,plain)); if (!gr.ok) mc::fail("refused: %s",gr.p.msg.c_str());
    bool many=kind==1||kind==6, sep=kind==5;
    auto want=[&](const vector<int> &w,bool commas){ for (size_t i=1;i<w.size();++i) { if (w[i]<w[i-1]) return false; if (w[i]==w[i-1]&&!many&&!(sep&&commas)) return false; if (commas&&!(sep&&w[i]==w[i-1])) return false; } return !(commas&&w.size()<2); };
    vector<int> idx={0,1,2,n/2,n-3,n-2,n-1,9,10,11,99,100,101}; std::set<int> u; for (int i:idx) if (i>=0&&i<n) u.insert(i);
    for (int i:u) for (int j:u) for (int c=0;c<2;++c) {
        vector<int> w={i,j}; string s=L(i)+(c?",":"")+L(j); bool ok=want(w,c);
        Out o=run(gr.p.doc.d,s); if (o.ok!=ok) mc::fail("letters %d%s %d of %d: %s",i,c?",":"",j,n,o.ok?"accepted":"rejected");
    }
    for (int i:u) { Out o=run(gr.p.doc.d,L(i)); if (!o.ok) mc::fail("letter %d rejected",i); }
    string s; for (int i=0;i<n;++i) s+=L(i); Out o=run(gr.p.doc.d,s); if (!o.ok) mc::fail("all letters rejected");
    Out e=run(gr.p.doc.d,s+L(n)); if (e.ok) mc::fail("a letter outside is accepted");
}
int main(int argc, char **argv)
{
    xq::quiet();
    const char *c[]={"inputs in the language","inputs outside","refused loops","names without rule","correct grammars","broken grammars","unspecified grammars","correct syntax, bad names"};
    for (int i=0;i<8;++i) mc::counter_names[i]=c[i];
    return mc::main_(argc,argv,"P15",{{"single",single},{"pairs",pairs},{"nested",nested},{"recursion",recursion},{"deeprules",deeprules},{"sets",sets},{"classes",classes},{"sharedsets",sharedsets},{"spelling",spelling},{"names",names},{"strings",strings},{"undefined",undefined},{"broken-body",broken_body},{"broken-start",broken_start},{"broken-set",broken_set},{"broken-edit",broken_edit},{"ranges",ranges},{"sizes",sizes},{"codes",codes},{"generated",generated}});
}
