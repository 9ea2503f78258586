// P17: ambiguity is flagged exactly when there are several parses, all of them can be had, and parsing is a function of grammar and input.
#include "ixrun.h"
#include "cli.h"
using namespace ixml; using namespace ixrun;

static const Style plain;
static void judge(const ixml::Grammar &g, const string &text, const vector<string> &inputs, bool pure)
{
    Model m(g);
    if (m.loop) { mc::count(4); return; }
    ixrun::Grammar gr(text);
    if (!gr.ok) mc::fail("the grammar was refused: %s",gr.p.msg.c_str());
    for (auto &in:inputs) {
        Result r=m.parse(in);
        if (!r.accepted||r.capped) { mc::count(3); continue; }
        int expect=r.count==1?0:r.trees.size()>1?1:2; mc::count(expect);
        Out o=run(gr.p.doc.d,in);
        if (!o.ok) mc::fail("input %s: rejected: %s",xq::q(in).c_str(),o.msg.c_str());
        if (expect==0&&o.ambiguous) mc::fail("input %s has one parse but is reported as ambiguous",xq::q(in).c_str());
        if (expect==1&&!o.ambiguous) mc::fail("input %s has %zu distinct parses but is not reported as ambiguous: %s",xq::q(in).c_str(),r.trees.size(),o.tree.c_str());
        if (!r.odd&&!r.trees.count(o.tree)) mc::fail("input %s: the tree is %s, expected %s%s",xq::q(in).c_str(),o.tree.c_str(),r.trees.begin()->c_str(),r.trees.size()>1?" or another parse":"");
        std::set<string> all; bool cap=false;
        Out a=run(gr.p.doc.d,in,XMQ_FLAG_IXML_ALL_PARSES,[&](xmlDoc *d) {
            // every choice of one alternative in each AMBIGUOUS element
            std::function<vector<string>(xmlNode*,string)> list; std::function<vector<string>(xmlNode*)> node;
            auto one=[](xmlNode *n) { return n->type==XML_ELEMENT_NODE&&string(xq::cs(n->name))=="AMBIGUOUS"; };
            node=[&](xmlNode *e)->vector<string> { vector<string> r; if (one(e)) { for (xmlNode *c=e->children;c;c=c->next) for (auto &s:node(c)) r.push_back(s); return r; }
                if (e->type==XML_TEXT_NODE) return {string("'")+xq::cs(e->content)+"'"};
                string h="<"+string(xq::cs(e->name)); vector<string> at; for (xmlAttr *a=e->properties;a;a=a->next) { string v; for (xmlNode *c=a->children;c;c=c->next) v+=xq::cs(c->content); at.push_back(" @"+string(xq::cs(a->name))+"='"+v+"'"); } std::sort(at.begin(),at.end()); for (auto &a:at) h+=a;
                for (auto &s:list(e->children,"")) r.push_back(h+"["+s+"]>"); if (r.size()>2000) { cap=true; r.resize(2000); } return r; };
            list=[&](xmlNode *c,string)->vector<string> { vector<string> r{""}; for (;c;c=c->next) { vector<string> n; for (auto &x:r) for (auto &y:node(c)) { string z=x; if (z.size()&&z.back()=='\''&&y[0]=='\'') { z.pop_back(); z+=y.substr(1); } else z+=y; n.push_back(z); if (n.size()>2000) { cap=true; break; } } r=n; } return r; };
            for (auto &s:list(d->children,"")) all.insert("["+s+"]");
        });
        if (!a.ok) mc::fail("input %s: all parses: rejected: %s",xq::q(in).c_str(),a.msg.c_str());
        if (expect==0&&a.tree!=o.tree) mc::fail("input %s: asking for all parses changes the only one: %s, was %s",xq::q(in).c_str(),a.tree.c_str(),o.tree.c_str());
        if (pure&&!cap&&!r.odd&&all!=r.trees) {
            string miss,extra; for (auto &t:r.trees) if (!all.count(t)) { miss=t; break; } for (auto &t:all) if (!r.trees.count(t)) { extra=t; break; }
            mc::fail("input %s: all parses has %zu trees, expected %zu; missing %s; not a parse %s; document %s",xq::q(in).c_str(),all.size(),r.trees.size(),miss.c_str(),extra.c_str(),a.tree.c_str());
        }
        mc::outcome(o.tree+(o.ambiguous?"*":""));
    }
}
static void go(const ixml::Grammar &g, const vector<string> &inputs, bool pure=false)
{
    string text=spell(g,plain);
    if (!mc::run(text)) return;
    judge(g,text,inputs,pure);
}
static Alt alt(const vector<T> &v, int max) { Alt a; int n=mc::choose(max+1); for (int i=0;i<n;++i) a.push_back(v[mc::choose(v.size())]); return a; }

static void pure() // rules with one visible element per choice: every parse can be compared
{
    static vector<T> s={str("a"),nref("A"),nref("S")}, s2={str("a"),str("b"),nref("S"),nref("A")};
    Alts S={alt(s,2),alt(s,1)}; Alts A={alt(s2,2),alt(s2,mc::tier_pick(1,2))};
    go({{"R",0,"",{{nref("S")}}},{"S",0,"",S},{"A",0,"",A}},words({"a","b"},mc::tier_pick(4,4)),true);
}
static void pure3() // three symbols in a row
{
    static vector<T> s={str("a"),nref("A"),nref("B")};
    T x=s[mc::choose(3)],y=s[mc::choose(3)],z=s[mc::choose(3)],u=s[mc::choose(3)],v=s[mc::choose(3)]; int e=mc::choose(4);
    go({{"S",0,"",{{x,y,z},{u,v}}},{"A",0,"",{{str("a")},e&1?Alt{}:Alt{str("b")}}},{"B",0,"",{{str("a")},e&2?Alt{str("a"),str("a")}:Alt{nref("A")}}}},words({"a","b"},5),true);
}
static void ops() // repetitions, groups and separators of rules that can be empty or overlap
{
    static vector<T> f={str("a"),str("ab"),nref("A"),group({{str("a")},{str("b")}}),group({{str("a")},{nref("A")}}),set({range('a','b')})};
    auto tm=[&]()->T { T x=f[mc::choose(f.size())]; switch (mc::choose(6)) { case 0: return x; case 1: return rep(OPT,x); case 2: return rep(STAR,x); case 3: return rep(PLUS,x); case 4: return rep(STARSEP,x,str("b")); default: return rep(PLUSSEP,x,str("a")); } };
    T x=tm(), y=tm(); int e=mc::choose(2);
    go({{"S",0,"",{{x,y}}},{"A",0,"",{{str("b")},e?Alt{}:Alt{str("a"),str("b")}}}},words({"a","b"},4));
}
static void marks() // hidden and visible readings of the same characters
{
    static vector<T> v={str("a"),str("a",'-'),set({range('a','b')}),set({range('a','b')},false,'-'),nref("A"),nref("A",'-'),nref("A",'@'),nref("A",0,"B"),ins("x"),str("b")};
    T a=v[mc::choose(v.size())],b=v[mc::choose(v.size())],c=v[mc::choose(v.size())]; int k=mc::choose(3);
    Alts S=k==0?Alts{{a,b},{c}}:k==1?Alts{{a},{b},{c}}:Alts{{a,c},{b,c}};
    go({{"S",0,"",S},{"A",0,"",{{str("a")},{str("b"),str("a")}}}},words({"a","b"},3));
}
static void many() // numbers of parses that grow
{
    int n=mc::choose(mc::tier_pick(6,7)); int k=mc::choose(5); ixml::Grammar g; string s(n,'a');
    if (k==0) g={{"S",0,"",{{nref("S"),nref("S")},{str("a")}}}};
    else if (k==1) g={{"S",0,"",{{nref("S"),nref("S"),nref("S")},{nref("S"),nref("S")},{str("a")}}}};
    else if (k==2) g={{"S",0,"",{{nref("A"),nref("A"),nref("A")}}},{"A",0,"",{{str("a"),nref("A")},{}}}};
    else if (k==3) g={{"e",0,"",{{nref("e"),str("a"),nref("e")},{nref("e"),str("b"),nref("e")},{str("c")}}}}, s="c"; 
    else g={{"s",0,"",{{str("a"),nref("s")},{str("a"),nref("s"),str("a"),nref("s")},{str("b")}}}}, s="";
    if (k==3) { for (int i=0;i<n-1;++i) s+=i%2?"bc":"ac"; } if (k==4) { s=string(n/2+1,'a')+"b"; for (int i=0;i<n/2;++i) s+="ab"; }
    go(g,{s},true);
}
// ------------------------------------------------------------------ histories
struct Gram { const char *text; vector<string> in; };
static const vector<Gram> &grams()
{
    static vector<Gram> g={
        {"S:A,S;A. A:'a';-'b'.",{"ab","b","","abx","c"}},
        {"S:[Ll;Nd]*.",{"ab1","\xc3\xa5\xce\xb2","A","1\xf0\x9f\x98\x80","x"}},
        {"S:[Lu],~['a'-'c';'X']*.",{"AB","Aa","A\xe2\x82\xac","X",""}},
        {"-S:@A,B;B. A:'x',+'i'. B>C:'y'*.",{"xyy","yy","","x","xx"}},
        {"S:S,S;'a'.",{"aaa","a","aab","","aaaa"}},
        {"e:e,'+',e;[Nd]+.",{"1+2","1","1+2+3","1+","+"}},
        {"S:'a'.S2",{"a","b","","aa","c"}}, // broken
    };
    return g;
}
static const int FL[]={0,XMQ_FLAG_IXML_ALL_PARSES,XMQ_FLAG_IXML_TRY_TO_RECOVER};
static string str(const Out &o) { return string(o.ok?"ok ":"refused ")+(o.ambiguous?"ambiguous ":"")+std::to_string(o.err)+" "+o.msg+" "+o.tree; }
static std::map<string,string> base;
static string isolated(const std::function<string()> &f)
{
    int p[2]; if (pipe(p)) exit(3); fflush(NULL); pid_t c=fork();
    if (!c) { close(p[0]); string s=f()+"!"; size_t o=0; while (o<s.size()) { ssize_t n=write(p[1],s.data()+o,s.size()-o); if (n<=0) _exit(1); o+=n; } _exit(0); }
    close(p[1]); string s; char b[65536]; ssize_t n; while ((n=read(p[0],b,sizeof b))>0) s.append(b,n); close(p[0]); int st; waitpid(c,&st,0);
    if (s.empty()||s.back()!='!') return "(crashed)"; s.pop_back(); return s;
}
static const string &baseline(int g, int i, int f)
{
    string k=std::to_string(g)+","+std::to_string(i)+","+std::to_string(f); auto x=base.find(k);
    if (x==base.end()) x=base.emplace(k,isolated([&]{ ixrun::Grammar gr(grams()[g].text); return str(run(gr.p.doc.d,grams()[g].in[i],FL[f])); })).first;
    return x->second;
}
static void histories() // one or two grammars loaded once and used for every sequence of inputs, with other work between
{
    int n=mc::tier_pick(3,4); int NG=grams().size();
    int g[2]; g[0]=mc::choose(NG); g[1]=mc::choose(NG); vector<std::array<int,3>> ops; string d="grammars "+std::to_string(g[0])+","+std::to_string(g[1]);
    static const int K=13; // 5 inputs in slot 0, 3 in slot 1, flags, other work
    for (int i=0;i<n;++i) {
        int o=mc::choose(K); std::array<int,3> a;
        if (o<5) a={0,o,0}; else if (o<8) a={1,o-5,0}; else if (o==8) a={0,2,1}; else if (o==9) a={0,3,2}; else a={2,o-10,0};
        ops.push_back(a); d+=a[0]==2?" work"+std::to_string(a[1]):" "+std::to_string(a[0])+":"+xq::q(grams()[g[a[0]]].in[a[1]])+(a[2]==1?"all":a[2]==2?"recover":"");
    }
    if (!mc::run(d)) return;
    std::unique_ptr<ixrun::Grammar> gr[2]; for (int s=0;s<2;++s) gr[s].reset(new ixrun::Grammar(grams()[g[s]].text));
    for (auto &a:ops) {
        if (a[0]==2) {
            if (a[1]==0) gr[0].reset(new ixrun::Grammar(grams()[g[0]].text)); // load again
            else if (a[1]==1) { xq::Parsed p; xq::parse(p,"a{b=1 c='x'",XMQ_CONTENT_XMQ); xq::Parsed q; xq::parse(q,"{\"a\":[1]}",XMQ_CONTENT_JSON); }
            else { ixrun::Grammar tmp("S:{c}'a',[L;'1']."); run(tmp.p.doc.d,"ab"); run(tmp.p.doc.d,"b"); ixrun::Grammar bad("S:["); }
            continue;
        }
        int gi=g[a[0]]; const string &want=baseline(gi,a[1],a[2]);
        string got=str(run(gr[a[0]]->p.doc.d,grams()[gi].in[a[1]],FL[a[2]]));
        if (got!=want) mc::fail("grammar %d input %s flags %d: %s, alone it is %s",gi,xq::q(grams()[gi].in[a[1]]).c_str(),a[2],got.c_str(),want.c_str());
        mc::count(5);
    }
    mc::outcome(d);
}
static void kept() // the documents of earlier parses stay as they are, also when the grammar is freed
{
    int g=mc::choose(grams().size()-1), i=mc::choose(5), j=mc::choose(5), f=mc::choose(3), order=mc::choose(3);
    if (!mc::run("grammar "+std::to_string(g)+" inputs "+std::to_string(i)+","+std::to_string(j)+" flags "+std::to_string(f)+" order "+std::to_string(order))) return;
    std::unique_ptr<ixrun::Grammar> gr(new ixrun::Grammar(grams()[g].text));
    xq::Doc a,b; auto parse=[&](xq::Doc &d,int k) { Stderr se; mc::Exact e(grams()[g].in[k]); bool ok=xmqParseBufferWithIXML(d.d,e.start,e.stop,gr->p.doc.d,FL[f]); se.done(); return ok; };
    auto text=[](xq::Doc &d) { string t; tree_list(d.x()->children,t); const char *m=xmqDocError(d.d); return t+"|"+(m?m:"-"); };
    parse(a,i); string ta=text(a); if (order==1) gr.reset(new ixrun::Grammar(grams()[g].text)); parse(b,j); string tb=text(b);
    if (text(a)!=ta) mc::fail("the first document changed to %s from %s",text(a).c_str(),ta.c_str());
    if (order==2) { xmqFreeDoc(a.d); a.d=xmqNewDoc(); ta=text(a); }
    gr.reset(); string t2=text(a); if (t2!=ta) mc::fail("the document changed when the grammar was freed"); if (text(b)!=tb) mc::fail("the second document changed");
    Out x=run(ixrun::Grammar(grams()[g].text).p.doc.d,grams()[g].in[j],FL[f]); string w=x.ok?x.tree.substr(1,x.tree.size()-2):""; if (x.ok&&tb.compare(0,w.size(),w)) mc::fail("the second document is %s, expected %s",tb.c_str(),w.c_str());
    mc::count(5);
}
static void process() // separate processes agree with each other and with the library
{
    int g=mc::choose(grams().size()), i=mc::choose(5), f=mc::choose(3);
    if (!mc::run("tool, grammar "+std::to_string(g)+" input "+xq::q(grams()[g].in[i])+" flags "+std::to_string(f))) return;
    cli::put(mc::scratch+"/g.ixml",grams()[g].text); cli::put(mc::scratch+"/in",grams()[g].in[i]);
    vector<string> args={"--ixml=g.ixml"}; if (f==1) args.push_back("--ixml-all-parses"); if (f==2) args.push_back("--ixml-try-to-recover"); args.push_back("in"); args.push_back("to-xml");
    cli::R a=cli::run(args); cli::R b;
    for (int k=0;k<3;++k) { b=cli::run(args); if (a.out!=b.out||a.status!=b.status||a.err!=b.err) mc::fail("two runs differ: %s and %s",xq::q(a.out+a.err).c_str(),xq::q(b.out+b.err).c_str()); }
    ixrun::Grammar gr(grams()[g].text); string xml; Out o=run(gr.p.doc.d,grams()[g].in[i],FL[f]);
    if (o.ok!=(a.status==0)) mc::fail("the library %s, the tool exits with %d: %s",o.ok?"accepts":"refuses",a.status,a.err.c_str());
    if (o.ok) { xq::Parsed p; if (o.tree!="[]"&&!xq::parse(p,a.out,XMQ_CONTENT_XML)) mc::fail("the output is not xml: %s",xq::q(a.out).c_str()); if (o.tree!="[]") { string t; tree_list(p.doc.x()->children,t); if ("["+t+"]"!=o.tree) mc::fail("the tool gives %s, the library %s",t.c_str(),o.tree.c_str()); }
        if (o.ambiguous!=(a.err.find("ambiguous")!=string::npos)) mc::fail("the warning differs: %s",a.err.c_str()); }
    mc::count(5);
}
int main(int argc, char **argv)
{
    xq::quiet();
    const char *c[]={"inputs with one parse","inputs with several distinct parses","inputs with several derivations of one tree","inputs outside the language","grammars with loops","uses compared with a fresh process"};
    for (int i=0;i<6;++i) mc::counter_names[i]=c[i];
    return mc::main_(argc,argv,"P17",{{"pure",pure},{"pure3",pure3},{"ops",ops},{"marks",marks},{"many",many},{"histories",histories},{"kept",kept},{"process",process}});
}
