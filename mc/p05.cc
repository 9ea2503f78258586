// P05: compact output and log lines are a single line that parses back.
#include "forms.h"
using namespace forms;
using mc::choose; using mc::run; using mc::fail;
static void oneline(const char *what, const string &s, bool endnl)
{
    string b=s; if (endnl) { if (b.empty()||b.back()!='\n') fail("%s does not end with a newline: %s",what,mc::esc(s).c_str()); b.pop_back(); }
    if (b.find('\n')!=string::npos||b.find('\r')!=string::npos) fail("%s contains a line break: %s",what,mc::esc(s).c_str());
}
static void check_doc(xmlDoc *x, int how)
{
    Doc d; adopt(d,x); string want=dump(d), out;
    if (how==2) { XMQLineConfig *lc=xmqNewLineConfig(); char *l=xmqLineDoc(lc,d.d); out=l?l:"(null)"; free(l); xmqFreeLineConfig(lc); }
    else { Set s; s.compact=true; if (how==1) { s.tab=s.non7=true; } out=print(d.d,s); }
    mc::outcome(out);
    oneline(how==2?"line":"compact output",out,how!=2);
    Parsed p; if (!parse(p,out)) fail("compact output does not parse: %s\n  tree: %s\n  xmq: %s",mc::esc(p.msg).c_str(),want.c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    if (got!=want&&known_loss(d.x(),got,true)) return;
    if (got!=want) fail("tree changed\n  xmq: %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
}
#define START D=newdoc(); N root=el((N)D,"root")
static void documents()
{
    int n=1+choose(3); int f[3]; for (int i=0;i<n;i++) f[i]=choose(NF); int how=n<3?choose(3):choose(2)*2;
    string d="children"; for (int i=0;i<n;i++) d+=string(i?", ":" ")+F[f[i]].name;
    if (!run(d+" how "+std::to_string(how))) return;
    START; for (int i=0;i<n;i++) F[f[i]].make(root);
    check_doc(D,how);
}
static void multiline()
{   // every place a line break can hide in
    static vector<string> V={"\n","a\nb","\na","a\n","'\n'","a\r\nb","  a\n\n\n b ","a\n//b\n*/","x"};
    int where=choose(7),v=choose(V.size()),w=choose(V.size()),how=choose(3),sib=choose(3);
    if (!run("line breaks in position "+std::to_string(where)+": "+q(V[v])+" "+q(V[w])+" sibling "+std::to_string(sib)+" how "+std::to_string(how))) return;
    if ((where==3||where==4)&&(V[v].find('\r')!=string::npos||V[w].find('\r')!=string::npos)) return;
    if (where==4&&(strchr(" \n",V[v][0])||strchr(" \n",V[w][0])||V[v][0]=='\''||V[w][0]=='\'')) return;
    START; if (sib==1) el(root,"s"); if (sib==2) tx(el(root,"s"),"v");
    switch (where) {
    case 0: tx(root,V[v]); el(root,"m"); tx(root,V[w]); break;
    case 1: tx(el(root,"e"),V[v]); tx(el(root,"f"),V[w]); break;
    case 2: { N e=el(root,"e"); at(e,"a",V[v].c_str()); at(e,"b",V[w].c_str()); break; }
    case 3: co(root,V[v]); co(root,V[w]); break;
    case 4: pi(root,"p",V[v].c_str()); pi(root,"q",V[w].c_str()); break;
    case 5: { N e=el(root,"e"); tx(e,V[v]); en(e,"foo"); tx(e,V[w]); break; }
    case 6: { N e=el(root,"e"); xmlNewNs(e,X(V[v]),X("p")); xmlNewNs(e,X(V[w]),X("q")); break; } }
    check_doc(D,how);
}
// what a printed log line must contain
static string log_of(const string &src, const vector<std::pair<string,string>> &kv, const string &root)
{
    Parsed p; if (!parse(p,src)) fail("log line is not xmq: %s\n  %s",mc::esc(p.msg).c_str(),mc::esc(src).c_str());
    string want="<"+root; if (kv.size()) { want+="["; for (size_t i=0;i<kv.size();i++) want+=string(i?",":"")+"<"+kv[i].first+(kv[i].second.size()?"["+q(kv[i].second)+"]":"")+">"; want+="]"; } want+=">";
    string got=dump(p.doc); if (got!=want) fail("log line content differs\n  line: %s\n  want: %s\n  got:  %s",mc::esc(src).c_str(),want.c_str(),got.c_str());
    return got;
}
static vector<string> LV={"","x","a b","'","''","a\nb","\n","'a","a'","é","=","{}","\t"," x ","x;","x/","&lt;","//","0","\r"};
static void lines()
{
    int n=choose(4); int v[3]; for (int i=0;i<n;i++) v[i]=choose(LV.size());
    string d; for (int i=0;i<n;i++) d+=" "+q(LV[v[i]]);
    if (!run("log line with"+d)) return;
    XMQLineConfig *lc=xmqNewLineConfig(); char *l=NULL;
    const char *s[3]; vector<std::pair<string,string>> kv; static const char *K[]={"a","key","z"};
    for (int i=0;i<n;i++) { s[i]=LV[v[i]].c_str(); kv.push_back({K[i],LV[v[i]]}); }
    switch (n) { case 0: l=xmqLinePrintf(lc,"car{","}"); break; case 1: l=xmqLinePrintf(lc,"car{","a=","%s",s[0],"}"); break;
        case 2: l=xmqLinePrintf(lc,"car{","a=","%s",s[0],"key=","%s",s[1],"}"); break; case 3: l=xmqLinePrintf(lc,"car{","a=","%s",s[0],"key=","%s",s[1],"z=","%s",s[2],"}"); break; }
    string out=l?l:""; free(l); xmqFreeLineConfig(lc); mc::outcome(out);
    oneline("log line",out,false); log_of(out,kv,"car");
}
static void formats()
{   // conversions, several arguments per value, and arguments after a long one
    static int L[]={0,1,500,1021,1022,1023,1024,1025,1026,2047,2048,2049,5000,70000};
    int a=choose(14),b=choose(5),form=choose(4);
    static const char *W[]={"x","a b","'","\n","é"};
    string s; while ((int)s.size()<L[a]) s+=W[b]; 
    if (!run("format "+std::to_string(form)+" with "+std::to_string(s.size())+" bytes of "+q(W[b]))) return;
    XMQLineConfig *lc=xmqNewLineConfig(); char *l=NULL; vector<std::pair<string,string>> kv; string root="car";
    switch (form) {
    case 0: l=xmqLinePrintf(lc,"car{","a=","%s%d",s.c_str(),42,"b=","%d:%s",7,"end","}"); kv={{"a",s+"42"},{"b","7:end"}}; break;
    case 1: l=xmqLinePrintf(lc,"car{","a=","%d",1,"b=","%s|%s",s.c_str(),s.c_str(),"c=","%ld",123456789012L,"}"); kv={{"a","1"},{"b",s+"|"+s},{"c","123456789012"}}; break;
    case 2: l=xmqLinePrintf(lc,"car=","%s %s %d",s.c_str(),"y",3); break;
    case 3: l=xmqLinePrintf(lc,"Message %s number %d",s.c_str(),12); break; }
    string out=l?l:""; free(l); xmqFreeLineConfig(lc); mc::outcome(out);
    oneline("log line",out,false);
    if (form<2) log_of(out,kv,root);
    else {
        Parsed p; if (!parse(p,out)) fail("log line is not xmq: %s",mc::esc(p.msg).c_str());
        string want=form==2?"<car["+q(s+" y 3")+"]>":"<log["+q("Message "+s+" number 12")+"]>"; string got=dump(p.doc);
        if (got!=want) fail("log line content differs\n  want: %s\n  got: %s",want.c_str(),got.c_str()); }
}
static void sizes()
{   // every dimension of a document, across the sizes of buffers and counters
    int kind=choose(forms::NSIZED), n=forms::pick_size(kind); int how=choose(3);
    if (!run("sizes kind "+std::to_string(kind)+" size "+std::to_string(n)+" how "+std::to_string(how))) return;
    check_doc(forms::sized(kind,n),how);
}
static void leaks()
{
    int form=choose(5); if (!run("repeated log line "+std::to_string(form))) return;
    mc::leakcheck([&]{ XMQLineConfig *lc=xmqNewLineConfig(); char *l=NULL; string big(3000,'x');
        switch (form) { case 0: l=xmqLinePrintf(lc,"car{","a=","%s",big.c_str(),"b=","%d",1,"}"); break; case 1: l=xmqLinePrintf(lc,"car=","%s",big.c_str()); break; case 2: l=xmqLinePrintf(lc,"Hello %s",big.c_str()); break;
            case 3: { Doc d; START; tx(root,"a\nb"); adopt(d,D); l=xmqLineDoc(lc,d.d); break; } case 4: l=xmqCompactQuote("a\n'b"); break; }
        free(l); xmqFreeLineConfig(lc); });
}
static void quotes_value()
{
    static vector<string> A={"'","\n"," ","x","&","=","/","\t","\r","(","{","é","#","*",";",")"};
    int n=choose(mc::tier_pick(4,5)+1); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("compact quote of "+q(s))) return;
    char *c=xmqCompactQuote(s.c_str()); string out=c?c:""; free(c); mc::outcome(out);
    oneline("compact quote",out,false);
    string src="r(k="+out+"){b="+out+" c="+out+"}"; Parsed p; if (!parse(p,src)) fail("%s does not parse: %s",mc::esc(src).c_str(),mc::esc(p.msg).c_str());
    string v=s.empty()?"":"["+q(s)+"]"; string want="<r @k"+(s.empty()?"":"="+q(s))+"[<b"+v+">,<c"+v+">]>",got=dump(p.doc);
    if (got!=want) fail("quote of %s is %s\n  want: %s\n  got:  %s",q(s).c_str(),mc::esc(out).c_str(),want.c_str(),got.c_str());
}
int main(int c, char **v) { quiet(); return mc::main_(c,v,"P05",{{"documents",documents},{"multiline",multiline},{"lines",lines},{"formats",formats},{"sizes",sizes},{"leaks",leaks},{"quotes",quotes_value}}); }
