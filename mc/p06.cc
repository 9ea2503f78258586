// P06: escape settings are honoured everywhere and never change the document.
#include "forms.h"
using namespace forms;
using mc::choose; using mc::run; using mc::fail;
static Set setting(int i) { Set s; s.nl=i&1; s.tab=i&2; s.non7=i&4; s.compact=i&8; if (i&16) s.indent=0; return s; }
// The text of the output that belongs to values: everything but names, comments and processing instructions.
static void check(xmlDoc *x, const Set &st, bool plainnames)
{
    Doc d; adopt(d,x); string want=dump(d), out=print(d.d,st); mc::outcome(out);
    if (plainnames) {
        if (st.non7) for (unsigned char c:out) if (c>126) fail("byte %d in output with non-ascii escaping: %s",c,mc::esc(out).c_str());
        if (st.tab) if (out.find('\t')!=string::npos) fail("tab in output with tab escaping: %s",mc::esc(out).c_str());
        for (unsigned char c:out) if (c<32&&c!='\n'&&c!='\t') fail("control byte %d in output: %s",c,mc::esc(out).c_str());
    }
    Parsed p; if (!parse(p,out)) fail("output does not parse: %s\n  tree: %s\n  xmq: %s",mc::esc(p.msg).c_str(),want.c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    if (got!=want&&known_loss(d.x(),got,st.compact)) return;
    if (got!=want) fail("document changed\n  xmq: %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
}
static int place(N root, int where, const string &s)
{   // returns 1 if the place is a value
    switch (where) {
    case 0: tx(root,s); return 1;
    case 1: tx(el(root,"e"),s); el(root,"f"); return 1;
    case 2: at(el(root,"e"),"k",s.c_str()); return 1;
    case 3: { N e=el(root,"e"); tx(e,s); en(e,"foo"); tx(e,s); return 1; }
    case 4: el(root,"a"); tx(root,s); el(root,"b"); return 1;
    case 5: { N e=el(root,"e"); xmlAttr *a=at(e,"k"); atx(a,s); ae(a,"foo"); at(e,"z","1"); tx(e,s); return 1; }
    case 6: xmlNewNs(el(root,"e"),X(s),X("p")); return 1;
    case 7: pi(root,"p",s.c_str()); return 1; }
    return 0;
}
static const char *WN[]={"body","element value","attribute","compound","between","attribute compound","namespace","pi"};
static void texts()
{
    static vector<string> A={"a"," ","\n","\t","é","'","€","😀","\r","=","&","\x7f"};
    int n=1+choose(mc::tier_pick(3,4)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    int where=choose(8),st=choose(32);
    if (where==7&&(strchr(" \n\t\r'",s[0])||s.back()=='\'')) return;
    Set S=setting(st);
    if (!run(string(WN[where])+" "+q(s)+" ("+setname(S)+")")) return;
    D=newdoc(); N root=el((N)D,"root"); place(root,where,s);
    bool novalnl=S.nl||S.compact;
    Doc d; adopt(d,D); string want=dump(d), out=print(d.d,S); mc::outcome(out);
    if (S.non7) for (unsigned char c:out) if (c>126) fail("byte %d in output with non-ascii escaping: %s",c,mc::esc(out).c_str());
    if (S.tab&&out.find('\t')!=string::npos) fail("tab in output with tab escaping: %s",mc::esc(out).c_str());
    for (unsigned char c:out) if (c<32&&c!='\n'&&c!='\t') fail("control byte %d in output: %s",c,mc::esc(out).c_str());
    if (novalnl) { // quotes must not span lines
        bool in=false; size_t i=0; int open=0; string o=out;
        while (i<o.size()) {
            if (o[i]=='\'') { size_t j=i; while (j<o.size()&&o[j]=='\'') j++; int k=j-i; if (!in) { if (k!=2) { in=true; open=k; } } else if (k>=open) in=false; i=j; continue; }
            if (o[i]=='\n'&&in) { // a quote on its own lines: only the line breaks next to its apostrophes are not content
                size_t a=i; bool first=a>0&&o[a-1]=='\''; size_t b=i+1; while (b<o.size()&&o[b]==' ') b++; bool last=b<o.size()&&o[b]=='\'';
                if (!first&&!last) fail("line break inside a quote with newline escaping: %s",mc::esc(out).c_str()); }
            i++; }
    }
    Parsed p; if (!parse(p,out)) fail("output does not parse: %s\n  tree: %s\n  xmq: %s",mc::esc(p.msg).c_str(),want.c_str(),mc::esc(out).c_str());
    string got=dump(p.doc);
    if (got!=want) fail("document changed\n  xmq: %s\n  want: %s\n  got:  %s",mc::esc(out).c_str(),want.c_str(),got.c_str());
}
static bool legal(unsigned c) { return c==9||c==10||c==13||(c>=0x20&&c<0xd800)||(c>=0xe000&&c<0xfffe)||(c>=0x10000&&c<=0x10ffff); }
static void codepoints()
{   // every code point of a block in one document; with and without context
    static const unsigned B=256; int nb=0x110000/B; int blk=choose(mc::thorough()?nb:400); int where=choose(3),ctx=choose(3),st=choose(4);
    unsigned base=mc::thorough()?blk*B:blk<300?blk*B:0x12c00+(blk-300)*0x2900/B*B;
    static int ST[]={4,12,0,15}; Set S=setting(ST[st]);
    char h[32]; snprintf(h,32,"U+%04X",base);
    if (!run(string("block ")+h+" "+WN[where]+" context "+std::to_string(ctx)+" ("+setname(S)+")")) return;
    D=newdoc(); N root=el((N)D,"root"); vector<unsigned> cps;
    for (unsigned c=base;c<base+B;c++) if (legal(c)) { string s=utf8(c); if (ctx==1) s="a"+s+"b"; if (ctx==2) s=s+" "+s+"'"; place(root,where==0?1:where,s); cps.push_back(c); }
    if (cps.empty()) return;
    Doc d; adopt(d,D); string want=dump(d), out=print(d.d,S); mc::outcome(out);
    if (S.non7) {
        for (unsigned char c:out) if (c>126) fail("byte %d in output with non-ascii escaping, block %s",c,h);
        // every code point above 126 appears as its own decimal reference
        for (unsigned c:cps) if (c>126) { string r="&#"+std::to_string(c)+";"; if (out.find(r)==string::npos) fail("U+%04X is not written as %s",c,r.c_str()); }
    } else for (unsigned c:cps) if (c>=0xa0&&out.find(utf8(c))==string::npos) fail("U+%04X is not written as itself",c);
    Parsed p; if (!parse(p,out)) fail("output does not parse: %s",mc::esc(p.msg).c_str());
    if (dump(p.doc)!=want) { string g=dump(p.doc); size_t i=0; while (i<g.size()&&i<want.size()&&g[i]==want[i]) i++; fail("document changed near want %s got %s",want.substr(i>20?i-20:0,60).c_str(),g.substr(i>20?i-20:0,60).c_str()); }
}
static void trees()
{
    int a=choose(NF),b=choose(NF),st=choose(32); Set S=setting(st);
    if (!run(string(F[a].name)+", "+F[b].name+" ("+setname(S)+")")) return;
    D=newdoc(); N root=el((N)D,"root"); F[a].make(root); F[b].make(root); tx(el(root,"z"),"é\té\n"); check(D,S,true);
}
static void sizes()
{   // every dimension of a document, across the sizes of buffers and counters
    int kind=choose(forms::NSIZED), n=forms::pick_size(kind); Set S=setting(choose(16));
    if (!run("sizes kind "+std::to_string(kind)+" size "+std::to_string(n)+" ("+setname(S)+")")) return;
    check(forms::sized(kind,n),S,true);
}
int main(int c, char **v) { quiet(); return mc::main_(c,v,"P06",{{"texts",texts},{"codepoints",codepoints},{"trees",trees},{"sizes",sizes}}); }
