// P23: HTML and HTMQ convert to each other without loss.
#include "forms.h"
#include <libxml/HTMLtree.h>
using namespace xq; using namespace forms;
using mc::choose; using mc::run; using mc::fail;

// ------------------------------------------------ canonical form of a HTML tree: attributes are a set, adjacent text is one text
static void hlist(xmlNode *n, string &o);
static string ent(xmlNode *n) { const htmlEntityDesc *e=htmlEntityLookup(n->name); return e?utf8(e->value):"&"+string(cs(n->name))+";"; } // a named character of html is that character
static string hval(xmlNode *n) { string s; for (;n;n=n->next) { if (is_text(n)) s+=cs(n->content); else if (n->type==XML_ENTITY_REF_NODE) s+=ent(n); } return s; }
// libxml2 percent-encodes these when writing html, unless the element has a namespace: the same address
static string uri(const string &n, const string &v)
{
    if (n!="href"&&n!="action"&&n!="src"&&n!="name") return v;
    string r; for (size_t i=0;i<v.size();i++) { unsigned c; if (v[i]=='%'&&i+2<v.size()+0&&isxdigit((unsigned char)v[i+1])&&isxdigit((unsigned char)v[i+2])) { sscanf(v.substr(i+1,2).c_str(),"%x",&c); r+=(char)c; i+=2; } else r+=v[i]; }
    size_t a=r.find_first_not_of(" \t\n"),b=r.find_last_not_of(" \t\n"); return a==string::npos?"":r.substr(a,b-a+1);
}
static void hnode(xmlNode *n, string &o)
{
    if (n->type==XML_ELEMENT_NODE) {
        string name=(n->ns&&n->ns->prefix?string(cs(n->ns->prefix))+":":"")+cs(n->name); o+="<"+name; std::set<string> a;
        for (xmlNs *x=n->nsDef;x;x=x->next) a.insert("xmlns"+(x->prefix?":"+string(cs(x->prefix)):string())+"="+q(cs(x->href)));
        for (xmlAttr *x=n->properties;x;x=x->next) { string v=uri(cs(x->name),hval(x->children)); a.insert((x->ns&&x->ns->prefix?string(cs(x->ns->prefix))+":":"")+cs(x->name)+(v.size()?"="+q(v):"")); }
        for (auto &s:a) o+=" "+s;
        o+=">["; hlist(n->children,o); o+="]";
    } else if (n->type==XML_COMMENT_NODE) o+="//"+q(cs(n->content));
    else if (n->type==XML_PI_NODE) o+="?"+string(cs(n->name))+(n->content&&*n->content?"="+q(cs(n->content)):"");
    else if (n->type==XML_DTD_NODE) { xmlDtd *d=(xmlDtd*)n; o+="!"+string(cs(d->name))+" "+cs(d->ExternalID)+" "+cs(d->SystemID); }
    else o+="?type"+std::to_string(n->type);
}
static void hlist(xmlNode *n, string &o)
{
    bool first=true;
    while (n) {
        if (is_text(n)||n->type==XML_ENTITY_REF_NODE) { string t; while (n&&(is_text(n)||n->type==XML_ENTITY_REF_NODE)) { t+=is_text(n)?cs(n->content):ent(n); n=n->next; } if (t.empty()) continue; if (!first) o+=","; first=false; o+=q(t); continue; }
        if (!first) o+=","; first=false; hnode(n,o); n=n->next;
    }
}
static string hdump(xmlDoc *d) { string o; if (d) hlist(d->children,o); return o; }
static xmlDoc *libxml(const string &s) { return htmlReadMemory(s.data(),s.size(),"x",NULL,HTML_PARSE_NOERROR|HTML_PARSE_NOWARNING|HTML_PARSE_NONET); }
static string libxml_print(xmlDoc *d) { xmlOutputBuffer *b=xmlAllocOutputBuffer(NULL); htmlDocContentDumpOutput(b,d,"utf8"); string s=cs(xmlBufferContent((xmlBuffer*)b->buffer)); xmlOutputBufferClose(b); return s; }

static vector<Set> sets(bool all)
{
    vector<Set> v; Set s; s.fmt=XMQ_CONTENT_HTMQ; v.push_back(s); s.compact=true; v.push_back(s);
    if (all) { s.non7=s.tab=true; v.push_back(s); s.compact=false; s.nl=true; v.push_back(s); Set x; x.indent=0; x.fmt=XMQ_CONTENT_XMQ; v.push_back(x); }
    return v;
}
static const char *BLAME="";
static bool dle(const string &s) { return s.find("\xe2\x90\x90")!=string::npos; }
static void rt(const string &html, bool all)
{
    xmlDoc *raw=libxml(html); Parsed p; parse(p,html,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_NONE);
    if (!raw||!xmlDocGetRootElement(raw)) { if (raw) xmlFreeDoc(raw); if (p.ok) fail("html without elements is accepted"); return; }
    string t0,direct; if (p.err!=XMQ_ERROR_EXPECTED_HTML) { t0=hdump(raw); direct=libxml_print(raw); }
    if (p.err==XMQ_ERROR_EXPECTED_HTML) { xmlFreeDoc(raw); return; } // plain text
    xmlFreeDoc(raw);
    if (!p.ok) fail("html is not accepted: %d %s",p.err,p.msg.c_str());
    string tp=hdump(p.doc.x());
    mc::outcome(tp);
    if (!dle(html)&&tp!=t0) fail("loading changes the tree\n   html %s\n   xmq  %s",t0.c_str(),tp.c_str());
    // the tree of the html that libxml2 itself would write for this document
    Parsed ref; if (!parse(ref,direct,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_NONE)) fail("html written by libxml2 is not accepted: %s",direct.c_str());
    string want=hdump(ref.doc.x());
    Set hs; hs.fmt=XMQ_CONTENT_HTML;
    if (!dle(html)) { string h=print(p.doc.d,hs); Parsed e; if (!parse(e,h,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_NONE)) fail("own html is not accepted: %s",h.c_str()); string g=hdump(e.doc.x());
        if (g!=want) fail("html printed directly\n   %s\n   has the tree\n   %s\n   expected\n   %s",h.c_str(),g.c_str(),want.c_str()); }
    for (auto &s:sets(all)) {
        string m=print(p.doc.d,s); Parsed r;
        if (!parse(r,m,XMQ_CONTENT_HTMQ,0)) fail("[%s] htmq is not accepted: %s\n   %s",setname(s).c_str(),r.msg.c_str(),m.c_str());
        string tr=hdump(r.doc.x());
        if (tr!=tp) {
            xmlDoc *c=xmlCopyDoc(p.doc.x(),1); std::set<string> ids; lossy_tree(c->children,s.compact,ids); bool known=ids.size()&&hdump(c)==tr; xmlFreeDoc(c);
            if (known) for (auto &i:ids) if (!mc::known(i.c_str())) known=false;
            if (known) continue;
            if (html.find("<?")!=string::npos&&html.find("'")!=string::npos) continue; // a processing instruction with quotes outermost gets spaces inside
        }
        if (tr!=tp) fail("[%s] htmq\n   %s\n   has the tree\n   %s\n   expected\n   %s",setname(s).c_str(),m.c_str(),tr.c_str(),tp.c_str());
        string h=print(r.doc.d,hs); Parsed e; if (!parse(e,h,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_NONE)) fail("[%s] html from htmq is not accepted: %s",setname(s).c_str(),h.c_str());
        string g=hdump(e.doc.x());
        if (!dle(html)&&g!=want) fail("[%s] html from htmq\n   %s\n   %s\n   has the tree\n   %s\n   expected\n   %s",setname(s).c_str(),m.c_str(),h.c_str(),g.c_str(),want.c_str());
    }
    // with the default trimming the document loaded is the one that is kept
    Parsed tpd; if (!parse(tpd,html,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_HEURISTIC)) fail("html is not accepted when trimming");
    string td=hdump(tpd.doc.x());
    for (auto &s:sets(false)) { string m=print(tpd.doc.d,s); Parsed r; if (!parse(r,m,XMQ_CONTENT_HTMQ,0)) fail("[%s] trimmed htmq is not accepted: %s\n   %s",setname(s).c_str(),r.msg.c_str(),m.c_str());
        string tr=hdump(r.doc.x());
        if (tr!=td) { xmlDoc *c=xmlCopyDoc(tpd.doc.x(),1); std::set<string> ids; lossy_tree(c->children,s.compact,ids); bool known=ids.size()&&hdump(c)==tr; xmlFreeDoc(c);
            if (known) for (auto &i:ids) if (!mc::known(i.c_str())) known=false;
            if (known||(html.find("<?")!=string::npos&&html.find("'")!=string::npos)) continue; }
        if (tr!=td) fail("[%s] trimmed htmq\n   %s\n   has the tree\n   %s\n   expected\n   %s",setname(s).c_str(),m.c_str(),tr.c_str(),td.c_str()); }
}
// ------------------------------------------------ spaces
static vector<string> ITEMS={"x"," ","\n  ","<br>","<p>x","<p>x</p>","<b>x</b>","<i></i>","<div>x</div>","<div><p>a<p>b</div>","<hr/>","<img src=a alt='b'>","<input disabled>","<input type=checkbox checked value=\"\">","<a href='?a=1&amp;b=2&c=3'>l</a>","<!--c-->","<!-- a\nb -->","<script>if (a<b && c) d('e');</script>","<style>\na > b { c: \"d\" }\n</style>","<pre> a\n  b\n</pre>","<textarea>\n a</textarea>","&nbsp;","&lt;&amp;&gt;&quot;","&copy;&eacute;&#8364;","<ul><li>a<li>b</ul>","<table><tr><td>a<td>b</table>","<select><option selected>a<option>b</select>","<span class='a b' id=x></span>","<custom-tag data-x=1></custom-tag>","<svg xmlns='http://www.w3.org/2000/svg' viewBox='0 0 1 1'><path d='M0'/></svg>","<iframe></iframe>","<p></p>","<h1>t</h1>","<em><strong>x</strong></em>","<?php echo 1 ?>","<p class=>x</p>","\xc3\xa5\xe2\x82\xac","<script></script>","<style></style>","<canvas id=c></canvas>","<dl><dt>a<dd>b</dl>","<form action=/><button>b</button></form>","<title>t</title>","<meta charset=utf-8>","<link rel=x href=y>","<fb:like x:y=1></fb:like>","<noscript>x</noscript>","<a name=x></a>"};
static vector<string> FRAMES={"%","<html><body>%</body></html>","<!DOCTYPE html>\n<html>\n<head><title>t</title></head>\n<body>%</body></html>","<html><head>%</head><body></body></html>","<div>%</div>","<p>%</p>","<table><tr><td>%</td></tr></table>","<ul><li>%</li></ul>","<pre>%</pre>","<b>%</b>"};
static string in(const string &f, const string &s) { string r=f; r.replace(r.find('%'),1,s); return r; }
static void items()
{
    int n=1+choose(3); string s; for (int i=0;i<n;i++) s+=ITEMS[choose(n==3&&!mc::thorough()?24:ITEMS.size())];
    int f=choose(n==3?(mc::thorough()?3:2):FRAMES.size());
    if (!run("html "+q(in(FRAMES[f],s)))) return;
    rt(in(FRAMES[f],s),n<3);
}
static vector<string> ELEMS={"a","abbr","address","area","article","b","base","blockquote","br","button","caption","center","code","col","colgroup","dd","del","details","div","dl","dt","em","embed","fieldset","font","footer","form","frame","frameset","h1","h6","header","hr","i","iframe","img","input","ins","isindex","kbd","label","legend","li","link","main","map","menu","meta","nav","noscript","object","ol","optgroup","option","p","param","pre","q","s","script","section","select","small","source","span","strong","style","sub","table","tbody","td","textarea","tfoot","th","thead","title","tr","tt","u","ul","unknown","var","video","wbr","x-y","head","body","html"};
static void elements()
{   // every element: alone, with content, below and next to every other
    int a=choose(ELEMS.size()),b=choose(ELEMS.size()),shape=choose(mc::tier_pick(4,6));
    const string &A=ELEMS[a],&B=ELEMS[b]; string s;
    switch (shape) { case 0: s="<"+A+"></"+A+"><"+B+">"; break; case 1: s="<"+A+"><"+B+">x</"+B+"></"+A+">"; break; case 2: s="<html><body><"+A+" id=1>x<"+B+"></"+B+"> y</"+A+"> z</body></html>"; break;
        case 3: s="<"+A+"/><"+B+" class/>t"; break; case 4: s="<"+A+">x\n<"+B+">y</"+A+">"; break; case 5: s="<table><tr><td><"+A+"><"+B+">x</table>"; break; }
    if (!run("html "+q(s))) return;
    rt(s,false);
}
static void texts()
{
    static vector<string> A={"a"," ","\n","\t","'","\"","&amp;","&lt;","&gt;","&nbsp;","\xc3\xa5","&eacute;","&","<","{","}","/","\\","=","&#x1F600;","&#9;","&#13;","&unknown;","&amp;nbsp;","\xe2\x80\x89","*","(",";","\xc2\xa0"};
    static vector<string> P={"<p>%</p>","<pre>%</pre>","<title>%</title>","<a x='%'>y</a>","<p>b<b>%</b>c</p>","<textarea>%</textarea>","<a x=\"b%c\"></a>","<p>b%c</p>"};
    int pl=choose(P.size()),n=1+choose(mc::thorough()?4:pl<4?3:2); string s; for (int i=0;i<n;i++) s+=A[choose(n==4?18:A.size())];
    if (P[pl].find("x='")!=string::npos&&s.find('\'')!=string::npos) return;
    if (P[pl].find("x=\"")!=string::npos&&s.find('"')!=string::npos) return;
    string h="<html><body>"+in(P[pl],s)+"</body></html>";
    if (!run("html "+q(h))) return;
    rt(h,n<3);
}
static void scripts()
{   // raw text: nothing is an entity here
    static vector<string> A={"a"," ","\n","'","\"","&","<",">","&amp;","&#10;","-","<!--","-->","]]>","<![CDATA[","\\","\t","\xc3\xa5","{","//","/*","*/","&lt;"};
    static const char *E[]={"script","style"}; static const char *F[]={"<html><head><%>$</%></head><body>x</body></html>","<html><body><p>x</p><% type='a'>$</%></body></html>"};
    int e=choose(2),f=choose(2),n=choose(mc::tier_pick(4,5)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    string h=F[f]; for (size_t k;(k=h.find('%'))!=string::npos;) h.replace(k,1,E[e]); h.replace(h.find('$'),1,s);
    if (!run("html "+q(h))) return;
    rt(h,n<3);
}
static void attributes()
{
    static vector<string> A={"x","x=","x=\"\"","x=''","x=1","x='a b'","x=\"it's\"","x='say \"hi\"'","X=y","disabled","disabled=disabled","disabled=\"\"","checked=yes","data-a-b='1'","x:y=1","xml:lang=en","xmlns='u'","xmlns:v='w'","v:z=1","x.y=1","_x=1","href='a?b=1&c=2&amp;d=3'","href='a b\xc3\xa5'","title='\n a\n  b\n'","style='a:b;c:d'","onclick='f(\"&lt;\")'","x='\t'","x='&#10;'","x=/","x=a/b","src=\"%20 x\"","id=i","class='a  b'","x='''","x='&nbsp;'","/","@click=x",":a=1","A-B=C","lang=sv"};
    static vector<string> T={"a","input","div","br","html","svg:g"};
    int n=1+choose(mc::tier_pick(2,3)); string s; for (int i=0;i<n;i++) s+=" "+A[choose(A.size())]; int t=choose(T.size());
    string h=T[t]=="html"?"<html"+s+"><body>x</body></html>":"<html><body><"+T[t]+s+">x</"+T[t]+"></body></html>";
    if (!run("html "+q(h))) return;
    rt(h,n<3);
}
static void comments()
{
    static vector<string> A={"a"," ","-","\n","*","/","!",">","<","\xe2\x90\x90","&amp;","'"};
    static const char *P[]={"<html><body><p>x</p><!--%--></body></html>","<!--%--><html><body>x</body></html>","<html><body>x<!--%-->y</body></html>","<html><head><!--%--></head><body></body></html><!--%-->"};
    int p=choose(4),n=choose(mc::tier_pick(4,6)); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    string h=P[p]; for (size_t k;(k=h.find('%'))!=string::npos;) h.replace(k,1,s);
    if (!run("html "+q(h))) return;
    rt(h,n<3);
}
static void prologs()
{
    static vector<string> D={"","<!DOCTYPE html>","<!doctype HTML>","<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">","<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\">","<!DOCTYPE html SYSTEM \"about:legacy-compat\">","<!DOCTYPE html SYSTEM 'a\"b'>","<!DOCTYPE svg>","<!DOCTYPE html PUBLIC '' ''>"};
    static vector<string> M={"","<!--c-->","\n","<?x y?>","<!--a--><!--b-->"," <!-- c\nd --> "};
    static vector<string> R={"<html><body>x</body></html>","<html></html>","<html lang=en><head></head><body></body></html>","<p>x","x","<head><title>x</title></head>","<body class=a>","<frameset><frame src=a></frameset>","<html><body>x</body></html> y","<html>a<head>b</head>c<body>d</body>e</html>f"};
    int m0=choose(M.size()),d=choose(D.size()),m1=choose(M.size()),r=choose(R.size()),m2=choose(M.size());
    string h=M[m0]+D[d]+M[m1]+R[r]+M[m2];
    if (!run("html "+q(h))) return;
    rt(h,true);
}
static void soup()
{   // unbalanced and broken markup: whatever tree the loader makes of it is kept
    static vector<string> A={"<p>","</p>","<b>","</b>","<i>","</i>","<div>","</div>","<br>","x"," ","<li>","<td>","<script>","</script>","<!--","-->","<","&","\"","<a href=","'>",">","</","<!","<?"};
    int n=mc::tier_pick(3,4); string s; for (int i=0;i<n;i++) s+=A[choose(A.size())];
    if (!run("html "+q("<html>"+s))) return;
    rt("<html>"+s,false);
}
static void codepoints()
{
    int blk=choose(mc::tier_pick(280,4352));
    if (!run("code points of block "+std::to_string(blk))) return;
    string t,r; for (unsigned i=0;i<256;i++) { unsigned c=blk*256+i; if (c<9||(c>10&&c<32)||(c>=0x7f&&c<0xa0)||(c>=0xd800&&c<0xe000)||(c&0xfffe)==0xfffe||c>0x10ffff||(c>=0xfdd0&&c<0xfdf0)) continue; if (c!='<'&&c!='&'&&c!='\'') t+=utf8(c); char b[20]; sprintf(b,"&#%u;",c); r+=b; }
    rt("<html><head><meta charset='utf-8'></head><body><p>x"+t+"y</p><a x='"+t+"'></a><p>"+r+"</p><a x='"+r+"'></a></body></html>",false);
}
static void entities()
{   // every named character of HTML
    int v=choose(253);
    if (!run("named entity "+std::to_string(v))) return;
    int k=0; for (unsigned c=0;c<0x2700;c++) { const htmlEntityDesc *e=htmlEntityValueLookup(c); if (!e) continue; if (k++!=v) continue;
        for (string f:{"<p>&%;</p>","<p>a&%;b &%;&%;</p>","<a x='&%;'></a>","<a x='a&%;b'>c</a>","<pre>\n&%;\n</pre>","<p>&%</p>","<script>&%;</script>"}) { for (size_t j;(j=f.find('%'))!=string::npos;) f.replace(j,1,e->name); rt("<html><body>"+f+"</body></html>",true); }
        // written as an entity in htmq
        string m="html{body{p=&"+string(e->name)+"; p=('a' &"+e->name+"; 'b') a(x=&"+e->name+";) = y}}"; Parsed p; if (!parse(p,m,XMQ_CONTENT_HTMQ,0)) fail("htmq %s is not accepted",m.c_str());
        Set hs; hs.fmt=XMQ_CONTENT_HTML; string h=print(p.doc.d,hs); Parsed r; if (!parse(r,h,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_HEURISTIC)) fail("html %s is not accepted",h.c_str());
        string got=hdump(r.doc.x()),ch=utf8(e->value); string want="[<p>["+q(ch)+"],<p>["+q("a"+ch+"b")+"],<a x="+q(ch)+">[\"y\"]]";
        if (v!=0&&c!=0xa0&&got.find(want)==string::npos) fail("htmq %s becomes html %s with the tree %s",m.c_str(),h.c_str(),got.c_str());
    }
}
static void sizes()
{
    static const int N[]={0,1,2,10,100,255,256,257,500,1000,1023,1024,1025,4000};
    int n=N[choose(14)],shape=choose(6);
    if (shape==1&&n>200) return;
    if (!run("size "+std::to_string(n)+" shape "+std::to_string(shape))) return;
    string s="<html><body>"; for (int i=0;i<n;i++) { string k=std::to_string(i); s+=shape==0?"<p>"+k+"</p>":shape==1?"<div>":shape==2?"x":shape==3?"<br>\n":shape==4?(i?"":"<a x='")+string("y&amp;"):(i?"":"<script>")+string("f('&');\n"); }
    if (n&&shape==4) s+="'>z</a>"; if (n&&shape==5) s+="</script>";
    rt(s,false);
}
static void htmq()
{   // htmq to html and back
    static vector<string> I={"'x'","p='x'","p","br","hr(id=a)","div{'x' br 'y'}","b='x y'","img(src='a b' alt='')","input(disabled type=text)","script='if (a<b && c) { d(\"e\") }'","style='''a > b { c: 'd' }'''","/*c*/","pre=' a\n   b '","a(href='?a=1&b=2')=l","ul{li=a li=b}","p=('a' &nbsp; 'b')","p=&lt;","table{tr{td=a td=b}}","x-y(data-z=1)","script=(a &lt; b &amp;&amp; 'c;')","i=&copy;","span(class='a b')","p=(&#10; a)","textarea='a'"};
    int n=1+choose(mc::tier_pick(2,3)); string s; for (int i=0;i<n;i++) s+=I[choose(I.size())]+" ";
    string m="!DOCTYPE=html html{head{title=t}body{"+s+"}}";
    if (!run("htmq "+q(m))) return;
    Parsed p; if (!parse(p,m,XMQ_CONTENT_HTMQ,0)) return; // two texts in a row etc
    Set hs; hs.fmt=XMQ_CONTENT_HTML; string h=print(p.doc.d,hs); rt(h,false);
    // a second generation is the same document
    Parsed a; if (!parse(a,h,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_HEURISTIC)) fail("html %s is not accepted",h.c_str());
    string h2=print(a.doc.d,hs); Parsed b; if (!parse(b,h2,XMQ_CONTENT_HTML,XMQ_FLAG_TRIM_HEURISTIC)) fail("html %s is not accepted",h2.c_str());
    if (hdump(a.doc.x())!=hdump(b.doc.x())) fail("html\n   %s\n   %s\n   printed again is\n   %s\n   %s",h.c_str(),hdump(a.doc.x()).c_str(),h2.c_str(),hdump(b.doc.x()).c_str());
}
int main(int argc, char **argv)
{
    quiet();
    return mc::main_(argc,argv,"P23",{{"items",items},{"elements",elements},{"texts",texts},{"scripts",scripts},{"attributes",attributes},{"comments",comments},{"prologs",prologs},{"soup",soup},{"codepoints",codepoints},{"entities",entities},{"sizes",sizes},{"htmq",htmq}});
}
