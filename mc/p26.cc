// P26: transforms, validation and statistics of the command line tool against libxslt, libxml2 and the document.
#include "forms.h"
#include "cli.h"
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/xsltutils.h>
#include <libxslt/documents.h>
#include <libxml/xmlschemas.h>
#include <map>
using namespace xq; using namespace forms; using mc::choose; using mc::run; using mc::fail;
static const char *XSL="http://www.w3.org/1999/XSL/Transform";
static std::map<string,string> other; // files a stylesheet can load, as xml
static xmlDoc *readxml(const string &s, const char *url="x", int more=0) { return xmlReadMemory(s.data(),s.size(),url,NULL,more|XML_PARSE_NOENT|XML_PARSE_NOERROR|XML_PARSE_NOWARNING); }
static xmlDoc *loader(const xmlChar *uri, xmlDict*, int, void*, xsltLoadType)
{
    string u=(const char*)uri; auto i=other.find(u); if (i==other.end()) return NULL; return readxml(i->second,u.c_str());
}
static void start_in_scratch()
{
    static pid_t p=0; if (p==getpid()) return; p=getpid(); if (chdir(mc::scratch.c_str())) fail("no scratch directory");
    xsltSetGenericErrorFunc(NULL,quiet_); xsltSetLoaderFunc(loader); xmlSetGenericErrorFunc(NULL,quiet_); mkdir("dir",0755);
}
// what libxslt makes of it; false: it is a failure
static bool transform(xmlDoc *in, const string &sheet, const vector<string> &params, Doc &out)
{
    xmlDoc *sd=readxml(sheet,NULL,XML_PARSE_NOCDATA); // CDATA is text like the text around it
    if (!sd) fail("harness: the stylesheet is not xml: %s",sheet.c_str());
    xsltStylesheet *st=xsltParseStylesheetDoc(sd); if (!st) { xmlFreeDoc(sd); return false; }
    if (st->errors) { xsltFreeStylesheet(st); return false; }
    vector<const char*> pv; for (auto &p:params) pv.push_back(p.c_str()); pv.push_back(NULL);
    xsltTransformContext *ctx=xsltNewTransformContext(st,in); xmlDoc *r=xsltApplyStylesheetUser(st,in,params.size()?pv.data():NULL,NULL,NULL,ctx);
    bool ok=r&&ctx->state==XSLT_STATE_OK; xsltFreeTransformContext(ctx);
    if (ok) adopt(out,r); else if (r) xmlFreeDoc(r);
    xsltFreeStylesheet(st); return ok;
}
static string as_xmq(const string &xml) { Doc d; if (!xmqParseBufferWithType(d.d,xml.c_str(),NULL,NULL,XMQ_CONTENT_XML,XMQ_FLAG_TRIM_NONE)) fail("harness: not xml: %s",xml.c_str()); Set s; return print(d.d,s); }
static string sheet(const string &templates, const string &top="") { return string("<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"")+XSL+"\">"+top+templates+"</xsl:stylesheet>"; }
static void expect(const vector<string> &av, const cli::R &r, bool ok, const string &want)
{
    mc::outcome(r.out); mc::count(ok?0:1);
    if (!ok) { if (!r.status) fail("libxslt or libxml2 refuses this, but the exit status is 0: %s\n  stdout %s",cli::join(av).c_str(),mc::esc(r.out).c_str()); if (r.err.empty()&&r.out.empty()) fail("a silent failure: %s",cli::join(av).c_str()); return; }
    if (r.status) fail("the exit status is %d: %s\n  stderr %s\n  want %s",r.status,cli::join(av).c_str(),mc::esc(r.err).substr(0,400).c_str(),mc::esc(want).c_str());
    if (r.out!=want) fail("the output differs: %s\n  want %s\n  got  %s\n  stderr %s",cli::join(av).c_str(),mc::esc(want).c_str(),mc::esc(r.out).c_str(),mc::esc(r.err).substr(0,200).c_str());
}
static string printed(Doc &d, int how) { Set s; if (how==1) s.fmt=XMQ_CONTENT_XML; if (how==2) { s.compact=true; s.indent=0; } if (how==3) s.fmt=XMQ_CONTENT_JSON; return print(d.d,s); }
static void to(vector<string> &av, int how) { if (how==1) av.push_back("to-xml"); if (how==2) { av.push_back("to-xmq"); av.push_back("--compact"); } if (how==3) av.push_back("to-json"); }
struct In { const char *name; const char *text; };
static const In IN[]={
    {"i.xmq","a(x=1) { b=1 c='x y' // note\n b='two' d { e='''it's''' } }"},
    {"i.xml","<a x='1' xmlns:p='urn:p'><b>1</b> text <p:b k='v'>&lt;<![CDATA[<z>]]></p:b><!--k--><?pi c?><c>\n  three\n  lines\n</c></a>"},
    {"i.json","{\"a\":{\"b\":[1,\"x\",true],\"c\":null,\"_x\":\"1\"},\"b\":2.5}"},
    {"i.html","<html><body><p class=k>one<br>two &eacute; &amp;</p><script>a<b</script></body></html>"},
    {"multi.xmq","a=1 b=2 'top' c(x=2)"},
    {"ent.xmq","a { b=('x'&#10;'y') &nbsp; c=&unknown; }"},
};
static xmlDoc *load(Doc &d, const In &in, int flags=0) { if (!xmqParseBufferWithType(d.d,in.text,NULL,NULL,XMQ_CONTENT_DETECT,flags)) fail("harness: %s: %s",in.name,xmqDocError(d.d)); return d.x(); }
static const vector<string> BODY={
    "<out><xsl:apply-templates/></out>","<xsl:apply-templates select=\"//b\"/>","<xsl:copy-of select=\"*/@x\"/>","<xsl:copy-of select=\".\"/>","text &lt;&amp;&#10; more","<xsl:text>  </xsl:text>",
    "<xsl:text disable-output-escaping=\"yes\">&lt;x&gt;</xsl:text>","<xsl:comment>c -d</xsl:comment>","<xsl:processing-instruction name=\"p\">q r</xsl:processing-instruction>",
    "<e a=\"{*/@x}{count(*)}\" xmlns:n=\"urn:n\" n:b=\"&lt;&quot;'\"/>","<xsl:element name=\"n:d\" namespace=\"urn:d\"><xsl:attribute name=\"k\">v&#10;w</xsl:attribute></xsl:element>",
    "<xsl:for-each select=\"*/*\"><xsl:sort select=\"name()\" order=\"descending\"/><i n=\"{name()}\"><xsl:value-of select=\".\"/></i></xsl:for-each>",
    "<xsl:choose><xsl:when test=\"count(*/*) &gt; 1\">many</xsl:when><xsl:otherwise><few/></xsl:otherwise></xsl:choose>","<xsl:variable name=\"v\"><w>q</w></xsl:variable><xsl:copy-of select=\"$v\"/><xsl:value-of select=\"string-length($v)\"/>",
    "<![CDATA[<z>&]]>","<xsl:number value=\"3+1\" format=\"i\"/>","<xsl:call-template name=\"t\"><xsl:with-param name=\"p\" select=\"'a'\"/></xsl:call-template>","<pre>\n  kept\n   text\n</pre>","<xsl:if test=\"not(b)\">no</xsl:if>","<!-- in the sheet --><q/>",
    "<xsl:value-of select=\"concat('&quot;',&quot;'&quot;,string(.))\"/>","<xsl:apply-templates mode=\"m\" select=\"//@*|//text()\"/>","<s xml:space=\"preserve\"> <t/> </s>","<xsl:copy><xsl:apply-templates mode=\"id\" select=\"@*|node()\"/></xsl:copy>",
};
static const vector<string> TOP={"","<xsl:output method=\"xml\" cdata-section-elements=\"b\" doctype-system=\"x.dtd\"/>","<xsl:output method=\"text\"/>","<xsl:output method=\"html\"/>","<xsl:strip-space elements=\"*\"/>","<xsl:key name=\"k\" match=\"*\" use=\"name()\"/><xsl:variable name=\"g\" select=\"count(key('k','b'))\"/>","<xsl:template match=\"text()\"/>"};
static const char *COMMON="<xsl:template name=\"t\"><xsl:param name=\"p\"/><xsl:param name=\"d\">dd</xsl:param><n><xsl:value-of select=\"$p\"/>,<xsl:value-of select=\"$d\"/></n></xsl:template><xsl:template match=\"@*|node()\" mode=\"m\">[<xsl:value-of select=\"name()\"/>:<xsl:value-of select=\".\"/>]</xsl:template><xsl:template match=\"@*|node()\" mode=\"id\"><xsl:copy><xsl:apply-templates mode=\"id\" select=\"@*|node()\"/></xsl:copy></xsl:template><xsl:template match=\"b\"><B><xsl:value-of select=\".\"/></B></xsl:template>";
static void one(const string &sh, int fmt, const In &in, int how, const vector<string> &opts, const vector<string> &params, const char *name="t")
{
    start_in_scratch();
    string file=string(name)+(fmt?".xslq":".xslt"); cli::put(file,fmt?as_xmq(sh):sh); cli::put(in.name,in.text);
    Doc d,o; xmlDoc *x=load(d,in); bool ok=transform(x,sh,params,o);
    vector<string> av={in.name,"transform"}; for (auto &s:opts) av.push_back(s); av.push_back(file); to(av,how);
    cli::R r=cli::run(av); expect(av,r,ok,ok?printed(o,how):"");
}
static void sheets()
{
    int a=choose(BODY.size()),b=choose(BODY.size()+1)-1,t=choose(TOP.size()),in=choose(6),fmt=choose(2); if (t&&b>=0&&!mc::thorough()&&(a+b+in)%5) return; int how=(a+b+1+in)%3;
    if (!run("bodies "+std::to_string(a)+" "+std::to_string(b)+" top "+std::to_string(t)+" input "+IN[in].name+" sheet "+(fmt?"xmq":"xml")+" output "+std::to_string(how))) return;
    one(sheet("<xsl:template match=\"/\"><r>"+BODY[a]+(b>=0?BODY[b]:"")+"</r></xsl:template>"+COMMON,TOP[t]),fmt,IN[in],how,{},{});
}
static void bare()
{   // results without a single root, templates on elements
    int a=choose(BODY.size()),m=choose(5),in=choose(6),fmt=choose(2),how=choose(3); static const char *M[]={"/","/*","b","*","text()"};
    if (!run("body "+std::to_string(a)+" match "+M[m]+" input "+IN[in].name+" sheet "+(fmt?"xmq":"xml")+" output "+std::to_string(how))) return;
    if (a==2&&m<2) return; // an attribute at the top of the result
    one(sheet(string("<xsl:template match=\"")+M[m]+"\" priority=\"2\">"+BODY[a]+"</xsl:template>"+COMMON),fmt,IN[in],how,{},{});
}
static void indented()
{   // the same stylesheet with white space between everything, as a person writes it
    int a=choose(BODY.size()),b=choose(BODY.size()),fmt=choose(2),w=choose(3); static const char *W[]={"\n    ","\n\n","\t"};
    if (!run("bodies "+std::to_string(a)+" "+std::to_string(b)+" space "+std::to_string(w)+(fmt?" xmq":" xml"))) return;
    string x=W[w]; one(sheet(x+"<xsl:template match=\"/\">"+x+"<r>"+x+BODY[a]+x+BODY[b]+x+"</r>"+x+"</xsl:template>"+x+COMMON+x),fmt,IN[0],0,{},{});
}
static void params()
{   // any number of parameters in any order, as strings and as expressions
    static const vector<string> V={"","1","a b","'q'","\"q\"","1+1","//b","x=y","å","<&","$","count(//*)","--","-1"}; static const char *N[]={"p","q","long-name.x","_","P"};
    int n=1+choose(3); vector<string> o,par; string d; std::set<int> used; bool bad=false;
    for (int i=0;i<n;i++) { int k=choose(n==1?5:3),v=choose(V.size()),s=choose(2); if (n==3&&!mc::thorough()&&(v+i)%3) return; if (used.count(k)) return; used.insert(k); string val=V[v];
        o.push_back((s?"--stringparam=":"--param=")+string(N[k])+"="+val); d+=" "+o.back(); par.push_back(N[k]); par.push_back(s?(val.find('\'')!=string::npos?"\""+val+"\"":"'"+val+"'"):val); if (!s&&val.empty()) bad=true; }
    int in=choose(2); if (!run("parameters"+d+" "+IN[in].name)) return; (void)bad;
    string decl,use; for (auto x:N) { decl+=string("<xsl:param name=\"")+x+"\" select=\"'none'\"/>"; use+=string("<xsl:value-of select=\"$")+x+"\"/>|"; }
    one(sheet("<xsl:template match=\"/\"><r>"+use+"<xsl:copy-of select=\"$p\"/></r></xsl:template>",decl),0,IN[in],1,o,par);
}
static void manyparams()
{
    static const int NN[]={0,1,2,3,5,8,16,17,63,64,65,100,128,200}; int n=NN[choose(14)],kind=choose(2),in=choose(3);
    if (!run(std::to_string(n)+" parameters of kind "+std::to_string(kind)+" "+IN[in].name)) return;
    vector<string> o,par; string decl,use; for (int i=0;i<n;i++) { string k="p"+std::to_string(i),v=std::to_string(i*7); o.push_back((kind?"--stringparam=":"--param=")+k+"="+v); par.push_back(k); par.push_back(kind?"'"+v+"'":v); decl+="<xsl:param name=\""+k+"\"/>"; use+="<xsl:value-of select=\"$"+k+"\"/>,"; }
    one(sheet("<xsl:template match=\"/\"><r>"+use+"</r></xsl:template>",decl),0,IN[in],0,o,par);
}
static void chains()
{   // several transforms after each other, with other commands between
    static const char *S[]={"<xsl:template match=\"/\"><one><xsl:copy-of select=\"*\"/></one></xsl:template>","<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template><xsl:template match=\"b\"/>","<xsl:template match=\"/\"><n><xsl:value-of select=\"count(//*)\"/></n><m/></xsl:template>","<xsl:template match=\"/\"><xsl:for-each select=\"//b\"><xsl:copy-of select=\".\"/></xsl:for-each></xsl:template>","<xsl:template match=\"/\"><xsl:message terminate=\"yes\">end</xsl:message></xsl:template>"};
    int n=2+choose(2),k[3],in=choose(6); string d; for (int i=0;i<n;i++) { k[i]=choose(5); d+=" "+std::to_string(k[i]); } int fmt=choose(2);
    if (!run("transforms"+d+" of "+IN[in].name+(fmt?" xmq":" xml"))) return;
    start_in_scratch(); cli::put(IN[in].name,IN[in].text); vector<string> av={IN[in].name}; Doc cur; load(cur,IN[in]); bool ok=true;
    for (int i=0;i<n;i++) { string sh=sheet(S[k[i]]),f="s"+std::to_string(i)+(fmt?".xslq":".xslt"); cli::put(f,fmt?as_xmq(sh):sh); av.push_back("transform"); av.push_back(f); if (ok) { Doc next; ok=transform(cur.x(),sh,{},next); if (ok) std::swap(cur.d,next.d); } }
    cli::R r=cli::run(av); expect(av,r,ok,ok?printed(cur,0):""); if (!ok&&r.out.size()) fail("output after a failing transform: %s",mc::esc(r.out).c_str());
}
static void documents()
{   // document(), include and import of files in every format
    static const In F[]={{"o.xmq","b { c=1 c(k=v)='x y' }"},{"o.xml","<b><c>1</c><c k=\"v\">x y</c></b>"},{"o.json","{\"b\":{\"c\":1,\"d\":\"x y\"}}"},{"nosuch.xmq",NULL},{"bad.xmq","a{"},{"dir/o.xmq","b=sub"}};
    static const char *X[]={"<b><c>1</c><c k=\"v\">x y</c></b>","<b><c>1</c><c k=\"v\">x y</c></b>","<_><b><c>1</c><d>x y</d></b></_>",NULL,NULL,"<b>sub</b>"};
    int f=choose(6),g=choose(6),use=choose(3),fmt=choose(2),where=0; // what a relative name in a sheet in another folder is relative to is left open
    if (!run(string("files ")+F[f].name+" "+F[g].name+" use "+std::to_string(use)+(fmt?" xmq":" xml")+(where?" in a folder":""))) return;
    start_in_scratch(); other.clear(); string pre=""; // names are relative to the working directory, also for a sheet in a folder
    for (int i:{f,g}) { if (F[i].text) cli::put(pre+F[i].name,F[i].text); if (X[i]) other[pre+F[i].name]=X[i]; }
    string inc=sheet("<xsl:template match=\"c\"><C><xsl:value-of select=\".\"/>&lt;</C></xsl:template>"); cli::put(pre+"inc.xslt",inc); cli::put(pre+"inc.xslq",as_xmq(inc)); other[pre+"inc.xslt"]=inc; other[pre+"inc.xslq"]=inc;
    string a=string("<xsl:copy-of select=\"document('")+F[f].name+"')\"/>", b=string("<xsl:apply-templates select=\"document('")+F[g].name+"')//c\"/>";
    string top=use==1?"<xsl:include href=\"inc.xslt\"/>":use==2?"<xsl:import href=\"inc.xslt\"/>":"";
    one(sheet("<xsl:template match=\"/\"><r>"+a+b+"</r></xsl:template>",top),fmt,IN[0],0,{},{},where?"dir/t":"t"); other.clear();
}
// ---- validation
static string XS(const string &inner, const string &at="") { return "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\""+at+">"+inner+"</xs:schema>"; }
static bool valid(xmlDoc *d, const string &xsd, bool &usable)
{
    xmlDoc *x=readxml(xsd); if (!x) fail("harness: schema: %s",xsd.c_str()); xmlSchemaParserCtxt *pc=xmlSchemaNewDocParserCtxt(x); xmlSchemaSetParserErrors(pc,quiet_,quiet_,NULL); xmlSchema *s=xmlSchemaParse(pc); xmlSchemaFreeParserCtxt(pc);
    usable=s; if (!s) { xmlFreeDoc(x); return false; }
    xmlSchemaValidCtxt *v=xmlSchemaNewValidCtxt(s); xmlSchemaSetValidErrors(v,quiet_,quiet_,NULL); int r=xmlSchemaValidateDoc(v,d); xmlSchemaFreeValidCtxt(v); xmlSchemaFree(s); xmlFreeDoc(x); return r==0;
}
static void check(const string &xsd, int fmt, const In &in, int flags=0, bool silent=false)
{
    start_in_scratch(); string f=fmt?"s.xsdq":"s.xsd"; cli::put(f,fmt?as_xmq(xsd):xsd); cli::put(in.name,in.text); Doc d; load(d,in,flags); bool usable; bool ok=valid(d.x(),xsd,usable);
    vector<string> av; if (flags&XMQ_FLAG_TRIM_NONE) av.push_back("--trim=none"); av.push_back(in.name); av.push_back("validate"); if (silent) av.push_back("--silent"); av.push_back(f);
    string want=printed(d,0); cli::R r=cli::run(av); mc::outcome(r.out); mc::count(!usable?2:ok?0:1);
    if (ok) { if (r.status) fail("libxml2 accepts the document, xmq exits with %d: %s\n  document %s\n  schema %s\n  stderr %s %s",r.status,cli::join(av).c_str(),in.text,xsd.c_str(),mc::esc(r.err).c_str(),mc::esc(r.out).c_str()); if (r.out!=want) fail("the validated document is not passed on: want %s got %s",mc::esc(want).c_str(),mc::esc(r.out).c_str()); }
    else { if (!r.status) fail("libxml2 rejects the document, xmq exits with 0: %s\n  document %s\n  schema %s",cli::join(av).c_str(),in.text,xsd.c_str()); if (!silent&&r.out.empty()&&r.err.empty()) fail("a silent failure: %s",cli::join(av).c_str()); if (r.out.find(want)!=string::npos) fail("an invalid document is printed"); }
}
static void models()
{
    static const vector<string> P={"<xs:element name=\"b\" type=\"xs:int\"/>","<xs:element name=\"c\" type=\"xs:string\" minOccurs=\"0\"/>","<xs:element name=\"d\" minOccurs=\"2\" maxOccurs=\"2\"><xs:simpleType><xs:restriction base=\"xs:token\"><xs:enumeration value=\"x\"/><xs:enumeration value=\"x y\"/></xs:restriction></xs:simpleType></xs:element>","<xs:any minOccurs=\"0\" processContents=\"skip\" namespace=\"##other\"/>","<xs:element name=\"e\" minOccurs=\"0\" maxOccurs=\"unbounded\"><xs:complexType><xs:attribute name=\"k\" use=\"required\"/></xs:complexType></xs:element>"};
    static const vector<string> K={"<b>1</b>","<b>x</b>","<c/>","<c>t</c>","<d>x</d>","<d> x  y </d>","<e k=\"1\"/>","<e/>","text","<!--k-->","<z xmlns=\"u\"/>"};
    static const char *M[]={"sequence","choice","all"};
    int m=choose(3),a=choose(5),b=choose(6)-1,mixed=choose(2),fmt=choose(2),n=choose(3); vector<int> k; for (int i=0;i<n;i++) k.push_back(choose(K.size())); if (fmt&&!mc::thorough()&&n==2&&(k[0]+k[1]+a)%4) return;
    string doc="<a>"; for (int x:k) doc+=K[x]; doc+="</a>";
    if (!run(string(M[m])+" "+std::to_string(a)+" "+std::to_string(b)+(mixed?" mixed":"")+(fmt?" xmq":" xml")+" "+doc)) return;
    string xsd=XS(string("<xs:element name=\"a\"><xs:complexType")+(mixed?" mixed=\"true\"":"")+"><xs:"+M[m]+">"+P[a]+(b>=0?P[b]:"")+"</xs:"+M[m]+"></xs:complexType></xs:element>");
    In in={"v.xml",doc.c_str()}; check(xsd,fmt,in,XMQ_FLAG_TRIM_NONE);
}
static void types()
{
    static const char *T[]={"string","int","decimal","boolean","date","NMTOKEN","token","anyURI","ID","double","hexBinary","language","positiveInteger","QName"}; static const vector<string> V={"","1","-1","+01","1.50","1e3","true","TRUE","x","x y"," x ","2024-02-29","2023-02-29","0x1","ab","sv-SE","NaN","å","a:b","99999999999"};
    int t=choose(14),v=choose(V.size()),where=choose(3),fmt=choose(2),silent=choose(2); if (!run(string(T[t])+" "+V[v]+" place "+std::to_string(where)+(fmt?" xmq":" xml")+(silent?" silent":""))) return;
    string y=string("type=\"xs:")+T[t]+"\"",xsd,doc; if (where==0) { xsd=XS("<xs:element name=\"a\" "+y+"/>"); doc="<a>"+V[v]+"</a>"; } else if (where==1) { xsd=XS("<xs:element name=\"a\"><xs:complexType><xs:attribute name=\"k\" "+y+"/></xs:complexType></xs:element>"); doc="<a k=\""+V[v]+"\"/>"; } else { xsd=XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"k\" "+y+" maxOccurs=\"3\"/></xs:sequence></xs:complexType></xs:element>"); doc="<a><k>"+V[v]+"</k><k>"+V[v]+"</k></a>"; }
    In in={"v.xml",doc.c_str()}; check(xsd,fmt,in,XMQ_FLAG_TRIM_NONE,silent);
}
static void valspaces()
{   // namespaces, documents in other formats, schemas that are none
    static const vector<string> S={XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\"/></xs:sequence></xs:complexType></xs:element>"," targetNamespace=\"u\" elementFormDefault=\"qualified\""),XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\"/></xs:sequence></xs:complexType></xs:element>"," targetNamespace=\"u\""),XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\"/></xs:sequence></xs:complexType></xs:element>"),XS("<xs:element name=\"a\" type=\"nosuch\"/>"),XS("<xs:bogus/>"),"<a/>",XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\"/></xs:sequence><xs:attribute name=\"x\" default=\"1\"/></xs:complexType></xs:element>"),XS("<xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"b\" maxOccurs=\"9\"/></xs:sequence></xs:complexType><xs:unique name=\"n\"><xs:selector xpath=\"b\"/><xs:field xpath=\".\"/></xs:unique></xs:element>")};
    static const In D[]={{"v.xmq","a{b}"},{"v.xmq","a(xmlns=u){b}"},{"v.xmq","p:a(xmlns:p=u){b}"},{"v.xmq","p:a(xmlns:p=u){p:b}"},{"v.xml","<a xmlns='u'><b xmlns=''/></a>"},{"v.json","{\"_\":\"a\",\"b\":1}"},{"v.xmq","a{b=1 b=1}"},{"v.xmq","a{b=1 b=2}"},{"v.xmq","a(x=2){b}"},{"v.xmq","x"},{"v.xmq","a{b} c"},{"v.xmq","// c\na{ /* x */ b }"},{"v.xmq","a{b('x'&#10;)}"}};
    int s=choose(S.size()),d=choose(12),fmt=choose(2),silent=choose(2); if (!run("schema "+std::to_string(s)+" document "+D[d].text+(fmt?" xmq":" xml")+(silent?" silent":""))) return;
    check(S[s],fmt,D[d],0,silent);
}
// ---- statistics
struct St { size_t n[15]={}; };
static void count(xmlNode *x, St &s)
{
    for (xmlNode *i=x;i;i=i->next) switch (i->type) {
        case XML_ELEMENT_NODE: s.n[0]++; s.n[1]+=strlen(cs(i->name)); for (xmlAttr *a=i->properties;a;a=a->next) { s.n[4]++; s.n[5]+=strlen(cs(a->name)); for (xmlNode *t=a->children;t;t=t->next) if (t->type==XML_TEXT_NODE) s.n[6]+=strlen(cs(t->content)); } count(i->children,s); break;
        case XML_TEXT_NODE: s.n[2]++; s.n[3]+=strlen(cs(i->content)); break;
        case XML_COMMENT_NODE: s.n[7]++; s.n[8]+=strlen(cs(i->content)); break;
        case XML_DTD_NODE: s.n[9]+=strlen(cs(i->name)); break;
        case XML_CDATA_SECTION_NODE: s.n[10]++; s.n[11]+=strlen(cs(i->content)); break;
        default: break; }
}
static void statistics(const string &name, const string &src, XMQContentType t, const vector<string> &globals, int flags, int how, int via)
{
    start_in_scratch(); cli::put(name,src); Doc d; if (!xmqParseBufferWithType(d.d,src.data(),src.data()+src.size(),NULL,t,flags)) return; // an entity nobody defines
    St s; count(d.x()->children,s); static const char *K[]={"num_elements","size_element_names","num_text_nodes","size_text_nodes","num_attributes","size_attribute_names","size_attribute_content","num_comments","size_comments","size_doctype","num_cdata_nodes","size_cdata_nodes"};
    Doc w; xmlDoc *x=newdoc(); N r=el((N)x,"statistics"); tx(el(r,"size_source"),std::to_string(src.size())); for (int i=0;i<12;i++) if (s.n[i]) tx(el(r,K[i]),std::to_string(s.n[i])); tx(el(r,"sum_meta"),std::to_string(s.n[1]+s.n[5]+s.n[6]+s.n[9])); tx(el(r,"sum_text"),std::to_string(s.n[3])); adopt(w,x);
    vector<string> av=globals; string in; if (via==0) av.push_back(name); else if (via==1) { av.push_back("-"); in=src; } else { av.push_back("-i"); av.push_back(src); } av.push_back("statistics"); to(av,how);
    cli::R c=cli::run(av,in); expect(av,c,true,printed(w,how));
}
static void statforms()
{
    int n=1+choose(mc::tier_pick(2,3)); int f[3]; string d="forms"; for (int i=0;i<n;i++) { f[i]=choose(NF); d+=string(i?", ":" ")+F[f[i]].name; } int fmt=choose(3),how=choose(4);
    for (int i=1;i<n;i++) if (F[f[i]].istext&&F[f[i-1]].istext) return;
    if (n>1&&how!=(f[0]+f[1]+fmt)%4) return;
    if (!run(d+" as "+std::to_string(fmt)+" output "+std::to_string(how))) return;
    xmlDoc *D=newdoc(); N root=el((N)D,"root"); for (int i=0;i<n;i++) F[f[i]].make(root); Doc doc; adopt(doc,D); string src=printed(doc,fmt);
    statistics(fmt==1?"st.xml":"st.xmq",src,fmt==1?XMQ_CONTENT_XML:XMQ_CONTENT_XMQ,{},0,how,0);
}
static void statsources()
{
    static const In S[]={{"s.xmq","!DOCTYPE=abc\n// c1\na(x=å y z='1 2' w=('p'&#10;'q')) { b=1 p:c(xmlns:p=u p:k=v) /* c2 */ 'te xt' &ent; &#65; ?pi=x }"},{"s.xml","<?xml version=\"1.0\"?>\n<!DOCTYPE abc SYSTEM \"x\">\n<!--c--><a k='&lt;v' q=''>\n <b><![CDATA[c<d]]></b> t &amp; u <![CDATA[]]>\n</a><!--åä-->"},{"s.html","<!DOCTYPE html><html><head><title>T</title></head><body><p class=\"k\">one <b>two</b> <br> three</p><script>a<b</script><!-- c --></body></html>"},{"s.json","{\"a\":[1,\"x y\",true,null],\"b\":{\"_c\":\"d\"},\"\":{}}"},{"s.xmq",""},{"s.xmq","a"},{"s.xmq","'top' a=1 b=2"},{"s.xmq","a b='' c(d='')"},{"s.htmq","html{body{p='x'}}"},{"s.xmq","//"}};
    int s=choose(10),how=choose(4),via=choose(3),trim=choose(4); if (!run(string("source ")+S[s].text+" output "+std::to_string(how)+" via "+std::to_string(via)+" trim "+std::to_string(trim))) return;
    string t=S[s].text; if (via==2&&(s==4||s==9)) return;
    vector<string> g; int fl=0; if (trim==1) { g={"--trim=none"}; fl=XMQ_FLAG_TRIM_NONE; } if (trim==2) { g={"--trim=heuristic"}; fl=XMQ_FLAG_TRIM_HEURISTIC; } if (trim==3) { g={"--nomerge"}; fl=XMQ_FLAG_NOMERGE; }
    statistics(S[s].name,t,XMQ_CONTENT_DETECT,g,fl,how,via);
}
static void statsizes()
{
    static const int NN[]={0,1,2,9,10,99,100,999,1000,4096,65536}; int n=NN[choose(11)],kind=choose(6); if (!run("size "+std::to_string(n)+" kind "+std::to_string(kind))) return;
    string s; switch (kind) { case 0: s="a { "; for (int i=0;i<n;i++) s+="b "; s+="}"; break; case 1: s="a='"+string(n,'x')+"'"; break; case 2: s="a(k='"+string(n,'x')+"')"; break; case 3: s=string(n+1,'e'); break; case 4: for (int i=0;i<std::min(n,1000);i++) s+="a{"; s+="b"; for (int i=0;i<std::min(n,1000);i++) s+="}"; break; default: s="a { //"+string(n,'c')+"\n }"; }
    statistics("z.xmq",s,XMQ_CONTENT_XMQ,{},0,0,0);
}
static void statafter()
{   // the statistics are those of the document as it is now, the size that of its source
    static const vector<vector<string>> C={{"delete","//b"},{"delete","//@x"},{"add","z=1"},{"add-root","top"},{"replace-entity","lt","5"},{"select","//c"},{"transform","c.xslt"},{"statistics"}};
    int a=choose(8),b=choose(9)-1,in=choose(2); if (!run("after "+C[a][0]+(b>=0?" "+C[b][0]:"")+" "+IN[in].name)) return;
    start_in_scratch(); cli::put("c.xslt",sheet("<xsl:template match=\"/\"><r><xsl:copy-of select=\"//b\"/></r></xsl:template>")); cli::put(IN[in].name,IN[in].text);
    vector<string> av={IN[in].name}; for (auto &x:C[a]) av.push_back(x); if (b>=0) for (auto &x:C[b]) av.push_back(x); vector<string> p=av; p.push_back("to-xml"); av.push_back("statistics");
    cli::R r=cli::run(p); cli::R q=cli::run(av); if (r.status) { if (!q.status) fail("a failing command before statistics is not reported: %s",cli::join(av).c_str()); return; }
    xmlDoc *x=xmlReadMemory(r.out.data(),r.out.size(),"x",NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING); if (!x) return; // not a single root
    Doc d; adopt(d,x); St s; count(x->children,s); Parsed g; if (!parse(g,q.out)) fail("statistics do not parse: %s",mc::esc(q.out).c_str());
    auto num=[&](const char *k){ return (size_t)xmqGetInt(g.doc.d,(string("/statistics/")+k).c_str()); };
    if (num("num_elements")!=s.n[0]||num("size_element_names")!=s.n[1]||num("num_attributes")!=s.n[4]||num("num_comments")!=s.n[7]||num("size_attribute_content")!=s.n[6]) fail("the statistics are not those of the document: %s\n  document %s\n  got %s",cli::join(av).c_str(),mc::esc(r.out).c_str(),mc::esc(q.out).c_str());
    mc::outcome(q.out);
}
int main(int c, char **v)
{
    quiet(); static const char *names[]={"accepted","refused","unusable schemas",NULL}; for (int i=0;i<4;i++) mc::counter_names[i]=names[i];
    return mc::main_(c,v,"P26",{{"sheets",sheets},{"bare",bare},{"indented",indented},{"params",params},{"manyparams",manyparams},{"chains",chains},{"documents",documents},{"models",models},{"types",types},{"namespaces",valspaces},{"stat-forms",statforms},{"stat-sources",statsources},{"stat-sizes",statsizes},{"stat-after",statafter}});
}
