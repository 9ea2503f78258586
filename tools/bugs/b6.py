exec(open(__import__('os').path.join(__import__('os').path.dirname(SPECFILE),'common.py')).read())
I=P+'ixml.c'; J=P+'json.c'
bug("comment-tab","P04","a comment with a tab as its first character","the tab is dropped when the comment is printed",
 [(P+'utf8.c',"            write(writer_state, os->explicit_tab, NULL);\n        }\n        else\n        {\n            const char *e = needs_escape(ps->output_settings->render_to, i, j);","            if (i != start) write(writer_state, os->explicit_tab, NULL);\n        }\n        else\n        {\n            const char *e = needs_escape(ps->output_settings->render_to, i, j);")],
 H+'''printf '<a><!--\\tx--></a>' > $T/a.xml
$X --trim=none $T/a.xml to-xmq > $T/a.xmq
$X $T/a.xmq to-xml --omit-decl | grep -q "$(printf '<!--\\tx-->')"
''')
bug("blank-first-line","P01","a multi line quote whose first line is a few spaces","the first line is kept as an empty line",
 [(P+'text.c',"        if (*i == '\\n') found_nl = true;\n        if (!is_xml_whitespace(*i)) break;\n        i++;","        if (*i == '\\n' && i == start) found_nl = true;\n        if (!is_xml_whitespace(*i)) break;\n        i++;")],
 H+'''printf "a = '  \\n     x\\n     y'\\n" > $T/a.xmq
$X $T/a.xmq to-xml --omit-decl > $T/o
[ "$(head -1 $T/o)" = "<a>x" ]
''')
bug("comment-dash-end","P10","a comment that ends with a dash","the protected dash at the end keeps its DLE character when the XML is read back",
 [('src/main/c/xmq.c',"            // Skip the dle quote character.\n            i += 3;","            // Skip the dle quote character.\n            i += *(i+4) ? 3 : 0;")],
 H+"""printf 'a {\\n    // x-\\n    b\\n}\\n' > $T/a.xmq
$X $T/a.xmq to-xml > $T/a.xml
$X $T/a.xml to-xmq > $T/b.xmq
cmp -s $T/a.xmq $T/b.xmq
""")
bug("alias-attribute","P16","a rule with an alias that is marked as attribute","the attribute has the rule's own name",
 [(P+'ixml.c',"        if (rule->rule_name->alias) *abs_node = rule->rule_name->alias;","        if (rule->rule_name->alias && rule->mark != '@') *abs_node = rule->rule_name->alias;")],
 H+"""printf 's: x, "q". @x>y: "a"; "b".' > $T/g.ixml
printf bq > $T/in
$X --ixml=$T/g.ixml $T/in to-xml --omit-decl | grep -q 'y="b"'
""")
bug("json-cr","P13","a JSON text with CR line endings","it is refused as broken",
 [(P+'json.c',"c == '\\r'","c == '\\1'")],
 H+"""printf '{ "a":1,\\r\\n "b":2\\r\\n}\\r\\n' > $T/a.json
$X $T/a.json to-json > $T/o 2>/dev/null && grep -q '"b":2' $T/o
""")
bug("hr-empty-value","P27","a human readable log line with an empty value followed by another key","the space after the empty value is missing, the next key is glued to the previous one",
 [('src/main/c/xmq.c',"        if (!first)\n        {\n            membuffer_append(mb, \" \");","        if (!first && membuffer_back(mb) != ':')\n        {\n            membuffer_append(mb, \" \");")],
 cdemo(r'''#include "xmq.h"
#include <stdio.h>
#include <string.h>
int main(){ XMQLineConfig *lc=xmqNewLineConfig(); xmqSetLineHumanReadable(lc,true); char *s=xmqLinePrintf(lc,"car{","a=","%s","","b=","2","}"); printf("%s\n",s); return strcmp(s,"(car) a: b:2")!=0; }'''))
bug("index-letter","P12","a JSON key that ends with a single character in brackets that is not a digit","the bracket is cut off as if it were an index",
 [(P+'json.c',"        const char *i = key_stop-2;\n        // Skip the digits","        const char *i = key_stop-3;\n        // Skip the digits")],
 H+"""printf '{"a[x]":1,"b":2}' > $T/a.json
$X $T/a.json to-json | grep -qF '"a[x]":1'
""")
bug("unquote-backspace","P24","a C string with the escape for a backspace","the escape is read as the letter b",
 [(P+'text.c',"            else if (c == 'b') *o++ = '\\b';\n",'')],
 H+"""printf 'x\\\\by' > $T/in
printf '"x%sby"' '\\' > $T/in
$X --text $T/in unquote-c to-text > $T/o
printf 'x\\by' | cmp -s - $T/o
""")
bug("tex-light-sticks","P22","one settings object that is set up for tex and then for the terminal on a dark background","the terminal output has the colors of the light background",
 [('src/main/c/xmq.c',"        if (os->render_to == XMQ_RENDER_TEX) dark_mode = false;","        if (os->render_to == XMQ_RENDER_TEX) os->bg_dark_mode = dark_mode = false;")],
 cdemo(r'''#include "xmq.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char *show(XMQDoc *d, XMQOutputSettings *os) { char *a=NULL,*b=NULL; xmqSetupPrintMemory(os,&a,&b); xmqPrint(d,os); char *r=strndup(a,b-a); free(a); return r; }
int main(){ XMQDoc *d=xmqNewDoc(); xmqParseBuffer(d,"a{b=1 &foo; c(k=v)}",NULL,NULL,0);
XMQOutputSettings *o1=xmqNewOutputSettings(),*o2=xmqNewOutputSettings(); xmqSetBackgroundMode(o1,true); xmqSetUseColor(o1,true); xmqSetBackgroundMode(o2,true); xmqSetUseColor(o2,true);
xmqSetRenderFormat(o1,XMQ_RENDER_TERMINAL); xmqSetupDefaultColors(o1); xmqSetRenderFormat(o2,XMQ_RENDER_TEX); xmqSetupDefaultColors(o2);
char *x=show(d,o1); char *t=show(d,o2); xmqSetRenderFormat(o2,XMQ_RENDER_TERMINAL); xmqSetupDefaultColors(o2); char *y=show(d,o2);
xmqSetRenderFormat(o1,XMQ_RENDER_TERMINAL); xmqSetupDefaultColors(o1); return strcmp(x,y)!=0; }'''))
