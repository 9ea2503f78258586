exec(open(__import__('os').path.join(__import__('os').path.dirname(SPECFILE),'common.py')).read())
I=P+'ixml.c'; J=P+'json.c'
bug("quote-size","P24","a text of control characters to quote as a C string","the buffer for the escaped string is too small",
 [(P+'text.c','size_t len = 1+(stop-start)*4+2;','size_t len = 1+(stop-start)*2+2;')],
 cdemo(r'''#include "parts/always.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
char *xmq_quote_as_c(const char *start, const char *stop, bool add_quotes);
int main(){ char in[9000]; memset(in,1,sizeof in);
 for(int k=0;k<200;k++){ char *guard[8]; for(int i=0;i<8;i++) guard[i]=malloc(64); char *q=xmq_quote_as_c(in,in+1000+k*13,1); char *g=malloc(200); free(q); free(g); for(int i=0;i<8;i++) free(guard[i]); }
 return 0; }'''))
bug("stats-attr-entity","P26","an attribute with an entity followed by text","the bytes after an entity in an attribute are not counted",
 [(L,'''        accumulate_attribute_content(stats, i);
        i = next;''','''        accumulate_attribute_content(stats, i);
        i = i->type == XML_TEXT_NODE ? next : NULL;''')],
 H+'''printf "a(b=('xy' &foo; 'zzz'))" > $T/a
$X $T/a statistics to-xmq | grep -q 'size_attribute_content *= *5'
''')
bug("stringparam-equals","P26","a parameter whose value holds an equal sign","the value is cut at the last equal sign",
 [(L,"const char *p = strchr(s, '=');","const char *p = strrchr(s, '=');")],
 H+'''cat > $T/t.xslq <<'EOF'
xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform)
{ xsl:param(name=p) xsl:template(match='/') { out { xsl:value-of(select='$p') } } }
EOF
printf 'a' > $T/a
$X $T/a transform --stringparam=p=x=y $T/t.xslq to-xmq | grep -q 'x=y'
''')
bug("eintr-break","P18","a read from a descriptor that is interrupted by a signal between two blocks","the interruption is taken for the end of the input",
 [(C,'''            if (errno == EINTR) {
                continue;
            }''','''            if (errno == EINTR) {
                break;
            }''')],
 H+'''cat > $T/p.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n){ static int c; static ssize_t(*r)(int,void*,size_t); if(!r) r=dlsym(RTLD_NEXT,"read"); if(fd==0 && c++==1){errno=EINTR;return -1;} return r(fd,b,n>7?7:n);}
EOF
gcc -shared -fPIC $T/p.c -o $T/p.so -ldl || exit 0
printf 'a=1 b=2 c=3' | LD_PRELOAD=$T/p.so $X --root=r - to-xmq | grep -q 'c = 3'
''')
bug("detect-comment-arrow","P14","a html page after a comment which holds an arrow","the comment is thought to end at the arrow",
 [(C,'''                           !(*(i+0) == '-' &&
                             *(i+1) == '-' &&''','''                           !((*(i+0) == '-' || *(i+0) == ' ') &&
                             *(i+1) == '-' &&''')],
 H+'''printf '<!-- a -> b --><html><body><br>x</body></html>' > $T/a
$X $T/a to-html >/dev/null 2>&1 && $X $T/a to-xmq 2>/dev/null | grep -q '^html'
''')
bug("json-slash-key","P12","a key that starts with two slashes","it is taken for a comment",
 [(J,"if (key_start && key_stop == key_start+2 && *key_start == '/' && *(key_start+1) == '/')","if (key_start && key_stop >= key_start+2 && *key_start == '/' && *(key_start+1) == '/')")],
 H+'''printf '{"//x":"y"}' > $T/a
$X --json $T/a to-json | grep -q '//x'
''')
bug("skip-reset","P22","one settings object used to print xml without declaration and then something else","the number of bytes to skip is kept",
 [(C,'            *output_settings->output_skip = 0;\n','            if (output_settings->output_format == XMQ_CONTENT_XML) *output_settings->output_skip = 0;\n')],
 cdemo(r'''#include "xmq.h"
#include <stdlib.h>
#include <string.h>
int main(){ const char *s="a=1"; XMQDoc *d=xmqNewDoc(); if(!xmqParseBuffer(d,s,s+3,NULL,0)) return 0;
 XMQOutputSettings *os=xmqNewOutputSettings(); char *b,*e; size_t skip=0;
 xmqSetupPrintMemory(os,&b,&e); xmqSetupPrintSkip(os,&skip);
 xmqSetOutputFormat(os,XMQ_CONTENT_XML); xmqSetOmitDecl(os,1); xmqPrint(d,os); free(b);
 xmqSetOutputFormat(os,XMQ_CONTENT_JSON); xmqPrint(d,os); free(b);
 return skip!=0; }'''))
bug("script-entities","P23","a script in HTMQ with line breaks as entities","the entities of a script are printed as they are",
 [(C,'''            (!strcasecmp((const char*)i->name, "style") ||
             !strcasecmp((const char*)i->name, "script")))''','''            (!strcasecmp((const char*)i->name, "style")))''')],
 H+'''printf "html { head { script = ('a' &#10; 'b') } }" > $T/a.htmq
$X --nomerge $T/a.htmq to-html > $T/o; ! grep -q '#10' $T/o
''')
bug("trim-entity","P11","a text with spaces at its end before an entity","the spaces are kept by trimming",
 [(C,"    while (stop > start && *(stop-1) == ' ') stop--;\n\n    char *trimmed","    bool glued = node->next && node->next->type == XML_ENTITY_REF_NODE && node->prev;\n    while (stop > start && *(stop-1) == ' ' && !glued) stop--;\n\n    char *trimmed")],
 H+'''printf '<!DOCTYPE a [<!ENTITY foo "v">]><a><b/>x  &foo;</a>' > $T/a
$X $T/a to-xml --omit-decl | grep -q 'x&foo;'
''')
bug("ambiguous-kept","P17","a grammar used for an ambiguous input and then for one with a single parse","the second result is still flagged as ambiguous",
 [(P+'yaep.c','   *ambiguous_p = false;\n','')],
 cdemo(r'''#include "xmq.h"
#include <stdio.h>
#include <unistd.h>
#include <string.h>
int main(){ const char *g="s: x|y;'q'. x: 'a'. y: 'a'."; XMQDoc *gd=xmqNewDoc();
 if(!xmqParseBufferWithType(gd,g,g+strlen(g),NULL,XMQ_CONTENT_IXML,0)) return 0;
 XMQDoc *a=xmqNewDoc(), *b=xmqNewDoc();
 xmqParseBufferWithIXML(a,"a","a"+1,gd,0);
 const char *q="q"; int p[2]; pipe(p); fflush(stderr); int s=dup(2); dup2(p[1],2);
 xmqParseBufferWithIXML(b,q,q+1,gd,0); fflush(stderr); dup2(s,2); close(p[1]); char c; return read(p[0],&c,1)==1; }'''))
bug("json-comment-leak","P02","a JSON object with a comment","the text of the comment is never freed",
 [(J,'''        DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
        free(content_start);
        return;
    }

    if (key_start && key_stop == key_start+3''','''        DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
        return;
    }

    if (key_start && key_stop == key_start+3''')],
 H+'''cat > $T/d.c <<'EOF'
#include "xmq.h"
#include <string.h>
int main(){ const char *s="{\\"a\\":{\\"//\\":\\"hello\\"}}"; XMQDoc *d=xmqNewDoc(); xmqParseBufferWithType(d,s,s+strlen(s),NULL,XMQ_CONTENT_JSON,0); xmqFreeDoc(d); return 0; }
EOF
gcc -w -fsanitize=address -I src/main/c -I/usr/include/libxml2 $T/d.c build/default/release/libxmq.a -lxml2 -lz -lm -lpthread -o $T/d || exit 0
$T/d 2>/dev/null
''')
