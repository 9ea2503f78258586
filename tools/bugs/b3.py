exec(open(__import__('os').path.join(__import__('os').path.dirname(SPECFILE),'common.py')).read())
bug("hash-prefix","P12","an object with two keys in the same hash bucket where one is a prefix of the other","the keys get an index [0]",
 [(P+'hashmap.c','        if (!strcmp(slot->key_, key))\n        {\n            return','        if (!strncmp(slot->key_, key, strlen(slot->key_)))\n        {\n            return')],
 H+'''python3 -c "
import itertools,string
c=string.ascii_lowercase
print('{'+','.join('\\"%s\\":1'%k for k in list(c)+[a+b for a in c for b in c])+'}',end='')" > $T/a.json
$X $T/a.json to-json > $T/b.json; diff <(cat $T/a.json; echo) $T/b.json > /dev/null || diff $T/a.json <(cat $T/b.json) >/dev/null || ! grep -q '\\[0\\]' $T/b.json
''')
bug("decimal-octal","P01","a decimal character reference with a leading zero","the number is read as octal",
 [(C,'            else uc = strtol(tmp+2, NULL, 10);\n            size_t len','            else uc = strtol(tmp+2, NULL, 0);\n            size_t len')],
 H+'''printf "a=('x' &#065; 'y')" > $T/a.xmq
$X $T/a.xmq to-xml --omit-decl | grep -q xAy
''')
bug("long-double","P19","a long value beyond 2^53","the value loses precision",
 [(C,'    return atol(content);\n','    return (int64_t)atof(content);\n')],
 cdemo('''#include"xmq.h"
#include<string.h>
int main(){ const char *s="a=9007199254740993"; XMQDoc *d=xmqNewDoc(); xmqParseBuffer(d,s,s+strlen(s),0,0); return xmqGetLong(d,"/a")==9007199254740993L?0:1; }'''))
bug("line-big","P05","a log value longer than the first buffer","a value of exactly the size of the buffer is truncated",
 [(C,'        if (n < buf_size) break;\n        buf_size *= 2;','        if (n <= buf_size) break;\n        buf_size *= 2;')],
 cdemo('''#include"xmq.h"
#include<string.h>
#include<stdio.h>
#include<stdlib.h>
int main(){ char v[1025]; memset(v,'x',1024); v[1024]=0; XMQLineConfig *lc=xmqNewLineConfig(); char *l=xmqLinePrintf(lc,"a{","b=","%s",v,"}"); int n=strlen(l); return n==1024+5?0:1; }'''))
bug("line-sep","P05","a log line where a value ends with a closing parenthesis of a compound","two values run together",
 [(C,"        if (last != '\\'' && last != '(' && last != ')'  && last != '{' && last != '}')","        if (last != '\\'' && last != '(' && last != ')'  && last != '{' && last != '}' && last != ';')")],
 cdemo('''#include"xmq.h"
#include<string.h>
#include<stdio.h>
int main(){ XMQLineConfig *lc=xmqNewLineConfig(); char *l=xmqLinePrintf(lc,"a{","b=","%s","x;","c=","%s","y","}"); XMQDoc *d=xmqNewDoc(); if (!xmqParseBuffer(d,l,l+strlen(l),0,0)) return 1; const char *s=xmqGetString(d,"/a/c"); return s&&!strcmp(s,"y")?0:1; }'''))
