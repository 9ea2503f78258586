C='src/main/c/xmq.c'; P='src/main/c/parts/'
H='''#!/bin/bash
# run with cwd /repo after the build
set -u
X=$PWD/build/default/release/xmq
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
def cdemo(src): return H+'''cat > $T/d.c <<'EOF'
'''+src+'''
EOF
gcc -w -I src/main/c -I/usr/include/libxml2 $T/d.c build/default/release/libxmq.a -lxml2 -lz -lm -lpthread -o $T/d || exit 0
$T/d
'''
bug("utf8-boundary","P06","exactly the code point U+07FF written as a character reference","the reference is decoded to an overlong sequence, the character is lost",
 [(P+'text.c','    else if (uc <= 0x7ff)\n','    else if (uc < 0x7ff)\n')],
 H+'''printf "a = ( 'x' &#2047; 'y' )" > $T/a.xmq
$X $T/a.xmq to-xml --omit-decl > $T/out 2>&1
printf '<a>x\\xdf\\xbfy</a>\\n' | cmp - $T/out
''')
bug("tex-escape-middle","P09","a text with an underscore, rendered as tex","the underscore is not escaped in the tex rendering",
 [(P+'xmq_internals.c','''        if (c == '_') return "\\\\_";
''','''        if (c == '_' && stop > start+1) return "\\\\_";
''')],
 H+'''printf "a = 'x_y z'" > $T/a.xmq
$X $T/a.xmq render-tex > $T/out 2>&1
grep -q 'x\\\\_y' $T/out
''')
bug("comment-depth","P10","a comment with escaped dashes inside an entity or element deeper than the root","comments deep in a document keep the escape characters",
 [(C,'''        fixup_comments(doq, i, depth+1);''','''        if (depth < 3) fixup_comments(doq, i, depth+1);''')],
 H+'''printf 'a{b{c{d{ /* x--y */ e } } } }' > $T/a.xmq
$X $T/a.xmq to-xml > $T/a.xml && $X $T/a.xml to-xmq > $T/b.xmq && grep -q -- 'x--y' $T/b.xmq
''')
