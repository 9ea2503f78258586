C='src/main/c/xmq.c'; P='src/main/c/parts/'; L='src/main/c/xmq-cli.c'
H='''#!/bin/bash
# run with cwd /repo after the build
set -u
X=$PWD/build/default/release/xmq
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
def cdemo(src): return H+'''cat > $T/d.c <<'EOF'
'''+src+'''
EOF
gcc -w -I src/main/c -I/usr/include/libxml2 $T/d.c build/default/release/libxmq.a -lxml2 -lz -lm -lpthread -o $T/d || exit 0
$T/d
'''
