exec(open(__import__('os').path.join(__import__('os').path.dirname(SPECFILE),'common.py')).read())
bug("quote-depth-cap","P03","a text with sixteen or more apostrophes in a row","the quote is opened and closed with too few apostrophes",
 [(P+'xmq_printer.c','    if (max > 0) max++;\n','    if (max > 0 && max < 16) max++;\n')],
 H+'''python3 -c "print('<a>x'+chr(39)*20+'y</a>',end='')" > $T/a.xml
$X $T/a.xml to-xmq > $T/b.xmq && $X $T/b.xmq to-xml --omit-decl > $T/c.xml && diff <(cat $T/a.xml; echo) $T/c.xml
''')
bug("slashes-last-run","P04","a comment with two asterisk-slash runs where the first has more slashes than the last","the comment is closed too early",
 [(P+'xmq_printer.c','                if (curr > max) max = curr;\n            }\n            else\n','                max = curr;\n            }\n            else\n')],
 H+'''printf '<a><!--x *// y */ z--></a>' > $T/a.xml
$X $T/a.xml to-xmq --compact > $T/b.xmq && $X $T/b.xmq to-xml --omit-decl > $T/c.xml && diff <(cat $T/a.xml; echo) $T/c.xml
''')
bug("xmlns-prefix-test","P01","an attribute whose prefix merely starts with xmlns","the attribute becomes a namespace declaration",
 [(P+'xmq_parser.c','if (ns_len == 5 && !strncmp(ns_start, "xmlns", 5))','if (ns_len >= 5 && !strncmp(ns_start, "xmlns", 5))')],
 H+'''printf 'a(xmlns:xmlnsx=u xmlnsx:b=c)' > $T/a.xmq
$X $T/a.xmq to-xml --omit-decl > $T/c.xml; diff <(echo '<a xmlns:xmlnsx="u" xmlnsx:b="c"/>') $T/c.xml
''')
bug("key-column","P08","a namespaced key token","the column of the key after a namespace prefix is one too small",
 [(P+'xmq_parser.c','            DO_CALLBACK(element_key, state, start_line, start_col+ns_len+1,','            DO_CALLBACK(element_key, state, start_line, start_col+ns_len,')],
 H+'''printf 'x:ab=1' > $T/a.xmq
$X $T/a.xmq tokenize --type=debugtokens | grep -q '"ab" 1:3'
''')
bug("plane16","P06","a character of plane 16 in escaped output","the code point is decoded wrongly",
 [(P+'text.c','                *out_char = ((c & 0x07) << 18) | ((cc & 0x3f) << 12) | ((ccc & 0x3f) << 6) | (cccc & 0x3f);','                *out_char = ((c & 0x03) << 18) | ((cc & 0x3f) << 12) | ((ccc & 0x3f) << 6) | (cccc & 0x3f);')],
 H+'''printf 'a = ( \\x27x\\x27 &#x100041; )' > $T/a.xmq
$X $T/a.xmq to-xmq --escape-non-7bit | grep -q 1048641
''')
bug("increment-col","P01","an error after a character with an UTF-8 byte 10xx11xx","the column counts bytes instead of characters",
 [(P+'xmq_internals.c',"    if ((c & 0xc0) != 0x80) // Just ignore","    if ((c & 0xc0) != 0x80 || (c & 0xf0) == 0xb0) // Just ignore")],
 H+'''printf "a='\\xc3\\xb0' }" > $T/a.xmq
$X $T/a.xmq to-xml 2>&1 | grep -q ':1:7:'
''')
