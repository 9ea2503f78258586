exec(open(__import__('os').path.join(__import__('os').path.dirname(SPECFILE),'common.py')).read())
I=P+'ixml.c'; J=P+'json.c'
bug("rule-name-100","P15","a grammar with more than 100 groups, options or repetitions","two generated rules get the same name",
 [(I,'    char buf[16];\n    snprintf(buf, 15, "|%d", state->num_generated_rules);','    char buf[16];\n    snprintf(buf, 4, "|%d", state->num_generated_rules);')],
 H+'''python3 - > $T/g.ixml <<'EOF'
n=140
print("r: "+", ".join("'%s'?"%chr(0x100+i) for i in range(n))+".")
EOF
python3 -c "print(chr(0x100+100)+chr(0x100+20),end='')" > $T/in
if $X --ixml=$T/g.ixml $T/in to-xmq 2>/dev/null | grep -q '^r'; then exit 1; fi
''')
bug("hex-terminal-name","P15","two hex characters above #fffff which have the first digits in common","the two terminals are taken for the same",
 [(I,'''        char buffer[16];
        snprintf(buffer, 15, "#%x", value);
''','''        char buffer[16];
        snprintf(buffer, 7, "#%x", value);
''')],
 H+'''echo "r: #100001, #100002." > $T/g.ixml; printf '\\U00100001\\U00100002' > $T/in
$X --ixml=$T/g.ixml $T/in to-xmq | grep -q '^r'
''')
bug("replace-entity-first","P20","two different entities among the children of an element, the last one replaced","the children after an entity with another name are skipped",
 [(L,'''            xmlUnlinkNode(node);
            xmlFreeNode(node);
        }
        return next;
    }

    if (node->type == XML_DTD_NODE) return next;

    xmlAttr *a = is_element_node(node) ? xml_first_attribute(node) : NULL;
    while (a)
    {
        xmlNode *i = a->children;
        while (i)
        {
            i = replace_entity''','''            xmlUnlinkNode(node);
            xmlFreeNode(node);
        }
        return NULL;
    }

    if (node->type == XML_DTD_NODE) return next;

    xmlAttr *a = is_element_node(node) ? xml_first_attribute(node) : NULL;
    while (a)
    {
        xmlNode *i = a->children;
        while (i)
        {
            i = replace_entity''')],
 H+'''printf 'a{ &x; &y; }' > $T/a
$X $T/a replace-entity y new to-xml --omit-decl | grep -q new
''')
bug("html-id-class","P21","render-html with --id and --class","the id is used as class",
 [(L,'    xmqRenderHtmlSettings(settings, command->use_id, command->use_class);','    xmqRenderHtmlSettings(settings, command->use_id, command->use_class ? command->use_class : command->use_id);')],
 H+'''printf 'a=1' > $T/a
$X $T/a render-html --id=foo > $T/o; ! grep -q 'class="foo' $T/o && ! grep -q 'foo.*foo' $T/o
''')
bug("save-skip","P21","saving output without its declaration","the end of the saved file is garbage",
 [(L,'        size_t len = command->env->out_stop -  command->env->out_start - command->env->out_skip;','        size_t len = command->env->out_stop -  command->env->out_start;')],
 H+'''printf 'a=1' > $T/a
$X $T/a to-xml --omit-decl save-to $T/o 2>/dev/null; $X $T/a to-xml --omit-decl > $T/p; cmp $T/o $T/p
''')
bug("first-line-tab","P07","a quote where the first line with text is indented by a tab after blank lines","x",
 [(C,"                if (!first_line || ignore_first_indent)\n                {\n                    incidental = found_indent;","                if (!first_line || (ignore_first_indent && prepend_newlines == 0))\n                {\n                    incidental = found_indent;")],
 H+'''printf "a='\\n\\n  b\\n    c\\n  '" > $T/a
test "$($X $T/a to-xml --omit-decl | od -c | md5sum)" = "$(printf '<a>\\nb\\n  c</a>\\n' | od -c | md5sum)"
''')
bug("append-many","P03","a text ending with more than eight newlines","the rest of the newlines are lost",
 [(C,"            if (c == '\\n') append_newlines++;\n","            if (c == '\\n' && append_newlines < 8) append_newlines++;\n")],
 H+'''printf '<a>b\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n</a>' > $T/a
$X --trim=none $T/a to-xmq > $T/b; $X $T/b to-xml --omit-decl > $T/c; $X --trim=none $T/a to-xml --omit-decl > $T/d; cmp $T/c $T/d
''')
bug("json-string-false","P12","the string false","the string becomes the boolean",
 [(J,'''            (content_len == 5 && !strncmp(content_start, "false", 5)) ||
            (content_len == 4 && !strncmp(content_start, "null", 4)) ||
            content_stop''','''            (content_len == 5 && !strncmp(content_start, "false", 5) && !unsafe_key_start) ||
            (content_len == 4 && !strncmp(content_start, "null", 4)) ||
            content_stop''')],
 H+'''printf '{"1":"false","a":"b"}' > $T/a
$X $T/a to-json | grep -q '"1":"false"'
''')
bug("json-ten","P25","more than ten elements of the same name","the index is wrong and there are duplicate keys",
 [(J,'        snprintf(buf, 32, "[%zu]", used);\n        print_utf8(ps, COLOR_none, 1, buf, NULL);\n    }\n    print_utf8(ps, COLOR_none, 1, "\\"", NULL);\n\n    ps->last_char','        snprintf(buf, 32, "[%zu]", used % 10);\n        print_utf8(ps, COLOR_none, 1, buf, NULL);\n    }\n    print_utf8(ps, COLOR_none, 1, "\\"", NULL);\n\n    ps->last_char')],
 H+'''printf 'a{ b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} b{x=1} }' > $T/a
$X $T/a to-json > $T/o; grep -q '"b\\[11\\]"' $T/o || ! grep -q '"b\\[1\\]"' $T/o
''')
