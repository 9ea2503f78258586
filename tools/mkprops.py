#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
S="src/main/c/"
prop("P01","XMQ parsing accepts exactly the XMQ grammar and builds the denoted tree",
 "Parsing a byte string as XMQ succeeds exactly when the string is a sentence of the XMQ grammar, and the resulting document is the one the sentence denotes: same elements, attributes, namespaces, values, comments, processing instructions, doctype and entity references, in order. A rejected string yields a failure with the error kind and the line:column of the offending token, and no success is ever reported for it.",
 ["inputs"],"All XMQ sources, i.e. all byte strings (token sequences and character sequences).",
 "tests/*.test hold a few hundred fixed sources; the grammar is context dependent (quote depth, comment depth, value vs element context, implicit roots) so the interactions of adjacent tokens are not sampled.",
 [S+"parts/xmq_parser.c",S+"parts/xmq_internals.c",S+"parts/text.c",S+"xmq.c"],
 [("recursive descent parser",S+"parts/xmq_parser.c parse_xmq and friends"),("DOM building callbacks",S+"xmq.c do_element_name ... do_attr_value_quote"),("error generation",S+"parts/xmq_internals.c build_error_message / xmq.c generate_dom_error")],
 [("XMQParseState","cursor, line, col, element stack, last body/quote/attr starts",S+"parts/xmq_internals.h")],
 ["xmqParseBuffer","xmqGetImplementationDoc","xmqDocErrno","xmqDocError"])
prop("P02","Every parse of every byte string is total, memory safe and leak free",
 "For every byte string and every content type (xmq, htmq, xml, html, json, ixml grammar, text, auto-detect) parsing terminates, never touches memory outside the supplied range, never aborts the process, and ends in either a document or a reported error. Releasing the document, successful or failed, releases all memory the parse obtained.",
 ["inputs"],"All byte strings of any length x all content types; in particular truncations and arbitrary bytes.",
 "Tests feed well formed files and a handful of syntax errors through NUL terminated buffers; end-of-buffer over-reads, aborts and hangs on malformed tails are never exercised.",
 [S+"parts/xmq_parser.c",S+"parts/json.c",S+"parts/ixml.c",S+"parts/text.c",S+"parts/utf8.c",S+"xmq.c"],
 [("bounds checks against the buffer end",S+"parts/xmq_internals.c is_* / eat_* / count_*"),("setjmp/longjmp error exit",S+"parts/xmq_parser.c, json.c, ixml.c"),("free functions",S+"xmq.c xmqFreeDoc, xmqFreeParseState")],
 (),["xmqParseBufferWithType","xmqDetectContentType","xmqFreeDoc"])
prop("P03","Any text value survives printing to XMQ and parsing back",
 "For every text (any sequence of characters legal in XML, including quotes, newlines, tabs, leading/trailing/only whitespace, and text that looks like syntax) used as element value, attribute value or text between siblings, printing the document as XMQ under any combination of indentation, compactness and newline/tab/non-ASCII escaping and parsing the output returns exactly that text. This also holds for the standalone compact quote of a string.",
 ["inputs","configurations"],"All text values x positions in the tree x nesting depth x printer settings.",
 "Tests contain a few dozen hand picked values and mostly the default setting; the choice between bare value, quote, escaped compound depends on combinations of neighbouring characters and settings.",
 [S+"parts/xmq_printer.c",S+"parts/text.c",S+"parts/xmq_parser.c",S+"xmq.c"],
 [("choice of representation",S+"parts/xmq_printer.c print_value / print_value_internal_text / quote_needs_compounded"),("quote depth",S+"xmq.c count_necessary_quotes"),("unquoting",S+"xmq.c xmq_un_quote")],
 (),["xmqPrint","xmqParseBuffer","xmqCompactQuote"])
prop("P04","Any document tree survives printing to XMQ and parsing back",
 "For every document tree of elements, attributes, namespace declarations and prefixes, text, comments, processing instructions, doctype and entity references, printing it as XMQ (pretty or compact) gives a source that parses, without error, to the same tree: same node kinds, names, namespaces, order, values and attribute order. Pretty and compact output denote the same tree.",
 ["inputs","configurations"],"All document trees x pretty/compact x indentation.",
 "Tests round-trip a fixed set of documents; adjacency of node kinds (text next to comment, entity next to text, pi in attributes position, single child shortcuts) is a combinatorial space.",
 [S+"parts/xmq_printer.c",S+"xmq.c",S+"parts/xml.c",S+"parts/entities.c"],
 [("node printing",S+"parts/xmq_printer.c print_node / print_nodes / print_element_with_children / print_leaf_node"),("separator insertion",S+"parts/xmq_printer.c check_space_before_*"),("DOM building",S+"xmq.c")],
 (),["xmqPrint","xmqParseBuffer"])
prop("P05","Compact and log-line output is one line that parses back",
 "Compact output of any document, the compact quote of any string, and a log line produced from any sequence of keys and printf-formatted values never contain a newline, are valid XMQ, and parse back to the document, string, or key/value content they were made from.",
 ["inputs"],"All documents, strings, key/format/value lists of any length.",
 "Tests log a few lines with short values; values with newlines, quotes, long (>1 KB) expansions and comments inside compact output are not covered.",
 [S+"xmq.c",S+"parts/xmq_printer.c"],
 [("log line printer",S+"xmq.c xmqLineVPrintf, buf_vsnprintf, xmq_line_*"),("compact printing",S+"parts/xmq_printer.c")],
 (),["xmqLinePrintf","xmqCompactQuote","xmqPrint with compact"])
prop("P06","Escape settings are honoured everywhere in XMQ output",
 "With non-ASCII escaping every output byte that belongs to a value is ASCII and every escaped character denotes the original code point; with newline escaping no value contains a raw newline; with tab escaping no value contains a raw tab. No setting changes the document denoted by the output.",
 ["inputs","configurations"],"All texts over all Unicode planes x settings x value positions.",
 "Tests escape a few characters; encodings change length at code point boundaries and the representation choice depends on settings combined with quotes.",
 [S+"parts/xmq_printer.c",S+"parts/utf8.c",S+"parts/text.c"],
 [("utf8 printing",S+"parts/utf8.c print_utf8_internal"),("escape decision",S+"parts/xmq_printer.c")],
 (),["xmqPrint","xmqSetEscapeNon7bit","xmqSetEscapeNewlines","xmqSetEscapeTabs"])
prop("P07","Quote content is exact and independent of where the quote is indented",
 "The value of a quote is its text with only incidental indentation, the first line break and the last line break removed, according to the documented rule; a one line quote and a quote with more surrounding apostrophes denote their text verbatim. Shifting the lines of a multi-line quote by any common amount of spaces does not change its value.",
 ["inputs"],"All quote contents (apostrophes, spaces, newlines, text), quote depths, columns, line endings.",
 "A dozen quote examples are tested; incidental indentation depends on the column of the opening quote, on blank lines, on shorter lines and on trailing whitespace lines.",
 [S+"xmq.c",S+"parts/xmq_parser.c",S+"parts/text.c"],
 [("incidental trimming",S+"xmq.c xmq_un_quote / xmq_trim_quote / xmq_trim_... "),("quote scanning",S+"parts/xmq_internals.c eat_xmq_quote")],
 (),["xmqParseBuffer"])
prop("P08","Tokenizing covers the source exactly, with true positions",
 "For every XMQ source the token stream consists of non-overlapping spans in source order whose concatenation, together with nothing else, is the consumed input, each reported with the line and column where its first character stands. Tokenizing succeeds exactly when parsing finds no syntax error, and re-rendering the tokens with any colour scheme and stripping the mark-up gives back the source text.",
 ["inputs"],"All XMQ sources x callbacks (plain debug tokens, terminal, html, tex, htmq colouring).",
 "Tests tokenize a few files in location/type mode; spans around multi-line quotes, comments and continuation tokens are only sampled.",
 [S+"parts/xmq_parser.c",S+"xmq.c",S+"parts/colors.c"],
 [("DO_CALLBACK sites",S+"parts/xmq_parser.c"),("colorize callbacks",S+"xmq.c colorize_*"),("increment",S+"parts/xmq_internals.c increment")],
 (),["xmqTokenizeBuffer","xmqSetupParseCallbacksDebugTokens","xmqSetupParseCallbacksColorizeTokens"])
prop("P09","Coloured, HTML, HTMQ and TeX renderings show exactly the plain output",
 "For every document, rendering it for terminal, html, htmq or tex in any theme and removing the colour mark-up and undoing that format's character escapes gives the same characters as the plain rendering with the same settings. Every colour opened is closed.",
 ["inputs","configurations"],"All documents x render formats x dark/light x compact/pretty.",
 "Tests render a few documents; colour mark-up is emitted around every token and interacts with quotes, whitespace, escapes and line wrapping.",
 [S+"parts/xmq_printer.c",S+"parts/colors.c",S+"parts/default_themes.c",S+"parts/utf8.c"],
 [("theme strings",S+"parts/default_themes.c"),("color pre/post",S+"parts/colors.c"),("escaping when rendering",S+"parts/utf8.c print_utf8_internal")],
 (),["xmqPrint with xmqSetRenderFormat"])
prop("P10","XML and XMQ convert to each other without loss",
 "Any well-formed XML document loaded without trimming and printed as XMQ, parsed back and printed as XML, is the same XML document: elements, attributes, namespaces, text including whitespace, CDATA content, comments, processing instructions, doctype and entity references. Converting any XMQ document to XML and back gives the same XMQ document.",
 ["inputs"],"All well-formed XML documents; all XMQ documents whose names are legal XML names.",
 "Tests convert a set of sample files, mostly with heuristic trimming.",
 [S+"parts/xml.c",S+"xmq.c",S+"parts/xmq_printer.c",S+"parts/entities.c"],
 [("xml loading",S+"xmq.c xmq_parse_buffer_xml"),("comment escaping",S+"xmq.c xmq_fixup_comments_*"),("xml printing",S+"xmq.c xmq_print_xml")],
 (),["xmqParseBufferWithType","xmqPrint with XMQ_CONTENT_XML"])
prop("P11","Heuristic whitespace trimming only removes insignificant whitespace",
 "Heuristic trimming of a document never changes anything but whitespace: the tree of elements, attributes, comments and entities is kept and every text and comment keeps its sequence of non-whitespace characters and the relative indentation of its lines (a first line that does not start on a line of its own counts as indented like the second). Trimming removes whitespace-only texts and comments, whitespace at line ends, the indentation common to the lines, outer spaces and one line break at either end of a text; a document with nothing of that is left alone. The result is the same whether trimming is requested while loading or afterwards; untrimmed loading and loading XMQ trim nothing.",
 ["inputs","histories"],"All documents with whitespace in any position; all orders of load-time and later trimming.",
 "Tests trim sample xml files; indentation removal depends on every line of every text node and its position among siblings.",
 [S+"parts/xml.c",S+"xmq.c"],
 [("trimming",S+"xmq.c trim_text_node / trim_node / xmqTrimWhitespace"),("indentation removal",S+"xmq.c xmq_trim_...")],
 (),["xmqTrimWhitespace","xmqParseBuffer flags"])
prop("P12","JSON values survive JSON to XMQ to JSON",
 "Every JSON value (objects with any keys, arrays, strings with any characters, numbers, booleans, null, nested to any depth) converted to an XMQ document and printed as JSON is the same JSON value: same members in the same order, same types, same strings, same number literals. The same holds when the intermediate document is printed as XMQ (pretty or compact) and parsed back before printing JSON. The keys that encode XML itself are outside the rule: |, //, _//, ! and !DOCTYPE or ?x with string values, xmlns declarations, name[n] and a key occurring twice in one object; members whose key starts with _ (attributes) come before the others.",
 ["inputs"],"All JSON texts.",
 "Tests convert a few dozen JSON samples; type annotation (string that looks like a number, empty array/object, odd keys) depends on combinations of key, value and container.",
 [S+"parts/json.c",S+"xmq.c"],
 [("json parser",S+"parts/json.c parse_json*"),("json printer",S+"parts/json.c json_print_*"),("type attributes A, S, _",S+"parts/json.c")],
 (),["xmqParseBufferWithType JSON","xmqPrint with XMQ_CONTENT_JSON"])
prop("P13","JSON syntax is enforced and JSON output is always valid JSON",
 "Parsing as JSON accepts every RFC 8259 text and rejects with a JSON error every string that is not, and the strings it decodes are the ones the escapes denote (lone surrogates, NUL and malformed UTF-8 may go either way). Printing any document as JSON produces syntactically valid JSON.",
 ["inputs"],"All byte strings; all documents.",
 "Only a handful of malformed JSON inputs are tested and JSON output is compared as text on samples only.",
 [S+"parts/json.c",S+"parts/text.c"],
 [("json parser",S+"parts/json.c"),("json escaping",S+"parts/json.c json_print_*, "+S+"parts/text.c xmq_quote_as_c")],
 (),["xmqParseBufferWithType JSON","xmqPrint JSON"])
prop("P14","Content type detection and typed parsing agree with the content",
 "Detection classifies any buffer by its leading non-blank text alone, as documented: xml declaration, tag or comment as xml, html tag or html doctype (also after comments) as html, a JSON value's first character, or true/false/null alone, as json, anything else as xmq; leading whitespace, a UTF-8 byte order mark and trailing content (except after true/false/null) do not change the verdict. Parsing with auto-detection gives the same document as parsing with the detected type, and demanding a type that differs from the detected one fails with the matching 'expected' error, except that text may be demanded of anything, html of xml content and htmq of xmq content.",
 ["inputs"],"All byte strings x requested content type.",
 "Tests detect a few samples; detection depends on lookahead across whitespace, comments and prefixes.",
 [S+"xmq.c"],
 [("detection",S+"xmq.c xmqDetectContentType"),("typed parsing",S+"xmq.c xmqParseBufferWithType")],
 (),["xmqDetectContentType","xmqParseBufferWithType"])
prop("P15","IXML parsing accepts exactly the language of the grammar",
 "For every IXML grammar and every input, parsing succeeds exactly when the input is in the language the grammar defines under the IXML specification (alternatives, sequences, options, repetitions with and without separators, groups, terminals, hex encodings, character ranges, sets, exclusions and classes, nested and recursive rules). A syntactically broken grammar is reported as an error rather than used.",
 ["programs","inputs"],"All IXML grammars x all inputs.",
 "Tests run a few dozen grammars on one input each; recognition depends on the interaction of operators with recursion, nullability and character sets.",
 [S+"parts/ixml.c",S+"parts/yaep.c",S+"yaep/src/yaep.c",S+"xmq.c"],
 [("ixml grammar parser",S+"parts/ixml.c"),("EBNF to BNF rewriting",S+"parts/ixml.c + xmq.c"),("Earley parser",S+"yaep/src/yaep.c"),("charset fixups",S+"xmq.c scan_content_fixup_charsets")],
 (),["xmqParseBufferWithType IXML","xmqParseBufferWithIXML"])
prop("P16","IXML output is the marked-up parse tree of the input",
 "When an input has exactly one parse, the resulting document is the parse tree prescribed by the IXML specification: an element per nonterminal, '-' marks removing the wrapper, '@' marks giving attributes, '-' terminals dropped, insertions added, aliases renaming. Without deletions and insertions the text of the tree in order is exactly the input.",
 ["programs","inputs"],"All IXML grammars with marks, aliases, insertions x all inputs.",
 "Tests compare some twenty trees; marks attach to factors at different nesting of groups and repetitions.",
 [S+"parts/ixml.c",S+"xmq.c",S+"yaep/src/yaep.c"],
 [("mark handling",S+"parts/ixml.c ixml_* callbacks"),("DOM generation",S+"xmq.c generate_dom_from_yaep_node")],
 (),["xmqParseBufferWithIXML","xmqGetImplementationDoc"])
prop("P17","IXML ambiguity, determinism and grammar reuse",
 "The result is flagged ambiguous exactly when the input has more than one distinct parse, and requesting all parses yields each of them. The outcome depends only on grammar and input: it is the same on every run, whatever other documents were parsed before, and when one loaded grammar is reused for any sequence of inputs.",
 ["programs","inputs","histories"],"All grammars x inputs x sequences of uses of the same grammar.",
 "Tests parse once per process and check ambiguity for a couple of grammars.",
 [S+"parts/ixml.c",S+"xmq.c",S+"yaep/src/yaep.c"],
 [("ambiguity reporting",S+"xmq.c, "+S+"yaep/src/yaep.c make_parse"),("grammar cache in the document",S+"xmq.c xmqParseBufferWithIXML")],
 (),["xmqParseBufferWithIXML","ixml:state attribute"])
prop("P18","Files, descriptors, readers and pipes behave like buffers under any I/O pattern",
 "Parsing or tokenizing a file, stdin, a descriptor or a custom reader gives the same result as parsing its bytes from a buffer, however the reads are split. Printing to a file, descriptor or stdout writes exactly the bytes printing to memory gives, however writes are split. A missing or unreadable file yields a reported cannot-read error, and no fault leads to a crash, a hang, or a success report for a partial document.",
 ["inputs","fault_sequences"],"All read/write split patterns and all single I/O faults at every call.",
 "Tests only use regular files and full reads/writes.",
 [S+"xmq.c",S+"parts/membuffer.c"],
 [("load_file / load_stdin",S+"xmq.c"),("writers",S+"xmq.c write_print_*"),("MemBuffer growth",S+"parts/membuffer.c")],
 (),["xmqParseFile","xmqParseReader","xmqTokenizeFile","xmqTokenizeFileDescriptor","xmqSetupPrintFile","xmqSetupPrintFileDescriptor"])
prop("P19","The query API returns what XPath and the document say",
 "Foreach visits exactly the nodes selected by the XPath, in document order, and returns their number; relative queries are evaluated from the given node; stopping the iteration stops it. Typed getters return the value of the first match: strings verbatim, integers in every supported notation exactly over their whole range, doubles as strtod reads them, and the neutral value when nothing matches.",
 ["inputs","histories"],"All documents x XPath expressions x literals, and sequences of queries on one document.",
 "Tests query a handful of integers and one structure.",
 [S+"xmq.c"],
 [("xpath evaluation",S+"xmq.c xmqForeachRel"),("number parsing",S+"xmq.c xmqGetInt / xmqGetLong / xmqGetDouble")],
 (),["xmqForeach","xmqForeachRel","xmqGetInt","xmqGetLong","xmqGetDouble","xmqGetString","xmqGetName","xmqGetContent"])
prop("P20","CLI editing commands transform exactly what they name",
 "Any sequence of the select, delete, delete-entity, replace, replace-entity, substitute-entity, substitute-char-entities, add, add-root and for-each commands produces the document obtained by applying the documented effect of each command in turn to the document tree: every addressed node or entity is affected, nothing else is, and document order is kept.",
 ["histories","inputs"],"All command sequences x documents x XPath expressions.",
 "Tests run single commands on single documents.",
 [S+"xmq-cli.c"],
 [("commands",S+"xmq-cli.c cmd_select, cmd_delete, delete_entity, replace_entity, substitute_entity, cmd_add, cmd_add_root, cmd_for_each")],
 (),["xmq command line"])
prop("P21","The command line tool reports success exactly when it did the work",
 "A run of the xmq tool exits 0 exactly when every command in the pipeline succeeded, and with a non-zero status and a message on stderr, writing no document to stdout, when loading or parsing fails or an option or command is not understood. Its output is what the library produces for the same input and settings, whether printed or saved to a file, and every conversion command and option selects the format and setting it names.",
 ["configurations","inputs","fault_sequences"],"All command lines (input kinds x options x output commands) and I/O faults.",
 "Tests cover individual option combinations.",
 [S+"xmq-cli.c"],
 [("command line parsing",S+"xmq-cli.c xmq_parse_cmd_line, handle_option, handle_global_option"),("commands",S+"xmq-cli.c perform_command, cmd_load, cmd_to, cmd_output")],
 (),["xmq exit status, stdout, stderr, files"])
prop("P22","Printing is pure and documents are independent under any call history",
 "Printing a document, in any format and with any settings, any number of times and in any order, does not change the document, and each print gives the same bytes as printing a fresh copy once. Operations on one document never influence the result of operations on another, and freeing documents, states and settings in any order is safe.",
 ["histories"],"All sequences of parse/print/trim/query/free operations over several live documents and settings objects.",
 "Each test does one parse and one print per process.",
 [S+"xmq.c",S+"parts/xmq_printer.c",S+"parts/colors.c"],
 [("per-call print state",S+"xmq.c xmqPrint, xmq_print_*"),("settings setup",S+"parts/default_themes.c")],
 (),["xmqPrint","xmqParseBuffer","xmqFreeDoc"])
prop("P23","HTML and HTMQ convert to each other without loss",
 "A HTML document loaded as html and printed as HTMQ, parsed back and printed as HTML gives the same HTML document tree with the same text. Attributes without value, void elements, script and style content, character entities and comments are kept.",
 ["inputs"],"All HTML fragments the HTML loader accepts.",
 "Tests convert a few pages.",
 [S+"xmq.c",S+"parts/entities.c",S+"parts/xmq_printer.c"],
 [("html loading",S+"xmq.c xmq_parse_buffer_html"),("html printing",S+"xmq.c xmq_print_html"),("html fixup",S+"xmq.c fixup_html")],
 (),["xmqParseBufferWithType HTML","xmqPrint HTML/HTMQ"])
prop("P24","Text output, clines output and string escapes are faithful",
 "Text output of a document is exactly the concatenation of its text content in document order with entities expanded to the characters they denote (an entity nobody defines is written as &name;); clines output lists, for every attribute, every run of adjacent text and entities and every empty element, the path of (prefixed) element names that leads to it and a C string literal that decodes to its value. Quoting text as a C string and unquoting it gives back the text.",
 ["inputs"],"All documents and strings.",
 "Tests print a couple of documents as text and clines.",
 [S+"xmq.c",S+"parts/text.c",S+"xmq-cli.c"],
 [("text printing",S+"xmq.c xmq_print_text / text_print_*"),("clines",S+"xmq.c xmq_print_clines"),("C quoting",S+"parts/text.c xmq_quote_as_c / xmq_unquote_as_c")],
 (),["xmqPrint TEXT/CLINES","xmq quote-c/unquote-c"])
prop("P25","A document printed as JSON and loaded back is the same document",
 "Any document without entity references and processing instructions, whose names are ASCII and do not start with an underscore, that does not use the attributes A and S with which JSON arrays and strings are marked, and whose root holds more than text, printed as JSON (pretty or compact) and loaded again as JSON, with the type given or detected, is the same document: the same elements in the same order under the same names and namespaces, the same attributes, texts and comments. The output is valid JSON in which no object holds the same key twice, however many elements, texts and comments share a name.",
 ["inputs"],"All document trees.",
 "Tests convert a few documents.",
 [S+"parts/json.c",S+"xmq.c"],
 [("JSON printer",S+"parts/json.c json_print_*"),("JSON loader",S+"parts/json.c parse_json_*, fixup_json")],
 (),["xmqPrint JSON","xmqParseBufferWithType JSON"])
prop("P26","Transforms, validation and statistics agree with the standards and the document",
 "The transform command gives the document that applying the stylesheet with the XSLT processor to the input gives, whether the stylesheet is written as XML or as XMQ and whatever format the input has, with every --stringparam passed as a string and every --param as an expression, and fails when the stylesheet is broken or the transform fails. The validate command passes the document on unchanged exactly when the schema, written as XML or as XMQ, accepts it, and fails otherwise. The statistics command reports the size of the source and for the document as it is now the exact number of elements, text nodes, attributes, comments and CDATA sections and the bytes in their names and contents.",
 ["inputs","configurations"],"All stylesheets, schemas, parameters and documents.",
 "Tests run nine transforms, a few validations and two statistics.",
 [S+"xmq-cli.c"],
 [("transform",S+"xmq-cli.c cmd_transform, handle_option (transform)"),("validate",S+"xmq-cli.c cmd_validate"),("statistics",S+"xmq-cli.c cmd_statistics, accumulate_statistics")],
 (),["xmq transform","xmq validate","xmq statistics"])
prop("P27","Logging changes nothing and log lines are well formed",
 "Verbose, debug and trace logging, in the XMQ and in the human readable format, never change what a parse, query, print or command gives: documents, standard output, saved files, exit status and error messages are the same as without, log lines go to standard error only and nothing is logged unless asked for. A log line in the XMQ format is one line of valid XMQ with a single element, from which the name, the keys and the exact values that were logged can be read back; a human readable line shows the name in parentheses, the keys and the values as they are.",
 ["inputs","configurations"],"All inputs, commands, levels, formats and logged values.",
 "Tests never run with logging enabled and compare the results.",
 [S+"xmq.c",S+"parts/always.c",S+"xmq-cli.c"],
 [("switches",S+"xmq.c xmqSetVerbose, xmqSetDebug, xmqSetTrace, xmqSetLogHumanReadable"),("lines",S+"xmq.c xmqLinePrintf, xmqLineVPrintf"),("log functions",S+"parts/always.c verbose__, debug__, trace__")],
 (),["--verbose","--debug","--trace","--log-xmq","xmqLinePrintf"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
