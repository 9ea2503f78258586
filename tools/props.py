"""Configuration of every check: which harness, which build of the code under test, what it covers."""
PROPS = {}
NOT_APPLICABLE = {}
def check(pid, harness, rule, bounds, flavor="asan", **kw):
    PROPS[pid] = dict(harness=harness, flavor=flavor, rule=rule, bounds=bounds, **kw)

check("P03", "p03.cc",
  rule="depth first enumeration of every text over the listed alphabets, at every position, under every setting; a case is non-trivial when its printed xmq differs (distinct outcomes are counted by hash of the output)",
  bounds={"quick":"28 symbols to length 2, 6 symbols to length 4, 2-3 lines of 16 fragments, runs to 1025, code points, compact quotes over 18 symbols to length 4",
          "thorough":"28 symbols to length 3, 6 to length 6, 2-4 lines, every code point in 4 forms, quotes to length 5"},
  note="exhaustive within the bounds: every text of the listed alphabets/lengths, in nine document positions, under ten printer settings, is printed by the real printer and re-read by the real parser; the oracle is identity of the text")

check("P01", "p01.cc",
  rule="depth first enumeration of every string over the listed token and character alphabets, every single edit and truncation of rich documents, and every combination of the listed node forms; the reference parser in mc/refxmq.h decides acceptance, tree, error kind and position",
  bounds={"quick":"25 tokens to length 4, 13 characters to length 5, 27 value characters to length 3, quote/comment/entity alphabets to length 5-6, every 1-byte edit and every truncation of four documents, all triples of 24 node forms with 7 separators, nesting and lengths to 2000",
          "thorough":"25 tokens to length 5, 13 characters to length 6, values to 4, quotes to 7, comments to 8, two-byte edits"},
  note="the reference parser is written from the grammar in doc/xmq.tex; every explored string is parsed by both and compared, which is also the conformance check of the model")

check("P07", "p07.cc",
  rule="depth first enumeration of every quote content over the listed alphabets and line fragments in every listed position; the documented trimming rule in mc/refxmq.h (written line by line from doc/xmq.tex) decides the value",
  bounds={"quick":"contents of 1-6 symbols, 2-4 lines of 10 fragments, 12 positions, shifts by 7 amounts of 2-4 lines, quote depth to 72, one-line contents of 26 symbols to length 3, sizes to 10000",
          "thorough":"contents to 7 symbols, 2-5 lines, depth to 300"},
  note="exhaustive within the bounds; shift invariance compares the implementation with itself")

check("P04", "p04.cc",
  rule="depth first enumeration of every document tree built from the listed node forms, contents and declarations; the printed xmq is parsed back and the canonical dump of the two trees compared",
  bounds={"quick":"all sequences of 1-3 of 32 node forms and all pairs in 4 nestings, 6^4 prologs/epilogs with doctype, comments of 7 symbols to length 5 and of 12 other characters to length 4, processing instructions of 11 symbols to length 3, 10 doctypes, 1-2 attributes of 21 values, two nested levels of 8 declarations x prefixes x attributes, mixed content of 8 items to length 5, names, sizes to 1000",
          "thorough":"all settings, three attributes, comments to 6 and 5, mixed content to 6"},
  note="exhaustive within the bounds; oracle is identity of the tree")

check("P05", "p05.cc",
  rule="depth first enumeration of documents, strings and log line argument lists; each output must be one line, must parse, and must denote what it was made from",
  bounds={"quick":"all sequences of 1-3 of 32 node forms in compact form and as xmqLineDoc, 9x9 texts with line breaks in 7 places, up to three log values of 20, formats with several arguments and expansions around the 1 kB buffer steps up to 140 kB, 17 dimensions of a document in 33-47 sizes up to 8192, compact quotes over 16 symbols to length 4",
          "thorough":"compact quotes to length 5"},
  note="exhaustive within the bounds; oracle is identity with what was logged or printed")

check("P06", "p06.cc",
  rule="depth first enumeration of every text over the listed alphabet in every value position under every combination of escape settings, and of every code point",
  bounds={"quick":"12 symbols (ASCII, 2-4 byte characters, controls) to length 3 x 8 positions x 32 settings, code points in 400 blocks of 256 (the whole BMP, sampled planes above), pairs of 32 node forms x 32 settings, 17 dimensions of a document in 33-47 sizes up to 8192 x 16 settings",
          "thorough":"texts to length 4, every code point of all planes"},
  note="exhaustive within the bounds; output bytes are inspected and the output parsed back")

check("P08", "p08.cc",
  rule="the source spaces of P01, each source tokenized with debug, content, terminal, html and tex callbacks in both modes; every span is located in the source, every position recomputed, every mark-up stripped",
  bounds={"quick":"25 tokens to length 3, 13 characters to length 4, 27 value characters to length 2, quotes to 4, comments to 5, every 1-byte edit and truncation of four documents, pairs of 24 node forms with 7 separators, sizes to 2000",
          "thorough":"25 tokens to length 4, 13 characters to length 5, values to 3, quotes to 6, comments to 7, two-byte edits"},
  note="exhaustive within the bounds; the span kinds are compared with the reference grammar's tokens, all else with the source itself")

check("P09", "p09.cc",
  rule="depth first enumeration of document trees, texts and names; each is printed plain and rendered as terminal, html (page and raw), tex and with caller supplied white space in both modes, the mark-up is stripped by an independent reader and compared with the plain output",
  bounds={"quick":"all sequences of 1-3 of 32 node forms x 2-4 settings x nesting, 21 symbols (every character some format escapes, unicode spaces) to length 3 in 7 places x 2-5 settings, 2-3 lines of 8 fragments in 4 places, names with namespaces, prologs, html id/class of 29 lengths up to 10000, every code point to U+30FF, U+FE00-FFFF and the emoji in 4 places, 17 dimensions of a document in 33-47 sizes up to 8192",
          "thorough":"texts of 4 symbols, 5 lines, every code point to U+1FFFF"},
  note="exhaustive within the bounds; oracle is the plain output of the same document and settings")

check("P10", "p10.cc",
  rule="depth first enumeration of XML texts (content items, nesting, prologs, attribute values, comments, processing instructions, namespaces, names) taken through XMQ and back, and of XMQ sources and trees taken through XML and back; libxml2 reading the same text is the oracle",
  bounds={"quick":"all sequences of 1-3 of 35 XML content items, 8^4 nested mixes, 10 doctypes x 5 declarations x miscellany, attribute values of 18 symbols to length 3, texts of 10 symbols to length 4, comments of 9 symbols to length 5 both ways, processing instructions of 10 symbols to length 4, three levels of 7 namespace declarations, names, pairs of 37 XMQ nodes, prologs, pairs of 32 tree forms, 17 dimensions of a document in 33-47 sizes up to 8192",
          "thorough":"attribute values to 4, texts to 5, comments to 6, processing instructions to 5, triples of XMQ nodes and tree forms"},
  note="exhaustive within the bounds; oracle is libxml2's own reading of the original text")

check("P12", "p12.cc",
  rule="depth first enumeration of JSON values: strings, look-alikes, keys, members, shapes, code points, sizes, namespaces; each is read, printed as JSON directly and after a round trip through pretty, compact and escaped XMQ, and the output read by the reference JSON parser",
  bounds={"quick":"strings of 37 symbols to length 2 in 9 places x 3 escape styles, number-like strings of 8 symbols to length 5, 43 special strings as value and key, keys of 26 symbols to length 3 x kinds x places, keys of 8 symbols ending in ] to length 5, pairs of 30 keys x 12 kinds, triples, shapes of 3 inner nodes, the BMP and sampled planes, sizes to 20000, nesting to 600",
          "thorough":"strings and keys one longer, number-like strings to 6, shapes of 4, every code point"},
  note="exhaustive within the bounds; oracle is an independent RFC 8259 reader and identity of the value; keys reserved for encoding XML (|, //, _//, !DOCTYPE with string values, name[n], the same key twice) are outside the rule, attribute members (_x) come first")

check("P13", "p13.cc",
  rule="depth first enumeration of strings over JSON tokens and bytes, edits and truncations of JSON texts, and of document trees printed as JSON; the reference reader of mc/refjson.h (RFC 8259) decides acceptance, decoded strings and validity of the output",
  bounds={"quick":"15 tokens to length 5, container bodies of 10 tokens to length 5 in 7 frames, numbers of 8-14 symbols to length 5, 45 words in 20 frames, every byte in 25 places, string contents of 17 fragments to length 4, escapes to length 3, every 1-byte edit and truncation of three documents, nesting to 1000 with defects; output: sequences of 1-3 of 32 node forms in 2-6 roots, type mark attributes x 13 contents x 5 places, texts of 21 symbols to length 3 in 9 places, prologs, 28 sources",
          "thorough":"tokens, containers, numbers, strings, escapes, texts one longer, two-byte edits"},
  note="exhaustive within the bounds; lone surrogates, NUL and malformed UTF-8 may be accepted or rejected")

check("P14", "p14.cc",
  rule="depth first enumeration of strings over the words detection looks at, of prologs, leading bytes and trailing content, and of sources x requested type x flags; a reference written from the documentation decides the verdict, typed and detecting parses are compared with each other",
  bounds={"quick":"25 words to length 5, prologs of 4 from 8 pieces x 36 first tags, every leading pair of bytes, 32 starts x 16x16 endings, 54 sources x 8 types x 4 flags x implicit root, 16 words to length 3 x 8 types, comments of 0-5 of 13 pieces x 7 continuations",
          "thorough":"words to 6, prologs of 5, typed words to 4, comments of 6"},
  note="exhaustive within the bounds; names beginning with html and a non-alphanumeric (<html-x>) and <!doctype not followed by white space are unspecified")

check("P11", "p11.cc",
  rule="depth first enumeration of texts, lines and mixed content; each document is trimmed and compared node by node with the rule written in the harness, and trimming while loading with trimming later",
  bounds={"quick":"7 white space and text symbols to length 5 in 9 places (3-5 symbols to length 7), 2-5 lines of 5-10 fragments with 4 beginnings and endings in 3 places, xml content of 10-17 items to length 4 in 3 prologs, 3 content models, html content of 9-14 items to length 4 in 3 pages, xmq content of 12 items to length 4, sizes to 3000, depth to 60",
          "thorough":"one symbol, line and item more, depth 300"},
  note="exhaustive within the bounds; where tabs and spaces are mixed within one indentation only the text and the tree are compared")

check("P24", "p24.cc", cli="plain",
  rule="depth first enumeration of trees, texts in every place, entity sequences and sources printed as text and clines under three settings, an independent C string reader and XPath engine (libxml2) judge every line; every string over the listed symbols is quoted and unquoted by the tool",
  bounds={"quick":"all sequences of 1-3 of 32 node forms in 3 roots, texts of 25 symbols to length 3 in 6 places, 1-3 of 17 entities in 4 places, tree shapes of 5 operations, 22 sources, quote-c of 16 symbols to length 3, unquote-c of 18 escapes to length 3, every character to U+30FF quoted and unquoted in 4 contexts, 17 dimensions of a document in 33-47 sizes up to 8192",
          "thorough":"texts, shapes, quote-c and unquote-c one longer, every code point"},
  note="exhaustive within the bounds; paths through default namespaces (not selectable by plain XPath) are compared as text only")

check("P22", "p22.cc",
  rule="depth first enumeration of documents x settings x operations between prints, of all operation histories over two document slots, and of operations started inside every callback; each result must equal what a process that does nothing else observes",
  bounds={"quick":"16 sources x 19 settings x 19 settings x 3 operations between, one settings object over 3 prints, all pairs of 73 render setups of one settings object on 4 documents, histories of 3 operations from 14 over 2 slots with 4x4 starting documents, 7 operations inside each of the first 40 callbacks of 8 outer operations, 5! orders of freeing x 32, 32x32 node forms x 3 positions x 19 settings",
          "thorough":"histories of 4, the first 400 callbacks"},
  note="exhaustive within the bounds; reentrancy is explored at callback points (writer and visitor callbacks), the library starts no threads")

check("P19", "p19.cc",
  rule="depth first enumeration of small document trees x every XPath step from every node, of path expressions of two steps with predicates, unions and abbreviations over rich documents, of literals x notations x places, and of histories of queries; an independent XPath evaluator written from the recommendation decides which nodes are visited and in which order, strtod and exact arithmetic decide the numbers",
  bounds={"quick":"every tree of 1-3 nodes of 6 kinds x 12 axes x 8 node tests from every node, 9 documents as xmq and xml x all pairs of steps (12 axes x 8 tests x predicates), all unions of two steps, 24 abbreviated paths, 32 malformed or non node set expressions, counting, visiting, stopping after 1 and 2, 2^k-4..2^k+4 for all k in 6 notations and 6 places for int and long, 16384 small integers, doubles of 3x9x9x14 parts and 12 symbols to length 4, strings of 15 symbols to length 3, histories of 3 queries of 15, sizes to 20000",
          "thorough":"trees of 4 nodes, all predicates, words one longer, histories of 4, sizes to 70000"},
  note="exhaustive within the bounds; integers outside the range of the type, signs together with a base prefix and text in several pieces are unspecified")

check("P20", "p20.cc", cli="asan",
  rule="depth first enumeration of sequences of editing commands over documents, run with the command line tool (built with the address sanitizer) on scratch files; a reference applies the documented effect of every command in turn to a DOM, the printed document, the output of the shell commands, the exit status and the absence of output after a failure are compared",
  bounds={"quick":"11 documents (entities in every place, character entities, CDATA, namespaces, several roots, top level text, json, none) x 111 commands x 2 output formats, all pairs of 67 commands, all triples of 12, all 67 on 7 dimensions of a document in up to 17 sizes (above 300 every 8th), chains of up to 129 commands","thorough":"all triples of 33 commands, all 34 sizes"},
  note="exhaustive within the bounds; text nodes next to each other count as one, namespace and document nodes as matches, elements inside an attribute and values of undeclared entities are unspecified (no crash)")

check("P21", "p21.cc", cli="plain",
  rule="depth first enumeration of command lines, inputs, options, environments and faults; the tool is run in a scratch directory and its exit status, standard output, messages and files are compared with what the library prints in this process for the settings the options name and with a reference of the command line; for faults every number of bytes after which writing fails is enumerated",
  bounds={"quick":"loading: 17 inputs x 5 ways of giving them x 1-2 of 21 global options; printing: 11 commands x up to 2 of 23 options x 3 ways of output; all command lines of up to 3 of 40 words and of 4 of 13; pipelines of up to 3 of 15 steps on 5 inputs; tokenize in 8 types; writes that stop after 0-89 bytes and around the buffer sizes; 15 faults x 9 commands x 4 sizes; 6 attribute lists x up to 3 of 8 children against a schema; parameters of up to 3 of 10 symbols; 14 transforms; 648 environments x 12 commands with and without a terminal",
          "thorough":"more inputs for option pairs, three options, command lines of 5 of 13 words, pipelines of 4 steps, writes that stop after 0-399 bytes, 4 children, parameters of 4 symbols"},
  note="exhaustive within the bounds; interactive commands (page, browse on a terminal) and asking an xterm for its colours are not exercised; words after which nothing is promised are only checked for silent failures")

check("P23", "p23.cc",
  rule="depth first enumeration of HTML texts (content items in frames, every element below and next to every other, texts, raw text, attributes, comments, prologs, broken mark-up, code points, named entities, sizes) loaded as html, printed as htmq under several settings, parsed back and printed as html; libxml2's own reading of the original text is the oracle",
  bounds={"quick":"1-2 of 48 items in 10 frames and 3 of 24 in 2, 89x89 elements in 4 shapes, texts of 29 symbols to length 3 in 4-8 places, script and style of 23 symbols to length 3, 1-2 of 40 attributes on 6 elements, comments of 12 symbols to length 3 in 4 places, 9 doctypes x 6^3 miscellany x 10 bodies, 26 tokens of broken mark-up to length 3, the BMP, every named entity, sizes to 4000, 1-2 of 24 htmq items",
          "thorough":"one symbol, item, attribute and token more, every code point"},
  note="exhaustive within the bounds; a comment with the escape character U+2410 and attribute order are outside the comparison, an attribute with an empty value is one without value")

check("P18", "p18.cc", ldflags=["-Wl,--wrap=fopen,--wrap=open,--wrap=read,--wrap=fileno,--wrap=close"],
  rule="depth first enumeration of sources x entry points x every way a pipe, fifo, descriptor or reader delivers the bytes in pieces x a fault at every call (injected by wrapping the calls of the library's objects, and really with a descriptor that ends in an unmapped page), and of documents x settings x output targets x histories of targets x write faults; the same bytes parsed from and printed to memory are the oracle, memory and descriptors must be released",
  bounds={"quick":"33 contents to 8 bytes in every composition x 14 entry points x fifo/stdin/reader, 36 sizes to 131072 around every buffer size x 6 kinds x 5 piece sizes, up to 3 cuts among 11 points, 12 unreadable places, 1-2 faults of 7 errors at every call of every delivery in up to 4 pieces, faults after whole blocks, 8 open errors, histories of 3 reads of 9, 12 documents x 11 settings x 7 targets, histories of 3 of 14 target uses, a failing writer or reader after each of the first 16 calls or bytes, full disks",
          "thorough":"contents to 12 bytes, all compositions with faults, 16 cut points in 20500 bytes, histories of 4, 40 failing positions"},
  note="exhaustive within the bounds; an interrupted or would-block read may be retried or reported; running out of memory is outside")

check("P15", "p15.cc", flavor="plain",
  rule="depth first enumeration of ixml grammars over the listed constructs; every grammar is spelled as text, loaded by the real front end and used on every input of the listed alphabet and length; a reference engine built from the grammar's abstract syntax decides membership; token sequences are judged by the specification's own grammar of ixml",
  bounds={"quick":"all one term grammars of 17 factors x repetitions x separators, all pairs of 32 terms in sequence and alternative, two levels of 8 wrappings, two mutually recursive rules, three rules, sets of 1-2 of 44 members against 220 characters, spellings, names, literals; inputs of 3 letters to length 3-4; pairs of 44 code points as terminals, ranges and members, 13 numbers to 128 of generated rules of 7 kinds; every sequence of up to 3 of 31 ixml tokens in three places, every one token edit of a rich grammar",
          "thorough":"three levels of wrappings, longer rules, token sequences to length 4"},
  note="exhaustive within the bounds; the reference computes membership by a fixpoint over spans and does not share code with the parser")

check("P16", "p16.cc", flavor="plain",
  rule="depth first enumeration of ixml grammars with marks, aliases and insertions; a reference engine enumerates every derivation of the grammar's abstract syntax over the input and applies the marks; the document must be that tree (one of them when there are several)",
  bounds={"quick":"marks and aliases of rules, references and literals in a chain of three rules, 10 marked factors x 12 x 12 contexts, two factors next to each other in 25 contexts, sequences of 1-3 of 15 insertions and factors, contents of attributes, recursive rules, four expression grammars over all inputs to length 5, 23 kinds of characters, trees of up to 1000 siblings and levels",
          "thorough":"longer sequences, more marks, longer inputs"},
  note="exhaustive within the bounds; a doubled attribute and a document without a single root element are left unspecified")

check("P17", "p17.cc", flavor="plain", cli="plain",
  rule="depth first enumeration of ixml grammars and inputs whose derivations a reference engine enumerates, and of all histories of uses of one or two loaded grammars compared with a process that makes that use alone",
  bounds={"quick":"two and three mutually recursive rules of up to 2-3 symbols (every parse compared), pairs of 36 terms, readings with different marks, growing numbers of parses, inputs of 2 letters to length 3-5; histories of 3 operations of 13 over 7x7 grammars, kept documents, tool runs of 7 grammars x 5 inputs x 3 flags four times",
          "thorough":"longer rules, histories of 4"},
  note="exhaustive within the bounds; alternatives of hidden rules cannot be told apart inside AMBIGUOUS elements, so the set of all parses is compared for grammars of visible rules only; several derivations of one and the same tree are left unspecified")

check("P02", "p02.cc",
  rule="depth first enumeration of byte strings (short strings over all bytes, sequences of tokens, every part of and every small damage to rich documents, sizes, nesting) x content types; each is parsed from a heap block of exactly its size under the address sanitizer, the outcome, error number and message are compared, everything in the document is visited and the parse is repeated while the memory in use is compared",
  bounds={"quick":"all strings of up to 2 bytes, of 3 of 108 bytes, of 4 of 29 bytes, 128 lead bytes x 0-3 continuations in 16x5 places, each in all 9 content types; up to 4 of 21-31 tokens of each of 5 formats, 1-3 of 25 tokens inside 4 grammars; every substring of 23 rich documents, every byte of them replaced or a byte inserted by 41 others, 1-8 removed, 1-40 doubled, every beginning joined to every end (steps of 7); 6 flags x 4 implicit roots x 11 entries; up to 3 of 19 parses into one document; contents of up to 5 bytes for 8 grammars x 3 flags; 55 kinds of long inputs to 131072, 30 kinds of nesting to level 1000000, 9 recursive grammars with content to 100001","thorough":"5 of 29 bytes, 5 tokens, every byte at every place, steps of 3, contents of 6 bytes"},
  note="exhaustive within the bounds; libxml2's own messages replace the error message for xml and html; running out of memory is outside")

check("P25", "p25.cc",
  rule="depth first enumeration of document trees (forms of children in sequence and nested, comments and doctype around the root, texts, words that JSON writes without quotes, namespaces, patterns of repeated names, sizes, code points); each is printed as JSON and loaded again, with the type given and with the type detected; oracle: the canonical dump of the tree is the same, the output is JSON by the reference reader and no key occurs twice in an object",
  bounds={"quick":"1-3 of 29 forms, pairs in 4 frames, 0-2 comments of 2 kinds on either side of the root, texts of 17 symbols to length 3 in 4 places, 28 words x 12 x 12 names, two levels of 7 declarations, 1-6 children of 5 kinds, 20 sizes to 1024 x 8 kinds, code points to U+3000 and every 61st",
          "thorough":"texts to length 4, 7 children, every code point"},
  note="exhaustive within the bounds; entities, processing instructions, array and string marks, names starting with _ and a root with nothing but text are outside the rule")

check("P26", "p26.cc", cli="plain", ldflags=["-lxslt"],
  rule="depth first enumeration of stylesheets (bodies in sequence, output and white space declarations, written as XML and as XMQ) x inputs of every format, parameters, chains of transforms, loaded documents and included sheets, of schemas (content models, types, namespaces, written as XML and as XMQ) x documents, and of documents whose statistics are asked for; the tool is run in a scratch directory; oracle: libxslt and libxml2 called directly on the XML text of the stylesheet or schema, and a count over the document tree",
  bounds={"quick":"24 bodies in sequences of 1-2 x 7 declarations x 6 inputs (XMQ, XML, JSON, HTML, several roots, entities) x 2 notations x 3 outputs, 24 bodies x 5 patterns, white space of 3 kinds between everything, 1-3 parameters of 14 values and 5 names, 0-200 parameters, 2-3 of 5 transforms after each other, 6x6 loaded files with and without an included or imported sheet, 3 kinds of content models of 1-2 of 5 particles x 0-2 of 11 children, 14 types x 20 values in 3 places, 8 schemas x 12 documents, statistics of 1-2 of 32 forms in 3 notations and 4 outputs, 10 sources given in 3 ways with 4 trimmings, 11 sizes x 6 kinds to 65536, after 1-2 of 8 commands","thorough":"all bodies with all declarations, all parameter values, three forms"},
  note="exhaustive within the bounds; what a relative name inside a stylesheet in another folder refers to, stylesheets that import XMQ stylesheets, and attributes at the top of a result are unspecified")

check("P27", "p27.cc", cli="plain",
  rule="depth first enumeration of sources x commands and pairs of commands x logging levels x log formats, of words given as arguments and contents, of token strings, documents, grammars and inputs parsed and printed by the library with and without logging, of sequences of switches and of log lines with every value; oracle: the run without logging must give the same, and the line must read back as what was logged",
  bounds={"quick":"26 sources x 43 commands x 4 levels x 2 formats, all pairs of the 43 commands, 6 places for words of 24 symbols to length 2, 24 symbols to length 3 as 8 types, 32 node forms in sequences of 1-2 x 3 levels x 2 formats x 3 flags, 9 grammars x 6 symbols to length 3 x 3 levels x 3 flags, all sequences of 5 of 8 switches, objects of 0-3 keys with 17 values, texts of 24 symbols to length 3 in 4 line forms, sizes around 8 buffer sizes to 65536",
          "thorough":"pairs of commands on 4 sources and 3 levels, symbols to length 4, objects of 4 keys"},
  note="exhaustive within the bounds; messages that are also given without logging, and the dump of grammar and states by the IXML parser at debug levels, have formats of their own")
