"""What decides each property: explorers (mc/<name>.c), counting rule, bounds, assumptions."""
COMMON = ["gcc 13 AddressSanitizer/UBSan report every invalid memory access the explored executions make (shift-overflow checks off: gcc defines them)",
          "allocation failure is not injected"]
CHECKS = {
 "C01": {"explorers": ["c01_parse"],
  "rule": "one case = one document of the bounded grammar (one complete choice sequence), parsed by the real parser; non-trivial = parsed and the whole tree compared with the grammar's tree through every view of the API",
  "bounds": {"quick": "structure: 4 content items of 15 kinds nested at will; corner forms: sequences of 3 out of 28; all spellings of a tag with 0-2 attributes; all header/prolog/epilog forms; 0..25 attributes; 9 constructs x 50 sizes up to 70000",
             "thorough": "as quick with 5 content items, 4 corner forms"}},
 "C02": {"explorers": ["c02_reject"],
  "rule": "one case = one byte string; non-trivial = the independent recogniser gives a verdict (claimed well-formed or claimed malformed) and the parser's verdict is compared with it",
  "bounds": {"quick": "8 seeds x every prefix/deletion/duplication/replacement/insertion (17 bytes, 34 tokens) at every position; pairs of edits of 2 short seeds; all strings of <=4 tokens of 34; <=3 tokens inside an open element; bytes up to length 6; duplicates at all pairs among 2..15 attributes; nesting to 100",
             "thorough": "one more token/byte, 2..25 attributes"}},
 "C03": {"explorers": ["c03_safety"],
  "rule": "one case = one byte string given to the document, node or DTD parser; non-trivial = an object came back and was dumped, pretty dumped, copied, compared, iterated, validated and released, or a DTD was refused with an error; every case: no invalid access, no undefined behaviour, no hang, heap balance back to the start",
  "bounds": {"quick": "8 document and 9 DTD seeds x every prefix, deletion of 1-4 bytes, replacement/insertion of 24 bytes incl. NUL and invalid UTF-8, token insertion, duplication of 1-8 bytes; all token strings of length <=4 (docs: 23 tokens, DTD: 32 tokens); content models of <=6 tokens; attribute lists of <=5 tokens; entities of <=4 tokens; byte strings of length <=4",
             "thorough": "one more token/byte everywhere"}},
 "C11": {"explorers": ["c11_hash"],
  "rule": "one case = one history of table operations; after every operation items, exists, get, foreach are compared with a plain map, at the end also every cursor/foreach variant; every key/value is a tracked object whose releases are counted; non-trivial = history completed and the table freed with exact ownership",
  "bounds": {"quick": "4 hash functions (all colliding, 2 classes, distinct, extreme values) x steps 1,2,3,10; all histories of 18 operations up to length 4 (5 for steps <=2 with colliding/distinct hash); every build order of <=6 keys followed by every walk pattern, copy mode, deletion; string/int keyed tables up to 64 keys",
             "thorough": "one operation deeper; up to 120 keys"}},
 "C12": {"explorers": ["c12_list"],
  "rule": "one case = one history of list operations; after every operation length, first, last, every nth (and out of range), existence are compared with a plain sequence, at the end also lookups, exists_at and cursor walks both ways; every element is a tracked object whose releases are counted; non-trivial = history completed and the list freed with exact ownership",
  "bounds": {"quick": "5 equal functions; all histories of 29 operations up to length 4; all builds of <=4 items followed by every pair of (operation, position); lists of 0..24 items filled/dropped/refilled; the library's own string/int/pointer equal functions with 5 operations over 7 values",
             "thorough": "5 operations, builds of 5 items, lists to 40"}},
 "C13": {"explorers": ["c13_pools"],
  "rule": "one case = one history of stack, bit stack, object pool or string pool operations compared with a plain model after every operation (for pools: contents of every live block, pairwise disjointness, first-time zero fill); non-trivial = history completed and structure released",
  "bounds": {"quick": "stack histories of 9 (push, pop, push x3); bit stack histories of 8 (6 operations) and runs of every pattern of period <=6 up to 3000 values; 22 object sizes x histories of 4 out of 19 get/release operations (batches 1..120, newest/oldest/odd/all); string pool: all 5-sequences of 16 sizes around 1024/2048, 140 small sizes x 290",
             "thorough": "12 / 10 / 5 / 6 operations"}},
 "C14": {"explorers": ["c14_dtd"],
  "rule": "models: one case = one deterministic content model (Glushkov test) validated against every child sequence of the bound, each verdict compared with an independent position-set matcher (transitions = validations); kinds/levels: one case = one (declarations, document) pair; non-trivial = all verdicts compared, error reported iff negative, document unchanged, second verdict equal",
  "bounds": {"quick": "all deterministic models of <=3 particles with every ?,*,+ mark, nested groups to depth 3, and of 4 particles with one mark, x all child sequences of length <=5 over (names used + a foreign one) (<=4 from 4 letters); spacing variants; EMPTY/ANY/text/mixed/children x all contents of <=4 items of 6; all declarations of 3 elements out of 10 forms x all trees of <=3 nodes over 4 names",
             "thorough": "4 particles with 3 marks; contents of 5 items; trees of 4 nodes"}},
 "C18": {"explorers": ["c18_strings"],
  "rule": "one case = one input of one string helper, executed on exactly sized heap blocks and compared with a plain re-implementation of its documentation; non-trivial = every case",
  "bounds": {"quick": "trim: all strings <=6 over 4 characters; remove: all strings <=8 x values <=3 over 2 letters; replace: all binary strings <=6 x searched <=3 (3 bytes incl. NUL) x 4 replacements, sized and unsized; split/join/clean: all strings <=7 over 3 characters x 9 separator sets; compare: all pairs of strings <=3 over 5 characters x 6 sizes; every byte pair; printing: 22 sizes x 7 numbers x 4 formats x 8 buffer sizes",
             "thorough": "trim 8, remove 10, replace 8, split 8"}},
 "C07": {"explorers": ["c07_edits"],
  "rule": "one case = one history of tree edits with all targets enumerated; at the end the whole tree, every detached subtree and a second document are compared with a plain ordered tree through every view of the API, and everything is released with the heap balanced; non-trivial = every completed history (every prefix is a history of its own)",
  "bounds": {"quick": "27 kinds of edit, every target; 9 start trees x 4 ways to build them (parsed, API with the root set first/last, no document) x all histories of 2 edits; 2 start trees x 2 x all histories of 3 edits; with a second document: all histories of 2 edits",
             "thorough": "all histories of 3 edits on 4 start trees x 3, and on 3 x 2 / with a second document"}},
 "C08": {"explorers": ['c08_attrs'],
  "rule": 'one case = one history of attribute operations on one node, started at one size; at the end every lookup, presence/value test, count, cursor, foreach, translated/copied value, copy and dump+parse is compared with a plain map; non-trivial = every completed history',
  "bounds": {"quick": '14 start sizes (0..40, every size around the 10/11 switch) x parsed/API x all histories of 3 out of 15 kinds of operation (2 beyond 12 attributes)',
             "thorough": 'one operation deeper'}},
 "C05": {"explorers": ['c05_escape'],
  "rule": 'one case = one text set as content, CDATA or attribute (whole from a terminated block, and with explicit lengths from exactly sized blocks without terminator); every reader (translated, stored, copied, trimmed), the escaping helpers, and the readers after dump+parse (in memory or through a file) are compared with the text itself; non-trivial = every case',
  "bounds": {"quick": 'all strings of <=3 of 24 tokens with every explicit length, of 4 of 18, of 5 of 10; all byte strings of <=7 over & ] > < a; 2-3 adjacent pieces of 7 texts x 3 kinds; 34 sizes up to 40000 x 6 special pieces x 4 placements; every byte value 1..255 in 4 contexts',
             "thorough": '5 of 18 tokens, 6 of 11; byte strings of 8; 4 pieces'}},
 "C04": {"explorers": ['c04_dump'],
  "rule": "one case = one tree (built through the API or parsed); its flat dump, pretty dump, every node's dump and (smaller family) all four file dumps are produced, sizes compared with the announced ones, texts parsed back and compared with the tree as the parser is specified to see it, and dumped again; non-trivial = every case",
  "bounds": {"quick": 'structure: 4 items of 12 kinds nested at will, 3 items of 21 kinds (empty and blank texts, CDATA, comment and PI corner forms, xml:space), API-built and parsed; 4 documents x 4 encodings x standalone x tabulation 0..40 with files; 5 shapes x 13 sizes up to 300 (depth, width, attributes, content sizes); every string of up to 4 symbols of an 8-symbol alphabet as attribute value, text, CDATA, comment and PI content; edited trees',
             "thorough": 'one more item in both structure families; strings of up to 5 symbols'}},
 "C09": {"explorers": ['c09_equal'],
  "rule": 'one case = one ordered pair of trees compared in both directions by all comparison functions (exact, trimmed, full with error, node level), or one copy with one edit on one side and one order of release; non-trivial = every case',
  "bounds": {"quick": 'pairs: all trees of <=3 items x all trees of <=2 items out of 8 kinds, 2 names, 3 attribute settings; 8 base documents x every single-point change of 15 kinds at every place, and pairs of changes on 5 of them; copies of every node of 8 documents x 4 flag settings x 10 edits of either side x both release orders; a difference at every position among 1..25 attributes/siblings/levels',
             "thorough": 'pairs of trees of <=3 items; pairs of changes on all base documents'}},
 "C10": {"explorers": ['c10_lookup'],
  "rule": 'every case is distinct: a tree with all lookups, or one sequence of visitor decisions on a tree',
  "bounds": {"quick": "lookups: all trees of up to 6 elements over two names (one a prefix of the other), plain and with text/comments/CDATA/PIs between, parsed and built, all paths of up to 3 steps incl. '*'; iteration: all trees of up to 5 (4) elements, both orders, 3 entry points, every starting element, every sequence of go on/stop/remove/replace; 60 wide and deep shapes",
             "thorough": 'lookups on all trees of up to 8 elements; iteration on all trees of up to 6 (5) elements, five visitor decisions'}},
 "C15": {"explorers": ['c15_attrs'],
  "rule": 'every case is distinct: one attribute-list declaration with all its assignments, one arrangement of IDs and references, one entity or content-model declaration, one pair of definitions, or one reference graph of elements',
  "bounds": {"quick": 'all attribute lists of 1-2 attributes over 10 types and 4 defaults (declared directly or through a parameter entity, five white-space styles) x all assignments over 6-9 values; all documents of up to 3 elements with IDs, IDREF and IDREFS over 3-4 values; 2-25 attributes with one change at every position; all sequences of up to 2 entity declarations; all content models of up to 4 names read back; 6 contents x 7 element contents x 7 attribute sets x 4 ID/IDREF declarations x 3 places; all pairs of 36 element, 29 attribute-list and 9 entity declarations in 4 contexts, all pairs of definitions of up to 3 of 8 declarations; all reference graphs of up to 3 elements in 5 forms',
             "thorough": 'attribute lists of up to 3 attributes, 9 values; references on every element; up to 3 entities; content models of up to 5 names; reference graphs of 4 elements'}},
 "C20": {"explorers": ['c20_annot'],
  "rule": 'every case is distinct: one history of annotations, or one placement of instructions',
  "bounds": {"quick": 'all annotation histories of up to 3 steps over 4 nodes, 2-3 keys and 5 kinds, with moves and releases of nodes; 1-40 keys on a node; all sequences of up to 3 instructions added to document and element; all placements of up to 3 instructions over 10 places of a document',
             "thorough": 'annotation histories of 4 steps; 4 instructions'}},
 "C16": {"explorers": ['c16_ns'],
  "rule": 'every case is distinct: one document, or one history of edits and validations; nontrivial when some comparison by namespace succeeds',
  "bounds": {"quick": 'all documents of 1-2 elements over 4 names x 3 default and 3x2 prefixed declarations x 5 attributes in both orders; all documents of 3 elements (chain, siblings) over a smaller alphabet; all histories of 4 steps (declarations come, change and go, elements move, are renamed, replaced, added, validation repeated); 1-30 attributes with the needed declaration at every position; chains of up to 20 levels with declaration and redeclaration at all pairs of depths',
             "thorough": '5 names, 4 defaults, 8 attributes; histories of 5 steps; richer third element'}},
 "C06": {"explorers": [{'name': 'c06_deliver', 'ldflags': ['-Wl,--wrap=read']}],
  "rule": 'one case = one byte string and one delivery plan (where every read ends, which read fails); the real parser reads a real file through a read() that follows the plan, and verdict, tree, document properties and open files are compared with parsing the same bytes from memory; non-trivial = the comparison was made (or the injected error was reached)',
  "bounds": {"quick": '26 documents (8 malformed): all divisions into 2 and 3 reads (4 for documents below 45 bytes); every prefix read 1..16 bytes at a time; 4 kinds of filler putting byte 8192/16384 at every offset x read sizes 3; 8 constructs x 28 sizes around 8192/16384/32768 x 4 read sizes x 4 leads; all divisions into <=3 strings; EINTR/EIO/EISDIR/EAGAIN after every byte count x 3 read sizes; 8 DTDs likewise; files and DTDs opened as descriptor 0',
             "thorough": '4 reads for documents below 95 bytes; buffer boundary x a further cut at every offset; bound 24576; byte-wise reads of all long tokens'}},
 "C19": {"explorers": [{'name': 'c19_stream', 'ldflags': ['-Wl,--wrap=read']}],
  "rule": "one case = one history of stream operations on one text and delivery; every operation's result, the text returned and the cursor are compared with a plain cursor over the text, at the end the rest of the text must come out and the end must be reported; non-trivial = completed history",
  "bounds": {"quick": '12 texts x (memory, file with reads of all/1/2/3 bytes) x all histories of 2 operations (1 for the last 4 texts) out of about 120 (11 terminator sets x 6 variants, inspect, peek, accept, check, inspect_several, step, move, push, spaces, code, following, near); all texts of <=5 characters x every terminator set, variant, delivery; 11 texts at every offset around 8192/16384 x leads x reads; long texts and pushes; linked data and own allocators',
             "thorough": 'histories of 3 for one text, of 2 for all; 2 operations at the buffer boundary; texts of 6'}},
 "C17": {"explorers": [{'name': 'c17_enc', 'ldflags': ['-Wl,--wrap=read']}],
  "rule": "one case = one document or byte string with one delivery (memory, file with reads ending where the plan says); documents in an ISO 8859 part must give the tree of their UTF-8 translation (tables from Python's codecs), declared or marked UTF-8 must be accepted exactly when an independent UTF-8 recogniser accepts; non-trivial = the comparison was made",
  "bounds": {"quick": '10 encodings x 255 bytes x 8 places x 7 deliveries (one as descriptor 0); strings of <=5 bytes of 5 size classes; 37 lengths around 4096/8192/16384 x 4 patterns x 4 constructs x 4 deliveries; source and decoded boundary at every offset; checker: all strings <=4 over 18 byte classes, all pairs of bytes; UTF-8 documents: all strings <=2 (<=3 in text) over 12 classes x 4 headers x deliveries, across byte 8192; late invalid bytes; 154 detection cases; every seed with every cut, prefix and read size; all on/off sequences of 4; read errors; files ending, failing or cut at every byte of a character in 7 places, also around bytes 8192 and 16384',
             "thorough": 'checker strings <=5; UTF-8 strings <=3 everywhere, 4 in 8 classes; every encoding in the growth part; more read sizes at boundaries'}},
 "C21": {"explorers": [{'name': 'c21_knife', 'srcs': ['knife/axl-knife.c', 'knife/exarg.c'], 'cflags': ['-Dmain=knife_main', '-D__COMPILING_AXL_KNIFE__', '-I', '@REPO@/knife']}],
  "rule": "one case = one run of the tool's main () in a child process with its own input, output and options; the header is read back the way a C compiler would, the page the way a browser would, and both are parsed again by the library; non-trivial = something was generated and compared (or the verdict on the document was)",
  "bounds": {"quick": 'all DTDs of up to 4 pieces out of 11 (quotes, back slashes, tabs, line ends, comment ends), 3 file names, to screen and file; all strings of up to 3 special characters in comments, defaults and entities; comments, lines and line counts of 0..40000; all documents of up to 3 pieces out of 16 x 2 roots x (page in two styles, page into a file with a class, check only); output missing, older, equal, newer x ifnewer; all 16 sets of 4 options x input x output x kind of input; outputs that cannot be opened and inputs that cannot be read, in both modes',
             "thorough": 'DTDs of 5 pieces, strings of 4 characters, documents of 4 pieces'}},
 "C22": {"explorers": [{'name': 'c22_threads', 'libsan': ['-fsanitize=thread', '-fno-builtin', '-U_FORTIFY_SOURCE'], 'ldflags': ['-Wl,' + ','.join('--wrap=' + f for f in 'strlen memcpy memmove memset memcmp strcmp strncmp strcasecmp strncasecmp strchr strstr strcpy strcat strncpy strcspn strtok strerror read vsnprintf vsprintf vasprintf snprintf sprintf'.split())]}],
  "rule": "one case = one pair of thread programs; each execution is one interleaving of the two on the real, access-instrumented code (transitions = executions); when no byte written by one is touched by the other all interleavings commute into the one executed, otherwise all interleavings over the conflicting locations are run; every thread must get exactly what it gets alone; non-trivial = both threads ran to the end",
  "bounds": {"quick": 'all ordered pairs of 45 programs: 35 on own objects (parsing, refusing, headers, files, building, editing, items, attributes, content, dumping, comparing, DTDs, valid and invalid documents, namespaces, encodings, lists, hashes, stacks, pools, strings, annotations, escaping, streams, big, large and deep documents) and 10 reading shared objects (list, hash, DTD, document, namespaces, copies); up to 2 preemptions at conflicting accesses, when there are any',
             "thorough": 'a second program for each thread (all for the first, 3 for the second); 3 preemptions'}, "assumptions": ['memory is sequentially consistent', 'the compiler reports every access of the library (gcc -fsanitize=thread instrumentation), and C library functions touch only what their arguments say', 'the C library itself is thread safe', 'allocation failure is not injected']},
}
for _c in CHECKS.values(): _c.setdefault("assumptions", COMMON)
