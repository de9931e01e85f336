#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing a well-formed document yields exactly the document's tree",
  "For every well-formed document, parsing succeeds without reporting an error and the resulting tree contains exactly the document's elements, attributes (name and value), character data, CDATA sections, comments and processing instructions, in document order and with the right nesting, together with the declared encoding and standalone flag. Whitespace that is the only character data between two pieces of markup is dropped, as is the whitespace that starts a text directly following a comment or processing instruction, unless xml:space is 'preserve' for that element; all other text is kept byte for byte. Quoting style, optional spaces, line breaks inside tags, a byte order mark, and the choice of <x/> or <x></x> make no difference to the tree.",
  ["inputs"], "all documents generated by a bounded grammar (element nesting, mixed content, attributes, CDATA, comments, PIs, headers, every syntactic spelling), plus every size class around the attribute-storage, pool and buffer thresholds",
  "the tests parse a few dozen fixed files and mostly compare with other parses by the same code; they cannot cover the combinations of constructs and spellings",
  ["src/axl_doc.c", "src/axl_node.c", "src/axl_stream.c", "src/axl_factory.c"],
  [("document parser", "src/axl_doc.c"), ("tree construction", "src/axl_node.c"), ("tokeniser", "src/axl_stream.c")])

p("C02", "Malformed documents are rejected, and failure and error report always agree",
  "A document with unbalanced or wrongly nested tags, a duplicated attribute, an unquoted or unterminated attribute value, an unterminated tag, comment, CDATA section or processing instruction, an unterminated or repeated XML declaration, an invalid xml:space value, no root element, or anything but comments, processing instructions and whitespace after the root element (data starting with a NUL byte there is not looked at) is never accepted; nothing is claimed about exotic names, missing blanks between attributes, or a bare '&' or '<' where it is harmless; in particular no proper prefix of a document that stops before the root element is closed is accepted. Whenever parsing fails no document is returned and an error with a non-empty message and a code other than zero is reported, and whenever it succeeds no error is reported.",
  ["inputs"], "every proper prefix and every single-token deletion, duplication or substitution of every document of the bounded grammar, and every token string up to a length, judged by an independent recogniser",
  "tests contain a handful of malformed files; rejection must hold for every place and kind of damage",
  ["src/axl_doc.c", "src/axl_stream.c", "src/axl_error.c"],
  [("document parser error paths", "src/axl_doc.c"), ("error objects", "src/axl_error.c")])

p("C03", "No input makes the parsers crash, hang, read out of bounds or leak",
  "For every byte string given to the document parser, the node parser or the DTD parser, the call terminates, never reads or writes memory it does not own, and either returns an object or reports an error. After the returned object (or the error) is released no memory stays allocated, and dumping, copying, comparing or validating any tree obtained this way is equally safe.",
  ["inputs"], "every byte string over a structural alphabet up to a length, every token string up to a length, every single-byte change, insertion and deletion of seed documents and DTDs",
  "tests run few malformed inputs and without memory instrumentation",
  ["src/axl_doc.c", "src/axl_node.c", "src/axl_stream.c", "src/axl_dtd.c"],
  [("document parser", "src/axl_doc.c"), ("DTD parser", "src/axl_dtd.c"), ("stream buffer", "src/axl_stream.c")])

p("C04", "Dumping a tree and parsing the result gives back the same tree",
  "For every tree, built through the API or parsed, the flat dump of the document (its encoding, standalone flag and root; instructions outside the root are not dumped) or of any node parses back to an equal tree: adjacent texts are joined, comments gain the blank on either side which the dump adds if missing, and the whitespace which the parser drops between markup or after a comment or instruction is gone. Dumping that again yields the same bytes (with more than ten attributes on an element, up to their order). The pretty dump parses back to a tree that is equal up to the indentation whitespace it adds, and dumping to a file writes exactly the bytes of the in-memory dump. The size reported by a dump equals the length of the text produced and the size announced beforehand.",
  ["inputs", "histories"], "all trees of the bounded grammar, all tabulation widths in range, document and node dumps, memory and file",
  "tests dump a few documents and compare with stored text",
  ["src/axl_node.c", "src/axl_doc.c"],
  [("flat and pretty serialisers and their size computation", "src/axl_node.c"), ("document header/PI dump", "src/axl_doc.c")])

p("C05", "Text set on a node comes back unchanged, whatever characters it contains",
  "For every text, including markup characters, quotes, existing entity-like sequences and the CDATA terminator, setting it as content, CDATA content or attribute value (with an explicit length or up to its end) and reading the translated value back returns exactly the same bytes and length, directly (except CDATA content that holds the terminator) and after a dump and parse (except that content made only of white space is dropped by the parser). Several pieces of text in one node read back joined in order, and the trimmed reading drops exactly the surrounding white space. Nothing beyond the given length is read, the escaped form never contains a raw '<' or a bare '&' in content nor a quote in an attribute, and its length is the announced one.",
  ["inputs"], "every string up to a length over the characters and entity fragments the escaper distinguishes, with every explicit length, for content, CDATA and attribute values",
  "tests try a few strings; the escaping automaton has overlapping patterns whose interactions only show in combination",
  ["src/axl_node.c"],
  [("escaping and translation of predefined entities", "src/axl_node.c")])

p("C06", "The parse result does not depend on how the bytes are delivered",
  "A document parsed from memory, from a file, from a pipe or with any split of the data into successive reads produces the same tree or the same kind of failure, wherever read or internal buffer boundaries fall between or inside its tokens, and whatever the document's total size. The same holds when the data is fed as separate strings (also when they are read as a node of its own), and for DTDs. An interrupted read changes nothing, any other read error is reported as a failure rather than as a document, and the file is closed in every case.",
  ["inputs", "fault_sequences"], "every offset of a boundary relative to every token of the seed documents, every split of a short document into reads up to a number of cuts, every position of a failing read",
  "tests read small files that fit in one buffer, or a single larger one with one fixed alignment",
  ["src/axl_stream.c", "src/axl_doc.c"],
  [("buffer refill and chunk carry-over", "src/axl_stream.c"), ("content read-back", "src/axl_doc.c")])

p("C07", "Every sequence of tree edits leaves exactly the expected tree",
  "After any sequence of edits (adding, inserting after, removing, detaching, replacing, transferring children, setting content, emptying, renaming, copying, removing or replacing items) the tree is exactly the one a plain ordered-tree model predicts. All views agree with it: first and last child, next and previous sibling, parent, the owning document of what was parsed or added below a document's root, child count, nth child, emptiness and item order; a detached node has no parent and no siblings; and releasing everything leaves no memory allocated and none freed twice. Nodes may move to another document as long as the document they come from is released after it.",
  ["histories"], "all operation sequences up to a depth on trees created through the API and on parsed trees, with all target positions",
  "tests perform a few fixed edit scripts; link repair depends on position, item kind and history",
  ["src/axl_node.c", "src/axl_doc.c"],
  [("item list maintenance", "src/axl_node.c"), ("pool-allocated versus heap-allocated nodes", "src/axl_factory.c")])

p("C08", "A node's attributes behave as a map at every size",
  "After any sequence of setting and removing attributes (setting a name the node already has leaves its first value in place), lookups, presence tests, value tests, the attribute count, the cursor, the foreach traversal, the dump and copies all show exactly the names and values a plain map would hold, each once, for any number of attributes. Values set through the escaping and the non-escaping interfaces read back as documented, and no operation on other attributes changes a value.",
  ["histories"], "all set/remove/overwrite sequences up to a depth started at every size around the representation switch, on API-built and parsed nodes",
  "tests use small attribute sets and one big one; transitions between the two representations depend on history",
  ["src/axl_node.c", "src/axl_hash.c"],
  [("attribute list/hash dual representation", "src/axl_node.c")])

p("C09", "Copies are equal and independent, and equality detects every difference",
  "Comparing a tree with a copy of itself, with another parse of the same text or with itself succeeds, and comparing two trees that differ in one name, attribute, text, CDATA, comment or processing instruction, in one missing, extra or reordered item, fails, whichever side the difference is on. The trimmed comparison ignores only leading and trailing whitespace of text, CDATA and comments. A copy with attributes and children shares nothing with the original: changing or releasing either leaves the other as it was, and a copy without attributes or children lacks exactly those.",
  ["inputs", "histories"], "all ordered pairs of small trees, and every single-point change of larger ones",
  "tests compare a few pairs; an equality that ignores some kind of difference passes them",
  ["src/axl_doc.c", "src/axl_node.c"],
  [("document and node comparison", "src/axl_doc.c"), ("item comparison and copy", "src/axl_node.c")])

p("C10", "Lookups, navigation and iteration visit exactly the matching nodes in order",
  "For every tree, a path lookup returns exactly the elements whose chain of names from the root matches the path (an empty root step and a final '*' match any name), in document order, and nothing when none matches; the single-node and content lookups use the first of them. Lookups by name and position, next and previous by name, and whole-subtree search by name (children before deeper descendants) agree with the tree. A whole-document or subtree iteration visits every element exactly once in the documented order (document order or level by level) with its true parent, stops when the visitor asks and says so, and stays correct when the visitor removes or replaces the visited element, whose descendants are then skipped.",
  ["inputs"], "all trees up to a size over a small set of names, all paths up to a depth, both iteration modes, every stop point and every set of removals",
  "tests run a few lookups on fixed documents",
  ["src/axl_doc.c", "src/axl_node.c"],
  [("path lookup", "src/axl_doc.c"), ("iteration", "src/axl_doc.c"), ("sibling and name navigation", "src/axl_node.c")])

p("C11", "The hash table behaves as a map with exact ownership under any history",
  "After any sequence of insertions, replacements, removals, deletions, lookups, copies and cursor steps, whatever the collisions and the growth step, the table holds exactly the entries a plain map would hold: lookups, existence, item count, foreach and cursor traversals all agree. Every key and value owned by the table is released exactly once, by the right function, when it is replaced, removed or the table is freed, and never while it is still stored or has been handed over.",
  ["histories"], "all operation sequences up to a depth over keys chosen to collide, for every small growth step, with and without destroy functions",
  "tests insert a fixed set of keys in one order",
  ["src/axl_hash.c"], [("chained table with growth", "src/axl_hash.c"), ("cursor", "src/axl_hash.c")])

p("C12", "The list behaves as an ordered sequence with exact ownership under any history",
  "After any sequence of ordered insertions, appends, prepends, positional insertions, removals, unlinks (by value, pointer, position, first, last) and cursor operations, the list holds exactly the sequence a plain model predicts, and first, last, nth, length, existence, lookup and cursor movement agree with it. Each owned element is released exactly once when removed or when the list is freed, and never when it is unlinked.",
  ["histories"], "all operation sequences up to a depth over a few values, sorted and unsorted lists, with cursor interleavings",
  "tests run a few scripted sequences", ["src/axl_list.c"],
  [("doubly linked list with node recycling", "src/axl_list.c"), ("cursor", "src/axl_list.c")])

p("C13", "Stacks and memory pools honour their contracts under any history",
  "After any sequence of pushes and pops, a stack returns elements last-in first-out, reports its size, emptiness and top correctly, visits all elements in foreach, and releases what it owns once; the bit stack returns exactly the pushed values in reverse for any depth. Blocks obtained from an object pool or a string pool never overlap, keep what was written until released, are zero-filled when handed out for the first time (objects of up to 512 bytes) or NUL-terminated (strings), and spare blocks are reused only after having been given back.",
  ["histories"], "all push/pop/peek sequences up to a depth started at every depth around growth thresholds; all get/release sequences around every pool step",
  "tests push and pop one fixed pattern", ["src/axl_stack.c", "src/axl_factory.c"],
  [("stacks", "src/axl_stack.c"), ("object and string pools", "src/axl_factory.c")])

p("C14", "DTD content validation accepts exactly the documents the declarations allow",
  "For every document type definition with deterministic content models, validation of a document succeeds exactly when each element is declared and its sequence of child elements belongs to the language of its declared content model (sequences, choices, nested groups, and the ?, * and + repetitions), EMPTY elements have no content, text-only elements have no child elements, mixed elements contain only the listed child elements, and nothing inside ANY elements is constrained. The verdict is reported with an error exactly when it is negative, validating does not change the document, always terminates (including for recursive declarations), and a second validation gives the same verdict.",
  ["inputs"], "all deterministic content models up to a size over a few names, each with all child sequences up to a length, judged by an independent regular-expression matcher",
  "tests validate a few dozen fixed pairs; the validator is a hand-written recursive matcher",
  ["src/axl_dtd.c"], [("content-model parser", "src/axl_dtd.c"), ("sequence/choice matcher", "src/axl_dtd.c")])

p("C15", "DTD attribute, identity and entity declarations are enforced exactly",
  "Outside ANY content, validation rejects a document for its attributes exactly when an element with declared attributes carries an undeclared attribute, lacks a required or fixed one, has a value outside its enumeration or different from its fixed value, when two elements share an ID value, or when an ID reference (each one of a list of references) matches no ID in the document; all other attribute configurations are accepted. Declared entities can be looked up by name and kind with their exact value (the first declaration counts), redeclared elements are rejected, and the definition's parsed structure (element kinds, groups, order, repetitions) reflects the declaration text, whatever white space separates its parts. An element is top level exactly when no declaration mentions it, and the root of a definition without recursion is top level. Comparing two definitions succeeds when they were read from the same declarations (however spaced or quoted) and fails when they declare different things.",
  ["inputs"], "all attribute-list declarations up to a size with all attribute assignments over a small value set, and all arrangements of IDs and references over small documents",
  "tests check a few fixed DTDs", ["src/axl_dtd.c"],
  [("attribute-list parser and validator", "src/axl_dtd.c"), ("entities", "src/axl_dtd.c")])

p("C16", "Namespace validation accepts and resolves exactly what scoping rules define",
  "Namespace validation succeeds exactly when every prefix used by an element or attribute is declared by that element or an enclosing one (the prefix xml needs no declaration; only attributes named xmlns or xmlns:prefix are declarations), and afterwards comparing, finding and stepping by namespace and local name agree with resolution through the nearest enclosing declaration, with the default namespace applying to unprefixed elements. Validation does not change the document and may be repeated, also after declarations were added, changed or removed or elements moved, and then reflects the current document.",
  ["inputs"], "all trees up to a size with all placements of declarations (default, prefixed, redeclared, missing) and all prefix uses",
  "tests check a few fixed documents", ["ns/axl_ns_doc.c", "ns/axl_ns_node.c"],
  [("declaration tables", "ns/axl_ns_doc.c"), ("namespace-aware lookups", "ns/axl_ns_node.c")])

p("C17", "Character encodings are decoded exactly and invalid content is rejected",
  "With encoding support enabled, a document declared in any supported encoding yields the same tree as its UTF-8 translation, for every byte value the encoding defines (others are refused) and wherever read boundaries fall, from memory and from file. Content declared as UTF-8, or marked as such by a byte order mark, is accepted exactly when it consists of well-formed one to four byte sequences (overlong forms and surrogates aside), otherwise refused with an error; the reported position of invalid content is where it starts. All other UTF-8 documents parse as without the support, and after it is switched off parsing is as if it had never been on.",
  ["inputs", "configurations"], "all 256 byte values in every supported encoding, all byte strings up to a length around the decoder's classes, all placements across buffer boundaries",
  "tests load a few sample files per encoding", ["babel/axl_babel.c", "babel/axl_babel_iso88591.c", "babel/axl_babel_iso885915.c", "src/axl_stream.c"],
  [("encoding detection and configuration", "babel/axl_babel.c"), ("translation tables", "babel/axl_babel_iso8859*.c"), ("decoding while reading", "src/axl_stream.c")])

p("C18", "String helpers compute what they document, for every input",
  "Trimming, splitting, joining, replacing, removing, concatenating, comparing (plain, sized and case-insensitive), case changing (ASCII), duplicating, formatted printing and building error reports return exactly the documented result for every input string and size, including empty strings, separators at the ends, adjacent and overlapping separators, overlapping occurrences, and binary data where sizes are given. Inputs are only modified where documented, nothing outside them is touched and results are owned by the caller.",
  ["inputs"], "all strings up to a length over a small alphabet, all separator sets, sizes and positions",
  "tests call each helper with a few strings", ["src/axl_stream.c", "src/axl_error.c"],
  [("string helpers", "src/axl_stream.c")])

p("C19", "The stream reader consumes and reports exactly the bytes it should",
  "For every input and every sequence of inspect, peek, accept, read-until, skip, move and whitespace operations, each operation matches, returns and consumes exactly the bytes a plain cursor over the text would, never past the end, and reports end of data distinctly from a mismatch. This holds for memory and for buffered file streams alike.",
  ["inputs", "histories"], "all operation sequences up to a depth over short texts, from memory and file, with buffer boundaries at every offset",
  "tests reach the reader only through complete documents", ["src/axl_stream.c"],
  [("stream cursor and buffer", "src/axl_stream.c")])

p("C20", "Annotations and processing instructions are stored and found exactly",
  "Data annotated on nodes (pointers, integers, strings, doubles) is returned exactly as stored, under its own key, from the node itself or, on request, from the nearest ancestor holding that key, also after nodes are moved; replaced annotations and those of released nodes are freed exactly once, and none earlier. Processing instructions added to or parsed into a document (before or after the root element) or an element can be tested for, listed and read by target with their exact content, in order, for any number of them and with or without content.",
  ["histories", "inputs"], "all annotation sequences up to a depth over a chain of nodes, keys and kinds; all placements of instructions over small documents",
  "tests annotate one node and read one instruction", ["src/axl_node.c", "src/axl_doc.c"],
  [("annotations", "src/axl_node.c"), ("processing instructions", "src/axl_doc.c")])

p("C21", "The axl-knife tool translates documents and DTDs without changing their meaning",
  "For every DTD the library accepts, axl-knife --dtd-to-c writes a C header that defines one string macro, named after the file, whose value is the text of the DTD (white space between words aside) and parses to the same declarations. For every document it accepts, --htmlize writes an HTML fragment whose visible text is a well-formed document with the same elements, attributes, comments, sections and text (white space around them and processing instructions aside). Input that is not valid or cannot be read, and output that cannot be written, is reported and produces nothing; --check-xml tells right documents from wrong ones. The result goes to the output file when one is given, with --ifnewer only when the input is newer, and options that lack one they need or exclude each other are refused with an error status.",
  ["inputs", "configurations"], "all DTDs and documents built from a set of pieces up to a length, all special characters in all literal positions, all option sets and file ages",
  "tests run the tool on four DTD files", ["knife/axl-knife.c", "knife/exarg.c"],
  [("translation of DTDs and documents", "knife/axl-knife.c"), ("options, dependencies and exclusions", "knife/exarg.c")])

p("C22", "Threads that change no shared object never disturb each other",
  "When two threads use the library at the same time, each on documents, DTDs, streams, lists, hashes, stacks, pools and strings of its own, each gets exactly the results, errors and texts it would get alone, for every interleaving of the two. The same holds while both only read (look up, traverse, dump, compare, copy, validate against) a list, hash, DTD or document that nobody changes.",
  ["interleavings"], "all pairs of a set of thread programs, with every interleaving (reduced by independence of accesses, bounded preemptions where accesses conflict)",
  "tests use one thread", ["src/axl_doc.c", "src/axl_node.c", "src/axl_dtd.c", "src/axl_list.c", "src/axl_stream.c", "ns/axl_ns_node.c", "babel/axl_babel.c"],
  [("no hidden state shared between objects", "src/*.c, ns/*.c, babel/*.c"), ("reading without writing", "src/axl_list.c, src/axl_hash.c, src/axl_dtd.c, src/axl_node.c, ns/axl_ns_node.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
