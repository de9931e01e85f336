seed("c11-replace-destroy", "C11",
 [("src/axl_hash.c", "		node->data_destroy = data_destroy;\n	}\n", "		if (data_destroy != NULL)\n			node->data_destroy = data_destroy;\n	}\n")],
 "a value stored with a destroy function replaced by one stored without it", "the table releases a value it does not own",
r'''
static int n; static void d (axlPointer p) { n++; }
int main (void) { axlHash *h; axl_init (); h = axl_hash_new (axl_hash_string, axl_hash_equal_string); axl_hash_insert_full (h, "k", NULL, "v", d); axl_hash_insert (h, "k", "w"); CHECK (n == 1);
 axl_hash_free (h); CHECK (n == 1); return 0; }
''')
seed("c12-cursor-unlink-last", "C12",
 [("src/axl_list.c", "	/* configure the cursor to point to the next element (or the previous if the next element is null) */\n	cursor->current = (node->next != NULL) ? node->next : node->previous;\n\n	/* call to unlik */", "	/* configure the cursor to point to the next element */\n	cursor->current = (node->next != NULL || node->previous == NULL) ? node->next : node->previous->previous;\n\n	/* call to unlik */")],
 "unlinking the last element of a list of two or more through a cursor", "the cursor skips the element before the one unlinked",
r'''
int main (void) { axlList *l; axlListCursor *c; axl_init (); l = axl_list_new (axl_list_always_return_1, NULL);
 axl_list_append (l, "a"); axl_list_append (l, "b"); axl_list_append (l, "c"); c = axl_list_cursor_new (l); axl_list_cursor_last (c); axl_list_cursor_unlink (c);
 CHECK (axl_list_length (l) == 2); CHECK (axl_list_cursor_has_item (c)); CHECK (!strcmp (axl_list_cursor_get (c), "b"));
 axl_list_cursor_unlink (c); CHECK (axl_list_cursor_has_item (c)); CHECK (!strcmp (axl_list_cursor_get (c), "a")); axl_list_cursor_free (c); axl_list_free (l); return 0; }
''')
seed("c13-string-exact-fit", "C13",
 [("src/axl_factory.c", "	if ((factory->size - factory->index - 1) < size ) {", "	if ((factory->size - factory->index) < size ) {")],
 "string pool requests that exactly exhaust the current block", "the terminator of a string that exactly fits the first block is written outside it",
r'''
#include <axl_factory.h>
int main (void) { axlStrFactory *f; char *p; axl_init (); f = axl_string_factory_create (); p = axl_string_factory_alloc (f, 1000); memset (p, 'a', 1000);
 p = axl_string_factory_alloc (f, 23); memset (p, 'b', 23); CHECK (strlen (p) == 23); p = axl_string_factory_alloc (f, 10); memset (p, 'c', 10); axl_string_factory_free (f); return 0; }
''')
seed("c02-close-prefix", "C02",
 [("src/axl_doc.c", "	if (axl_cmp (axl_node_get_name (node), string)) { ", "	if (axl_stream_cmp (axl_node_get_name (node), string, result_size)) { ")],
 "a closing tag whose name is a proper prefix of the open element's name", "wrongly nested tags are accepted",
r'''
int main (void) { axlDoc *d; axlError *e = NULL; axl_init (); d = axl_doc_parse ("<note><item>x</it></note>", -1, &e); CHECK (d == NULL); CHECK (e != NULL); axl_error_free (e);
 d = axl_doc_parse ("<note><item>x</item></note>", -1, NULL); CHECK (d != NULL); axl_doc_free (d); return 0; }
''')
seed("c14-optional-last", "C14",
 [("src/axl_dtd.c", "				if (status == axl_true)\n					child_pos++;\n				break;\n			}\n\n			/* zero or many items to match */", "				if (status == axl_true) {\n					child_pos++;\n					if (iterator > 0 && iterator + 1 == axl_dtd_item_list_count (itemList))\n						continue;\n				}\n				break;\n			}\n\n			/* zero or many items to match */")],
 "a sequence ending with an optional element that appears twice", "(a,b?) accepts a,b,b",
r'''
int main (void) { axlDtd *t; axlDoc *d; axlError *e = NULL; axl_init (); t = axl_dtd_parse ("<!ELEMENT r (a,b?)><!ELEMENT a EMPTY><!ELEMENT b EMPTY>", -1, NULL); CHECK (t);
 d = axl_doc_parse ("<r><a/><b/></r>", -1, NULL); CHECK (axl_dtd_validate (d, t, NULL)); axl_doc_free (d);
 d = axl_doc_parse ("<r><a/><b/><b/></r>", -1, NULL); CHECK (!axl_dtd_validate (d, t, &e)); axl_error_free (e); axl_doc_free (d); axl_dtd_free (t); return 0; }
''')
