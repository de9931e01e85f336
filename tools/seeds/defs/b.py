seed("c01-cdata-blank", "C01",
 [("src/axl_doc.c", "				axl_node_set_cdata_content_from_factory (doc->content_factory, node, string, -1);\n				continue;", "				if (axl_binary_stack_peek (doc->xmlPreserve) || ! __axl_doc_is_white_space (string))\n					axl_node_set_cdata_content_from_factory (doc->content_factory, node, string, -1);\n				continue;")],
 "a CDATA section made only of white space", "the CDATA section is lost",
r'''
int main (void) { axlDoc *d; axlItem *i; axl_init (); d = axl_doc_parse ("<r><a/><![CDATA[ \n ]]></r>", -1, NULL); CHECK (d); i = axl_item_get_last_child (axl_doc_get_root (d)); CHECK (axl_item_get_type (i) == ITEM_CDATA);
 axl_doc_free (d); return 0; }
''')
seed("c03-near-to", "C03",
 [("src/axl_stream.c", "	if ((stream->stream_index + count) >= (stream->stream_size - 1) )", "	if ((stream->stream_index + count) > (stream->stream_size + 2) )")],
 "a parse error detected a certain distance before the end of the content", "reading content past the buffer while preparing the error message",
r'''
int main (void) { char *s; axlDoc *d; axlError *e; int n; axl_init ();
 for (n = 1; n < 60; n++) { s = malloc (200); strcpy (s, "<r><a x='1'></b>"); memset (s + strlen (s), 'z', 0); { int l = strlen (s); memset (s + l, 'z', n); s[l + n] = 0; } e = NULL; d = axl_doc_parse (s, strlen (s), &e); CHECK (d == NULL); axl_error_free (e); free (s); }
 return 0; }
''')
seed("c04-quote-choice", "C04",
 [("src/axl_node.c", "	if (strstr (value, \"'\") == NULL) {\n		memcpy (content + desp, \"='\", 2);", "	if (strstr ((char *) value + (*((char *) value) != 0), \"'\") == NULL) {\n		memcpy (content + desp, \"='\", 2);")],
 "an attribute value whose only single quote is its first character", "a document dumped is not the one in memory (it can't be parsed again)",
r'''
int main (void) { axlDoc *d, *d2; axlError *e = NULL; char *c; int s; axl_init (); d = axl_doc_parse ("<r a=\"'x\"/>", -1, NULL); CHECK (d); CHECK (axl_doc_dump (d, &c, &s));
 d2 = axl_doc_parse (c, s, &e); CHECK (d2); CHECK (axl_doc_are_equal (d, d2)); axl_free (c); axl_doc_free (d); axl_doc_free (d2); return 0; }
''')
seed("c05-amp-twice", "C05",
 [("src/axl_node.c", "			content [iterator2] = '&';\n			iterator2++;\n			\n			iterator += 5;\n", "			iterator += 4;\n			content [iterator] = '&';\n			if (axl_stream_cmp (content + iterator, \"&amp;\", 5)) {\n				content [iterator2] = '&';\n				iterator2++;\n				iterator++;\n			}\n")],
 "an escaped reference (&amp;lt;) inside content", "content is translated twice",
r'''
int main (void) { axlDoc *d; char *c; axl_init (); d = axl_doc_parse ("<r>a&amp;b &lt; &amp;amp; &amp;lt;</r>", -1, NULL); CHECK (d); c = axl_node_get_content_trans (axl_doc_get_root (d), NULL); CHECK (!strcmp (c, "a&b < &amp; &lt;")); axl_free (c); axl_doc_free (d); return 0; }
''')
seed("c06-temp-buffer", "C06",
 [("src/axl_stream.c", "			stream->temp         = realloc (stream->temp,   stream->buffer_size + 1);\n\n			if (stream->stream == NULL) {", "			if (stream->buffer_size < 32768)\n				stream->temp = realloc (stream->temp, stream->buffer_size + 1);\n\n			if (stream->stream == NULL) {")],
 "a file with content larger than 16384 bytes, followed by more content that makes the stream to displace more than that", "the buffer used to displace the content isn't as large as the stream",
r'''
static char *add (char *p, char c, int n) { p += sprintf (p, "<%c>", c); memset (p, c, n); p += n; return p + sprintf (p, "</%c>", c); }
int main (void) { int a, b; axl_init ();
 for (a = 10000; a < 35000; a += 5000) for (b = 3000; b < 9000; b += 2000) { char *s = malloc (200000), *p = s + sprintf (s, "<r>"); FILE *f = fopen ("x.xml", "w"); axlDoc *d, *d2; p = add (p, 'c', a); p = add (p, 'd', b); p = add (p, 'e', 30000); strcpy (p, "</r>"); fwrite (s, 1, strlen (s), f); fclose (f);
 d = axl_doc_parse_from_file ("x.xml", NULL); d2 = axl_doc_parse (s, -1, NULL); CHECK (d && d2); CHECK (axl_doc_are_equal (d, d2)); axl_doc_free (d); axl_doc_free (d2); free (s); }
 return 0; }
''')
seed("c07-transfer-previous", "C07",
 [("src/axl_node.c", "			if (item_aux != NULL)\n				item_aux->previous = item;\n\n			/* break the loop! */", "			if (item_aux != NULL && item_aux->next != NULL)\n				item_aux->previous = item;\n\n			/* break the loop! */")],
 "children transferred after an item that has exactly one item following it", "walking the children backwards skips the ones transferred",
r'''
int main (void) { axlDoc *d; axlNode *r, *o; axlItem *i; int n = 0; axl_init (); d = axl_doc_parse ("<r><o><p/><q/></o><z/></r>", -1, NULL); r = axl_doc_get_root (d); o = axl_node_get_first_child (r); CHECK (o);
 axl_item_transfer_childs_after (o, axl_item_get_first_child (r));
 for (i = axl_item_get_last_child (r); i; i = axl_item_get_previous (i)) n++;
 CHECK (n == 4); CHECK (axl_node_get_child_num (r) == 4); CHECK (!strcmp (axl_node_get_name (axl_node_get_previous (axl_node_get_child_called (r, "z"))), "q")); axl_doc_free (d); return 0; }
''')
seed("c08-table-owner", "C08",
 [("src/axl_node.c", "						      attr->attribute, attr->from_factory ?  NULL : axl_free, ", "						      attr->attribute, from_factory ?  NULL : axl_free, ")],
 "a node parsed with exactly ten attributes that gets another through the API", "the table releases attribute names it does not own",
r'''
int main (void) { axlDoc *d; axlNode *n; axl_init (); d = axl_doc_parse ("<r a='1' b='2' c='3' d='4' e='5' f='6' g='7' h='8' i='9' j='10'/>", -1, NULL); n = axl_doc_get_root (d);
 axl_node_set_attribute (n, "k", "11"); CHECK (axl_node_num_attributes (n) == 11); CHECK (HAS_ATTR_VALUE (n, "j", "10")); CHECK (HAS_ATTR_VALUE (n, "k", "11")); axl_node_remove_attribute (n, "c"); CHECK (!HAS_ATTR (n, "c")); axl_doc_free (d); return 0; }
''')
seed("c09-attr-prefix", "C09",
 [("src/axl_node.c", "	if (! axl_cmp ((char *) value, value2)) {\n		/* flag that node attributes aren't equal */", "	if (value2 != NULL && ! axl_cmp ((char *) value, value2)) {\n		/* flag that node attributes aren't equal */")],
 "two nodes with the same number of attributes, more than ten, where some have different names", "nodes with different attributes are reported to be equal",
r'''
int main (void) { axlDoc *d, *e; axl_init (); d = axl_doc_parse ("<r a='1' b='2' c='3' d='4' e='5' f='6' g='7' h='8' i='9' j='10' k='11'/>", -1, NULL); e = axl_doc_parse ("<r a='1' b='2' c='3' d='4' e='5' f='6' g='7' h='8' i='9' j='10' l='11'/>", -1, NULL);
 CHECK (d && e); CHECK (axl_doc_are_equal (d, d)); CHECK (!axl_doc_are_equal (d, e)); axl_doc_free (d); axl_doc_free (e); return 0; }
''')
seed("c10-iterate-removed", "C10",
 [("src/axl_doc.c", "		was_removed = axl_false;\n		if (func && ! func (node, axl_node_get_parent (node), doc, &was_removed, ptr)) {", "		if (func && ! func (node, axl_node_get_parent (node), doc, &was_removed, ptr)) {")],
 "an iteration whose handler removes a node when there are other nodes with children to visit", "the children of the nodes that follow are not visited",
r'''
static int seen; static axl_bool f (axlNode *n, axlNode *p, axlDoc *d, axl_bool *rm, axlPointer x) { seen++; if (NODE_CMP_NAME (n, "b")) { axl_node_remove (n, axl_true); *rm = axl_true; } return axl_true; }
int main (void) { axlDoc *d; axl_init (); d = axl_doc_parse ("<r><a><x/></a><b><x/></b><c><x/><y/></c></r>", -1, NULL); CHECK (axl_doc_iterate (d, DEEP_ITERATION, f, NULL)); CHECK (seen == 7); axl_doc_free (d); return 0; }
''')
seed("c11-remove-chain", "C11",
 [("src/axl_hash.c", "			(*key_orig) = NULL;\n		if (destroy_key)\n			(*destroy_key) = NULL;\n		if (data)", "			(*key_orig) = NULL;\n		if (destroy_key && hash->items > 0)\n			(*destroy_key) = NULL;\n		if (data)")],
 "asking to remove deferring the destruction on a table left empty, with a destroy function from a previous removal in the variable", "a previous destroy function is reported for an item not found",
r'''
static void f (axlPointer p) { }
int main (void) { axlHash *h; axlPointer k, d; axlDestroyFunc fk, fd; axl_init (); h = axl_hash_new (axl_hash_string, axl_hash_equal_string); axl_hash_insert_full (h, "a", f, "x", f);
 CHECK (axl_hash_remove_deferred (h, "a", &k, &fk, &d, &fd)); CHECK (fk == f && fd == f); CHECK (!axl_hash_remove_deferred (h, "a", &k, &fk, &d, &fd)); CHECK (!k && !fk && !d && !fd); axl_hash_free (h); return 0; }
''')
seed("c12-copy-destroy", "C12",
 [("src/axl_list.c", "	if (func == NULL)\n		result->destroy_data = NULL;", "	if (func == NULL && axl_list_length (list) > 1)\n		result->destroy_data = NULL;")],
 "a list with a single element copied without duplicate function", "both lists release the element",
r'''
static int n; static void f (axlPointer p) { n++; }
int main (void) { axlList *l, *m; int k; axl_init (); for (k = 0; k < 3; k++) { n = 0; l = axl_list_new (axl_list_always_return_1, f); if (k > 0) axl_list_append (l, "a"); if (k > 1) axl_list_append (l, "b"); m = axl_list_copy (l, NULL); axl_list_free (m); CHECK (n == 0); axl_list_free (l); CHECK (n == k); } return 0; }
''')
seed("c15-fixed-absent", "C15",
 [("src/axl_dtd.c", "		return !HAS_ATTR_VALUE (node, decl->name, decl->default_value);", "		return HAS_ATTR (node, decl->name) ? !HAS_ATTR_VALUE (node, decl->name, decl->default_value) : axl_node_has_attributes (node);")],
 "a node without any attribute where the DTD declares one as #FIXED", "nodes without the fixed attribute are accepted",
r'''
int main (void) { axlDtd *t; axlDoc *d; axlError *e = NULL; axl_init (); t = axl_dtd_parse ("<!ELEMENT r EMPTY><!ATTLIST r a CDATA #FIXED \"v\" b CDATA #IMPLIED>", -1, NULL); CHECK (t);
 d = axl_doc_parse ("<r a='v'/>", -1, NULL); CHECK (axl_dtd_validate (d, t, NULL)); axl_doc_free (d);
 d = axl_doc_parse ("<r/>", -1, NULL); CHECK (!axl_dtd_validate (d, t, &e)); axl_error_free (e); axl_doc_free (d); axl_dtd_free (t); return 0; }
''')
seed("c16-undeclare", "C16",
 [("ns/axl_ns_doc.c", "		if (strlen (attr) == 5) {\n", "		if (axl_cmp (attr, \"xmlns\") && axl_cmp (axl_node_attr_cursor_get_value (cursor), \"\")) {\n			axl_node_attr_cursor_next (cursor);\n			continue;\n		}\n		if (axl_cmp (attr, \"xmlns\")) {\n")],
 "a default namespace undeclared (xmlns='') inside a node having a default namespace", "nodes out of the default namespace are reported as part of it",
r'''
int main (void) { axlDoc *d; axlNode *r; axl_init (); d = axl_doc_parse ("<r xmlns='u'><a xmlns=''><b/></a><c/></r>", -1, NULL); CHECK (d); CHECK (axl_ns_doc_validate (d, NULL)); r = axl_doc_get_root (d);
 CHECK (axl_ns_node_cmp (r, "u", "r")); CHECK (axl_ns_node_get_child_called (r, "u", "c")); CHECK (!axl_ns_node_find_called (r, "u", "b")); axl_doc_free (d); return 0; }
''')
seed("c17-table", "C17",
 [("babel/axl_babel_iso88592.c", "	table[255].buffer[1] = (unsigned char) 153; /* 0x99 */", "	table[255].buffer[1] = (unsigned char) 152; /* 0x98 */")],
 "content in iso-8859-2 with the character 0xff", "the character is translated into a different one",
r'''
int main (void) { axlDoc *d; axlError *e = NULL; FILE *f; axl_init (); CHECK (axl_babel_init (&e)); f = fopen ("x.xml", "w"); fprintf (f, "<?xml version='1.0' encoding='iso-8859-2' ?><r>c\xffur</r>"); fclose (f);
 d = axl_doc_parse_from_file ("x.xml", &e); CHECK (d); CHECK (!strcmp (axl_node_get_content (axl_doc_get_root (d), NULL), "c\xcb\x99ur")); axl_doc_free (d); axl_babel_finish (); return 0; }
''')
seed("c17-third-octet", "C17",
 [("babel/axl_babel.c", "				if (value >= 128 && value <= 191) {\n					iterator += 3;", "				if (value >= 128) {\n					iterator += 3;")],
 "a three octet sequence whose third octet isn't a continuation", "content that isn't utf-8 is accepted",
r'''
int main (void) { int i; axl_init (); CHECK (axl_babel_check_utf8_content ("a\xe2\x82\xac", 4, NULL)); CHECK (!axl_babel_check_utf8_content ("\xe2\x82\xe2\x82\xac", 5, &i)); CHECK (i == 0); return 0; }
''')
seed("c18-split-last", "C18",
 [("src/axl_stream.c", "	/* check for a last chunk */\n	if (index != previous_index) {", "	/* check for a last chunk */\n	if (index != previous_index + (count > 0 && length > 1)) {")],
 "splitting by separators where the last one has more than one character and the last piece has one character", "the last piece is lost",
r'''
int main (void) { char **r; axl_init (); r = axl_stream_split ("a--b", 1, "--"); CHECK (r && r[0] && r[1] && !r[2]); CHECK (!strcmp (r[1], "b")); axl_freev (r); r = axl_stream_split ("a-bc", 1, "-"); CHECK (axl_stream_strv_num (r) == 2); axl_freev (r); return 0; }
''')
seed("c19-inspect-several", "C19",
 [("src/axl_stream.c", "			va_end (args);\n			return (iterator + 1);", "			va_end (args);\n			return last_value < 0 ? iterator : iterator + 1;")],
 "looking for several chunks near the end of the content, where a longer chunk is asked before the one found", "the position reported is not the one of the chunk found",
r'''
int main (void) { axlStream *s; axl_init (); s = axl_stream_new ("ab", -1, NULL, -1, NULL); CHECK (axl_stream_inspect_several (s, 2, "abc", 3, "ab", 2) == 2); axl_stream_free (s);
 s = axl_stream_new ("abx", -1, NULL, -1, NULL); CHECK (axl_stream_inspect_several (s, 2, "abc", 3, "ab", 2) == 2); axl_stream_free (s); return 0; }
''')
seed("c20-inherit", "C20",
 [("src/axl_node.c", "			if (parent->annotate_data)\n				result = axl_hash_get (parent->annotate_data, (axlPointer) key);\n", "			if (parent->annotate_data)\n				return axl_hash_get (parent->annotate_data, (axlPointer) key);\n")],
 "a key annotated on an ancestor when a closer ancestor has other annotations", "the annotation of the farther ancestor isn't found",
r'''
int main (void) { axlDoc *d; axlNode *r, *c; axl_init (); d = axl_doc_parse ("<r><a><b/></a></r>", -1, NULL); r = axl_doc_get_root (d); axl_node_annotate_data (r, "k", "v"); axl_node_annotate_data (axl_node_get_first_child (r), "o", "w");
 c = axl_node_get_first_child (axl_node_get_first_child (r)); CHECK (axl_node_annotate_get (c, "o", axl_true)); CHECK (axl_node_annotate_get (c, "k", axl_true)); axl_doc_free (d); return 0; }
''')
