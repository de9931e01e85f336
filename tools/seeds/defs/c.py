
seed("c21-cdata-plain", "C21",
 [("knife/axl-knife.c", """			/* get reference to the content to be translated */
			ref = axl_item_get_content (item, NULL);
			ref = __translate_content (ref);

			/* printf ("Content [%s]\\n", ref); */

			fprintf (fstream, "<span class=\\"cdata\\">""", """			/* character data is taken as is */
			ref = axl_strdup (axl_item_get_content (item, NULL));

			fprintf (fstream, "<span class=\\"cdata\\">""")],
 "a document with markup inside a CDATA section", "--htmlize writes the markup as HTML, so it isn't visible",
r"""
echo '<r>x<![CDATA[<b>&amp;</b>]]></r>' > a.xml
timeout 20 ./knife --htmlize -i a.xml > a.html || fail status
grep -qF '&lt;b&gt;&amp;amp;&lt;/b&gt;' a.html || fail cdata
exit 0
""", knife=1)
seed("c21-one-dependency", "C21",
 [("knife/exarg.c", "	node->depends->next = dep;", "	node->depends->next = NULL;")],
 "an option with two dependencies, where the one declared first isn't defined", "the option is accepted without it",
r"""
echo '<!ELEMENT a EMPTY>' > a.dtd; touch out
timeout 20 ./knife --ifnewer --output out --version > /dev/null 2>&1 && fail ifnewer
timeout 20 ./knife --ifnewer --output out > /dev/null 2>&1 && fail ifnewer
timeout 20 ./knife --ifnewer --output out2 -i a.dtd --dtd-to-c > /dev/null 2>&1 || fail accepted
exit 0
""", knife=1)
seed("c21-not-older", "C21",
 [("knife/axl-knife.c", "	return stat1.st_mtime > stat2.st_mtime;", "	return stat1.st_ctime > stat2.st_mtime;")],
 "an input whose contents are older than the output but whose inode changed later (moved, permissions changed)", "--ifnewer rewrites an output that is newer than the input",
r"""
echo '<!ELEMENT a EMPTY>' > a.dtd; touch -d 2020-01-01 a.dtd; echo keep > out; touch -d 2021-01-01 out
timeout 20 ./knife --ifnewer -i a.dtd -o out --dtd-to-c > /dev/null 2>&1 || fail status
[ "$(cat out)" = keep ] || fail rewritten
touch -d 2019-01-01 out; timeout 20 ./knife --ifnewer -i a.dtd -o out --dtd-to-c > /dev/null 2>&1 || fail status
grep -q ELEMENT out || fail "not written"
exit 0
""", knife=1)
THREADS = r"""
#include <pthread.h>
static int bad;
static void *work (void *p);
int main (void) { pthread_t t[4]; long i; axl_init (); setup (); for (i = 0; i < 4; i++) pthread_create (t + i, NULL, work, (void *) i); for (i = 0; i < 4; i++) pthread_join (t[i], NULL); CHECK (!bad); return 0; }
"""
seed("c22-static-message", "C22",
 [("src/axl_dtd.c", """	char                * err_msg;

	/* get declaration associated */
	decl = axl_list_lookup (attribute->list, __find_attr_decl""", """	static char           err_msg[512];

	/* get declaration associated */
	decl = axl_list_lookup (attribute->list, __find_attr_decl"""),
  ("src/axl_dtd.c", """		err_msg = axl_strdup_printf ("Found an attribute (%s) which is not specified by the attribute declaration for <%s>",
					     key, attribute->name);
		axl_error_new (-1, err_msg, NULL, error);
		
		/* free the cursor and the error message */
		axl_free (err_msg);

		/* return axl_true here because""", """		snprintf (err_msg, sizeof (err_msg), "Found an attribute (%s) which is not specified by the attribute declaration for <%s>",
			  key, attribute->name);
		axl_error_new (-1, err_msg, NULL, error);

		/* return axl_true here because"""),
  ("src/axl_dtd.c", """			err_msg = axl_strdup_printf ("Found an attribute (%s) with a value not allowed by the enum declaration (%s) for the node <%s>",
						     key, value, attribute->name);
			axl_error_new (-1, err_msg, NULL, error);
			
			/* free the cursor and the error message */
			axl_free (err_msg);
			return axl_true;""", """			snprintf (err_msg, sizeof (err_msg), "Found an attribute (%s) with a value not allowed by the enum declaration (%s) for the node <%s>",
				  key, value, attribute->name);
			axl_error_new (-1, err_msg, NULL, error);
			return axl_true;""")],
 "two threads validating at once, each one getting a wrong attribute reported", "one gets the error message of the other",
r"""
static void setup (void) { }""" + THREADS + r"""
static void *work (void *p) { long n = (long) p; char x[200], want[50]; int i; axlError *e; axlDoc *d; axlDtd *t = axl_dtd_parse ("<!ELEMENT r EMPTY><!ATTLIST r a CDATA #IMPLIED>", -1, NULL);
 memset (want, 'a' + n, 40); want[40] = 0; sprintf (x, "<r %s='1'/>", want); d = axl_doc_parse (x, -1, NULL); strcat (want, ")");
 for (i = 0; i < 100000 && !bad; i++) { e = NULL; if (axl_dtd_validate (d, t, &e)) bad = 1; if (!e || !strstr (axl_error_get (e), want)) bad = 1; axl_error_free (e); }
 axl_doc_free (d); axl_dtd_free (t); return NULL; }
""")
seed("c22-move-to-front", "C22",
 [("src/axl_hash.c", """	while (node->next != NULL) {
		/* seems we have more nodes */
		node = node->next;		

		/* check for equal keys */
		if (hash->equal (node->key, key) == 0)
			return node;
	}  /* end */

	/* node not found */
	return NULL;
}
""", """	while (node->next != NULL) {
		/* check for equal keys */
		if (hash->equal (node->next->key, key) == 0) {
			/* found: move it to the front, it will
			 * probably be looked up again */
			axlHashNode * found = node->next;

			node->next  = found->next;
			found->next = hash->table [hash->hash (key) % hash->hash_size];
			hash->table [hash->hash (key) % hash->hash_size] = found;
			return found;
		}

		/* seems we have more nodes */
		node = node->next;		
	}  /* end */

	/* node not found */
	return NULL;
}
""")],
 "two threads looking up colliding keys of the same hash", "items are lost",
r"""
static axlHash *h; static unsigned int hf (axlPointer p) { return 1; }
static void setup (void) { long i; h = axl_hash_new (hf, axl_hash_equal_int); for (i = 1; i <= 8; i++) axl_hash_insert (h, (axlPointer) i, (axlPointer) (i * 10)); }""" + THREADS + r"""
static void *work (void *p) { long i, k; alarm (60); for (i = 0; i < 1000000 && !bad; i++) { k = 1 + ((i * 7 + (long) p * 3) & 7); if ((long) axl_hash_get (h, (axlPointer) k) != k * 10) bad = 1; } return NULL; }
""")
seed("c15-nested-parent", "C15",
 [("src/axl_dtd.c", """			list = node->data;
			__axl_dtd_queue_items (stack, list->itemList);
			break;
		case AXL_ELEMENT_NOT_DEFINED:""", """			list = node->data;
			if (list->times != ZERO_OR_MANY)
				__axl_dtd_queue_items (stack, list->itemList);
			break;
		case AXL_ELEMENT_NOT_DEFINED:""")],
 "an element which is mentioned only inside a nested group that can be repeated or left out (*)", "the element is reported as top level",
r'''
int main (void) { axlDtd *t; axl_init (); t = axl_dtd_parse ("<!ELEMENT r (a, (b | c)*)><!ELEMENT a EMPTY><!ELEMENT b EMPTY><!ELEMENT c EMPTY>", -1, NULL); CHECK (t);
 CHECK (axl_dtd_element_is_toplevel (t, axl_dtd_get_element (t, "r"))); CHECK (!axl_dtd_element_is_toplevel (t, axl_dtd_get_element (t, "a")));
 CHECK (!axl_dtd_element_is_toplevel (t, axl_dtd_get_element (t, "b"))); CHECK (!axl_dtd_element_is_toplevel (t, axl_dtd_get_element (t, "c"))); axl_dtd_free (t); return 0; }
''')
seed("c15-equal-enum", "C15",
 [("src/axl_dtd.c", """					if (axl_list_length (attr_decl->enumvalues) != axl_list_length (attr_decl2->enumvalues))
						return axl_false;""", """					if (axl_list_length (attr_decl->enumvalues) > axl_list_length (attr_decl2->enumvalues))
						return axl_false;""")],
 "definitions where an enumeration of the second one begins with all values of the first one", "the definitions are taken as equal",
r'''
int main (void) { axlDtd *t, *u; axl_init (); t = axl_dtd_parse ("<!ELEMENT r EMPTY><!ATTLIST r k (a|b) #REQUIRED>", -1, NULL); u = axl_dtd_parse ("<!ELEMENT r EMPTY><!ATTLIST r k (a|b|c) #REQUIRED>", -1, NULL); CHECK (t && u);
 CHECK (axl_dtd_are_equal (t, t)); CHECK (!axl_dtd_are_equal (u, t)); CHECK (!axl_dtd_are_equal (t, u)); axl_dtd_free (t); axl_dtd_free (u); return 0; }
''')
seed("c21-fallback", "C21",
 [("knife/axl-knife.c", """			error ("unable to open output document: %s, errno=%d:%s", exarg_get_string ("output"),
			       errno, strerror (errno));
			return axl_false;
		} /* end if */
	} /* end if */
	
	/* try to get""", """			error ("unable to open output document: %s, errno=%d:%s", exarg_get_string ("output"),
			       errno, strerror (errno));
			fstream = stdout;
		} /* end if */
	} /* end if */
	
	/* try to get""")],
 "an output file which can't be created", "the header is written on the screen",
r"""
echo '<!ELEMENT a EMPTY>' > a.dtd
timeout 20 ./knife -i a.dtd --dtd-to-c -o none/out > screen 2>/dev/null
[ -s screen ] && fail "something on the screen"
timeout 20 ./knife -i a.dtd --dtd-to-c -o out > screen 2>/dev/null || fail status
[ -s out ] || fail "no output"
exit 0
""", knife=1)
