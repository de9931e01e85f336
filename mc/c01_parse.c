/* C01: every well-formed document of the bounded grammar parses to exactly its tree. */
#include "ax.h"
const char *mc_name = "c01_parse";
void mc_init (void) { axl_init (); }

static void finish (const char *t, int n, RN *root, const char *enc, int standalone, RN *prologpi)
{
	axlDoc *d; RN *p; int k = 0; axlList *l;
	mc_desc ("%s", Q (ax_dupn (t, n)));
	d = ax_parse_ok (t, n, "parse");
	ax_check (axl_doc_get_root (d), root, d, AXF_BIND, "tree");
	MC_CHECK (axl_node_get_doc (axl_doc_get_root (d)) == d && !axl_node_get_parent (axl_doc_get_root (d)), "root links wrong");
	MC_CHECK (!axl_node_get_next (axl_doc_get_root (d)) && !axl_node_get_previous (axl_doc_get_root (d)), "root has siblings");
	{ const char *e = axl_doc_get_encoding (d); MC_CHECK (enc ? (e && !strcmp (e, enc)) : (!e || !*e), "encoding %s, expected %s", Q (e), Q (enc)); }
	MC_CHECK (!axl_doc_get_standalone (d) == !standalone, "standalone %d, expected %d", axl_doc_get_standalone (d), standalone);
	l = axl_doc_get_pi_target_list (d);
	for (p = prologpi ? prologpi->first : NULL; p; p = p->next, k++) {
		axlPI *pi = l ? axl_list_get_nth (l, k) : NULL; const char *c;
		MC_CHECK (pi, "prolog PI %d missing", k);
		c = axl_pi_get_content (pi);
		MC_CHECK (!strcmp (axl_pi_get_name (pi), p->name) && ((!c || !*c) ? !p->text : (p->text && !strcmp (c, p->text))), "prolog PI %d is %s %s, expected %s %s", k, Q (axl_pi_get_name (pi)), Q (c), Q (p->name), Q (p->text));
		MC_CHECK (axl_doc_has_pi_target (d, p->name), "has_pi_target false for %s", p->name);
	}
	MC_CHECK ((l ? axl_list_length (l) : 0) == k, "%d prolog PIs, expected %d", axl_list_length (l), k);
	mc_state (rn_hash (root)); mc_nontrivial ();
	axl_doc_free (d);
}

/* ---- part 0: structure ---- */
static const char *texts[] = { "t", " x y ", " ", "a&lt;b&amp;c]]", "\n\t" };
static int istext (RN *n) { return n && n->kind == R_TEXT; }
static int gen (SB *b, RN *parent, int budget, int preserve, int depth)
{
	int lasttext = 0;
	while (budget > 0) {
		int k = mc_choose (lasttext ? 11 : 16), sp = preserve; RN *e;
		if (k == 0) break;
		budget--;
		switch (k) {
		case 1: case 2: case 3: case 4: case 5: case 6: {
			static const char *open[] = { "<a", "<b k='v'", "<p xml:space='preserve'", "<q k='v' xml:space=\"preserve\" j='w'", "<d xml:space='default'", "<e k='v' j=\"\"" };
			static const char *nm[] = { "a", "b", "p", "q", "d", "e" };
			int before;
			e = rn_elem (nm[k - 1]); rn_add (parent, e);
			if (k == 2) rn_set (e, "k", "v");
			if (k == 3) rn_set (e, "xml:space", "preserve"), sp = 1;
			if (k == 4) rn_set (e, "k", "v"), rn_set (e, "xml:space", "preserve"), rn_set (e, "j", "w"), sp = 1;
			if (k == 5) rn_set (e, "xml:space", "default"), sp = 0;
			if (k == 6) rn_set (e, "k", "v"), rn_set (e, "j", "");
			sb_add (b, open[k - 1]); before = b->n;
			sb_add (b, ">");
			budget = gen (b, e, budget, sp, depth + 1);
			if (b->n == before + 1 && (k & 1)) { b->n--; sb_add (b, k == 3 ? " />" : "/>"); }
			else sb_f (b, "</%s>", nm[k - 1]);
			lasttext = 0; break; }
		case 7: sb_add (b, "<![CDATA[<c> & ]] ]>]]>"); rn_add (parent, rn_new (R_CDATA, NULL, "<c> & ]] ]>")); lasttext = 0; break;
		case 8: sb_add (b, "<!-- c - <x> -->"); rn_add (parent, rn_new (R_COMMENT, NULL, " c - <x> ")); lasttext = 0; break;
		case 9: sb_add (b, "<?pi some x='y' > c?>"); rn_add (parent, rn_new (R_PI, "pi", "some x='y' > c")); lasttext = 0; break;
		case 10: sb_add (b, "<?pn?>"); rn_add (parent, rn_new (R_PI, "pn", NULL)); lasttext = 0; break;
		default: {
			const char *t = texts[k - 11]; int ws = !t[strspn (t, " \n\t\r")];
			sb_add (b, t); lasttext = 1;
			/* white space right after a comment or instruction is dropped unless preserved (test_21 relies on it) */
			if (!preserve && parent->last && (parent->last->kind == R_COMMENT || parent->last->kind == R_PI)) t += strspn (t, " \n\t\r");
			if (!ws || preserve) rn_add (parent, rn_new (R_TEXT, NULL, t));
			break; }
		}
	}
	(void) istext;
	return budget;
}
static void part_structure (void)
{
	SB b = {0}; RN *root; int r = mc_choose (2), i;
	root = rn_elem ("r"); if (r) rn_set (root, "xml:space", "preserve");
	sb_add (&b, r ? "<r xml:space='preserve'>" : "<r>");
	{ /* sharding on the first two choices made by gen: done by generating and hashing afterwards would
	     cost a full generation per shard; instead the case is generated and then assigned */ }
	gen (&b, root, mc_thorough ? 5 : 4, r, 0); (void) i;
	mc_shard ();
	sb_add (&b, "</r>");
	finish (sb_str (&b), b.n, root, NULL, 0, NULL);
}

/* ---- part 1: spelling ---- */
static void prolog_misc (SB *b, RN *pis, int afterheader)
{
	int k = mc_choose (7);
	switch (k) {
	case 0: break;
	case 1: sb_add (b, "\n"); break;
	case 2: sb_add (b, "<!-- c -->"); break;
	case 3: sb_add (b, " <!-- c --> \n<!--d-->\n"); break;
	case 4: sb_add (b, "<?pi a b?>"); rn_add (pis, rn_new (R_PI, "pi", "a b")); break;
	case 5: sb_add (b, "\n<?p1?>\n<!-- c -->\n<?p2 x ?>\n"); rn_add (pis, rn_new (R_PI, "p1", NULL)); rn_add (pis, rn_new (R_PI, "p2", "x")); break;
	case 6: sb_add (b, "<?p2 x?><?p2 y?>"); rn_add (pis, rn_new (R_PI, "p2", "x")); rn_add (pis, rn_new (R_PI, "p2", "y")); break;
	}
}
static void part_header (void)
{
	SB b = {0}; RN *pis = rn_elem ("pis"), *root; const char *enc = NULL; int sa = 0, h, q;
	static const char *roots[] = { "<a/>", "<a></a>", "<a >x</a >", "<a\n k='v'\n/>" };
	static const char *epi[] = { "", "\n", "<!-- e -->", " \n<?e x?>\n<!-- y -->\n" };
	if (mc_choose (2)) sb_add (&b, "\xEF\xBB\xBF");
	h = mc_choose (4);      /* 0: no header, 1: version, 2: + encoding, 3: + encoding + standalone */
	if (h) {
		char o, c; int sep, s2;
		q = mc_choose (2); o = q ? '"' : '\''; c = o;
		sep = mc_choose (3); s2 = mc_choose (2);
		sb_f (&b, "<?xml%sversion=%c1.0%c", sep == 0 ? " " : sep == 1 ? "  " : "\n", o, c);
		if (h >= 2) { enc = mc_choose (2) ? "UTF-8" : "iso-8859-1"; sb_f (&b, "%sencoding=%c%s%c", sep == 2 ? "\t" : " ", o, enc, c); }
		if (h >= 3) { sa = mc_choose (2); sb_f (&b, " standalone=%c%s%c", o, sa ? "yes" : "no", c); }
		if (h == 1 && mc_choose (2)) { sa = 1; sb_f (&b, " standalone=%cyes%c", o, c); }
		sb_add (&b, s2 ? " ?>" : "?>");
	}
	prolog_misc (&b, pis, h > 0);
	if (h <= 1 || mc_thorough) { if (mc_choose (2)) { sb_add (&b, mc_choose (2) ? "<!DOCTYPE a SYSTEM 'x.dtd'>" : "<!DOCTYPE a>"); prolog_misc (&b, pis, h > 0); } }
	q = mc_choose (4);
	root = rn_elem ("a"); if (q == 2) rn_add (root, rn_new (R_TEXT, NULL, "x")); if (q == 3) rn_set (root, "k", "v");
	sb_add (&b, roots[q]);
	sb_add (&b, epi[mc_choose (4)]);
	mc_shard ();
	/* instructions after the root element belong to the document, too */
	if (strstr (b.p, "<?e x?>")) rn_add (pis, rn_new (R_PI, "e", "x"));
	finish (b.p, b.n, root, enc, sa, pis);
}
static const char *wss[] = { "", " ", "  ", "\n", "\t ", "\r\n" };
static void part_tags (void)
{
	/* <a WS k=Q v Q WS j=Q..Q WS /> or > content </a WS>, one nested child with the same freedom */
	SB b = {0}; RN *root = rn_elem ("root"), *c; int na = mc_choose (3), w1, w2, w3 = 0, em, w4, q, eq;
	static const char *vals[] = { "v", "", " s p ", "a>b", "a&quot;b", "it's", "say \"x\"", "\n", "&lt;&amp;&#65;", "a=b/c" };
	w1 = 1 + mc_choose (5);
	em = mc_choose (4);      /* content kinds: 0 "/>", 1 empty pair, 2 text, 3 nested */
	w2 = mc_choose (6); w4 = mc_choose (6);
	sb_add (&b, "<root");
	if (na == 0) sb_add (&b, wss[w2]);
	if (na >= 1) { int vi = mc_choose (10); q = mc_choose (2); const char *v = vals[vi];
		if (strchr (v, q ? '"' : '\'')) mc_skip ();
		eq = mc_choose (4);
		sb_f (&b, "%sk%s=%s%c%s%c", wss[w1], eq == 1 || eq == 3 ? " " : "", eq >= 2 ? "\n " : "", q ? '"' : '\'', v, q ? '"' : '\''); rn_set (root, "k", v);
		if (na == 2) { w3 = 1 + mc_choose (5); sb_f (&b, "%slong-name.1:x=\"%s\"", wss[w3], "w"); rn_set (root, "long-name.1:x", "w"); }
		sb_add (&b, wss[w2]); }
	switch (em) {
	case 0: if (w4) mc_skip (); sb_add (&b, "/>"); break;
	case 1: sb_f (&b, "></root%s>", wss[w4]); break;
	case 2: sb_f (&b, ">text</root%s>", wss[w4]); rn_add (root, rn_new (R_TEXT, NULL, "text")); break;
	case 3: sb_f (&b, ">\n <c%s/>\n<c%s></c%s>\n</root%s>", wss[w2], wss[w2], wss[w4], wss[w4]);
		c = rn_elem ("c"); rn_add (root, c); c = rn_elem ("c"); rn_add (root, c); break;
	}
	mc_shard ();
	finish (sb_str (&b), b.n, root, NULL, 0, NULL);
}
/* ---- part 3: number of attributes, spelled and ordered in every rotation ---- */
static void part_attrs (void)
{
	int n = mc_choose (26), rot, style = mc_choose (3), i; SB b = {0}; RN *root = rn_elem ("n"), *in;
	rot = n ? mc_choose (n > 6 ? 6 : n) : 0;
	mc_shard ();
	sb_add (&b, "<n");
	for (i = 0; i < n; i++) { int j = (i + rot * 5) % n; char *k = style == 0 ? ax_fmt ("k%d", j) : style == 1 ? ax_fmt ("%c%s", 'a' + j, ax_rep ('x', j)) : ax_fmt ("%d_%d", j * 11, j); char *v = ax_fmt ("v%d%s", j, j % 3 ? "" : " &amp; z");
		sb_f (&b, "%s%s='%s'", i % 4 == 3 ? "\n" : " ", k, v); rn_set (root, k, v); }
	sb_add (&b, "><i x='1'/>t</n>");
	in = rn_elem ("i"); rn_set (in, "x", "1"); rn_add (root, in); rn_add (root, rn_new (R_TEXT, NULL, "t"));
	finish (sb_str (&b), b.n, root, NULL, 0, NULL);
}
/* ---- part 4: sizes ---- */
static int sizes[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049,
	4094, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 8193, 8194, 12288, 16383, 16384, 16385, 24577, 40000, 70000 };
#define NS ((int) (sizeof sizes / sizeof *sizes))
static char *filler (int n, int seed) { char *p = ax_alloc (n + 1); int i; for (i = 0; i < n; i++) p[i] = 'a' + (i * 7 + seed + i / 26) % 26; return p; }
static void part_sizes (void)
{
	int what = mc_choose (9), n, i; SB b = {0}; RN *root = rn_elem ("r"), *e, *p;
	n = sizes[mc_choose (NS)];
	mc_shard ();
	switch (what) {
	case 0: sb_f (&b, "<r>%s</r>", filler (n, 1)); if (n) rn_add (root, rn_new (R_TEXT, NULL, filler (n, 1))); break;
	case 1: sb_f (&b, "<r><![CDATA[x%s]]></r>", filler (n, 2)); rn_add (root, rn_new (R_CDATA, NULL, ax_fmt ("x%s", filler (n, 2)))); break;
	case 2: sb_f (&b, "<r><!--x%s--></r>", filler (n, 3)); rn_add (root, rn_new (R_COMMENT, NULL, ax_fmt ("x%s", filler (n, 3)))); break;
	case 3: sb_f (&b, "<r><?pi x%s?></r>", filler (n, 4)); rn_add (root, rn_new (R_PI, "pi", ax_fmt ("x%s", filler (n, 4)))); break;
	case 4: sb_f (&b, "<r k='%s' j='%s'/>", filler (n, 5), filler (n, 6)); rn_set (root, "k", filler (n, 5)); rn_set (root, "j", filler (n, 6)); break;
	case 5: e = rn_elem (ax_fmt ("e%s", filler (n, 7))); sb_f (&b, "<r><%s></%s><%s/></r>", e->name, e->name, e->name); rn_add (root, e); rn_add (root, rn_elem (e->name)); break;
	case 6: sb_f (&b, "<r a%s='1' b%s='2'/>", filler (n, 8), filler (n, 8)); rn_set (root, ax_fmt ("a%s", filler (n, 8)), "1"); rn_set (root, ax_fmt ("b%s", filler (n, 8)), "2"); break;
	case 7: if (n > 8193) n = 3000; /* many children with attributes and text */
		sb_add (&b, "<r>"); for (i = 0; i < n; i++) { sb_f (&b, "<c%d i='%d'>t%d</c%d>", i % 3, i, i, i % 3); e = rn_elem (ax_fmt ("c%d", i % 3)); rn_set (e, "i", ax_fmt ("%d", i)); rn_add (e, rn_new (R_TEXT, NULL, ax_fmt ("t%d", i))); rn_add (root, e); } sb_add (&b, "</r>"); break;
	case 8: if (n > 600) n = 600; /* depth */
		sb_add (&b, "<r>"); p = root; for (i = 0; i < n; i++) { sb_f (&b, "<d%d>", i % 5); e = rn_elem (ax_fmt ("d%d", i % 5)); rn_add (p, e); p = e; }
		for (i = n - 1; i >= 0; i--) sb_f (&b, "</d%d>", i % 5); sb_add (&b, "</r>"); break;
	}
	finish (sb_str (&b), b.n, root, NULL, 0, NULL);
}
/* ---- part 5: content corner forms ---- */
static void part_corner (void)
{
	static const struct { int kind; const char *src, *name, *text; } it[] = {
		{ R_COMMENT, "<!---->", NULL, "" }, { R_COMMENT, "<!--x-->", NULL, "x" }, { R_COMMENT, "<!-- -->", NULL, " " }, { R_COMMENT, "<!-- a - b -->", NULL, " a - b " }, { R_COMMENT, "<!--a>b-->", NULL, "a>b" },
		{ R_CDATA, "<![CDATA[]]>", NULL, "" }, { R_CDATA, "<![CDATA[]]]>", NULL, "]" }, { R_CDATA, "<![CDATA[ ]]>", NULL, " " }, { R_CDATA, "<![CDATA[]]]]>", NULL, "]]" }, { R_CDATA, "<![CDATA[<!--]]>", NULL, "<!--" }, { R_CDATA, "<![CDATA[</r>]]>", NULL, "</r>" },
		{ R_PI, "<?p?>", "p", NULL }, { R_PI, "<?p ?>", "p", NULL }, { R_PI, "<?p x?>", "p", "x" }, { R_PI, "<?p x ?>", "p", "x" }, { R_PI, "<?p a?b>c?>", "p", "a?b>c" }, { R_PI, "<?p\nx?>", "p", "x" },
		{ R_TEXT, "x", NULL, "x" }, { R_TEXT, ">", NULL, ">" }, { R_TEXT, "]]", NULL, "]]" }, { R_TEXT, " -->", NULL, " -->" }, { R_TEXT, "?>", NULL, "?>" }, { R_TEXT, "/>", NULL, "/>" }, { R_TEXT, "'\"", NULL, "'\"" }, { R_TEXT, "\xc3\xa1\xe2\x82\xac", NULL, "\xc3\xa1\xe2\x82\xac" }, { R_TEXT, "x ", NULL, "x " }, { R_TEXT, " x", NULL, " x" },
	};
	int n = sizeof it / sizeof *it, i, len = 1 + mc_choose (mc_thorough ? 4 : 3), pres = mc_choose (2), lt = 0; SB b = {0}; RN *root = rn_elem ("r");
	sb_add (&b, pres ? "<r xml:space='preserve'>" : "<r>"); if (pres) rn_set (root, "xml:space", "preserve");
	for (i = 0; i < len; i++) { int k = mc_choose (n + 1);
		if (k == n) { rn_add (root, rn_elem ("e")); sb_add (&b, "<e/>"); lt = 0; continue; }
		if (lt && it[k].kind == R_TEXT) mc_skip ();
		{ const char *t = it[k].text; if (it[k].kind == R_TEXT && !pres && root->last && (root->last->kind == R_COMMENT || root->last->kind == R_PI)) t += strspn (t, " ");
		sb_add (&b, it[k].src); rn_add (root, rn_new (it[k].kind, it[k].name, t)); } lt = it[k].kind == R_TEXT; }
	mc_shard ();
	sb_add (&b, "</r>");
	finish (sb_str (&b), b.n, root, NULL, 0, NULL);
}

void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (6)) {
	case 0: part_tags (); break;
	case 1: part_corner (); break;
	case 2: part_header (); break;
	case 3: part_attrs (); break;
	case 4: part_sizes (); break;
	case 5: part_structure (); break;
	}
}
