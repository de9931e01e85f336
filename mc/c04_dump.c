/* C04: flat and pretty dumps of every small tree, parsed back. */
#include "ax.h"
const char *mc_name = "c04_dump";
void mc_init (void) { axl_init (); }

static int isws (int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int allws (const char *s) { while (*s && isws (*s)) s++; return !*s; }
static char *strip (const char *s) { int n; while (isws (*s)) s++; n = strlen (s); while (n && isws (s[n - 1])) n--; return ax_dupn (s, n); }
static int haschild (RN *n) { RN *c; for (c = n->first; c; c = c->next) if (c->kind == R_ELEM || c->kind == R_PI || c->kind == R_COMMENT) return 1; return 0; }
/* the tree a parser sees in the dump of m: adjacent texts joined, white space dropped where the parser drops it, comments with a blank on either side.
 * pretty: 0 flat, 1 texts next to markup compared without surrounding white space */
static RN *norm (RN *m, int preserve, int pretty)
{
	RN *r = rn_elem (m->name), *c; RA *a; int loose = pretty && haschild (m);
	for (a = m->attrs; a; a = a->next) { rn_set (r, a->k, a->v); if (!strcmp (a->k, "xml:space")) preserve = !strcmp (a->v, "preserve"); }
	for (c = m->first; c; c = c->next) switch (c->kind) {
	case R_ELEM: rn_add (r, norm (c, preserve, pretty)); break;
	case R_TEXT: { SB b = {0}; char *t; sb_add (&b, c->text); while (c->next && c->next->kind == R_TEXT) { c = c->next; sb_add (&b, c->text); }
		t = sb_str (&b);
		if (loose) { t = strip (t); if (!*t) break; }
		else if (!preserve) { if (r->last && (r->last->kind == R_COMMENT || r->last->kind == R_PI)) while (isws (*t)) t++; if (allws (t)) break; }
		if (*t) rn_add (r, rn_new (R_TEXT, NULL, t)); break; }
	case R_COMMENT: { const char *t = c->text; int n = strlen (t); rn_add (r, rn_new (R_COMMENT, NULL, !n ? "" : ax_fmt ("%s%s%s", t[0] == ' ' ? "" : " ", t, t[n - 1] == ' ' ? "" : " "))); break; }
	case R_PI: rn_add (r, rn_new (R_PI, c->name, c->text && *c->text ? c->text : NULL)); break;
	case R_CDATA: rn_add (r, rn_new (R_CDATA, NULL, c->text)); break;
	}
	return r;
}
static void apibuild (RN *m, axlNode *n)
{
	RN *c; RA *a; m->impl = n; for (a = m->attrs; a; a = a->next) axl_node_set_attribute_ref (n, axl_strdup (a->k), axl_strdup (a->v));
	for (c = m->first; c; c = c->next) switch (c->kind) {
		case R_ELEM: { axlNode *k = axl_node_create (c->name); axl_node_set_child (n, k); apibuild (c, k); break; }
		case R_TEXT: axl_node_set_content_ref (n, axl_strdup (c->text), -1); break; case R_CDATA: axl_item_set_child_ref (n, axl_item_new_ref (ITEM_CDATA, axl_strdup (c->text))); break;
		case R_COMMENT: axl_node_set_comment (n, c->text, -1); break; case R_PI: axl_node_add_pi_target (n, c->name, c->text); break; }
}
static char *pretty_doc (axlDoc *d, int tab, int *n)
{
	char *c = NULL, *r; int s = -7, fs = axl_doc_get_flat_size_pretty (d, tab);
	MC_CHECK (axl_doc_dump_pretty (d, &c, &s, tab), "pretty dump failed"); MC_CHECK (c && s == (int) strlen (c), "pretty dump reports size %d for %d bytes", s, c ? (int) strlen (c) : -1); mc_trans (1);
	MC_CHECK (fs == s, "announced pretty size %d differs from the dumped size %d", fs, s); r = ax_dupn (c, s); axl_free (c); if (n) *n = s; return r;
}
static char *pretty_node (axlNode *d, int tab, int *n)
{
	char *c = NULL, *r; int s = -7; MC_CHECK (axl_node_dump_pretty (d, &c, &s, tab), "pretty node dump failed"); MC_CHECK (c && s == (int) strlen (c), "pretty node dump reports size %d for %d bytes", s, c ? (int) strlen (c) : -1); mc_trans (1);
	r = ax_dupn (c, s); axl_free (c); c = NULL; MC_CHECK (axl_node_dump_pretty (d, &c, NULL, tab) && !strcmp (c, r), "pretty node dump without size differs"); axl_free (c); *n = s; return r;
}
static void cmp_tree (axlDoc *d, RN *m, int preserve, const char *ctx) { ax_check (axl_doc_get_root (d), norm (m, preserve, 0), d, 0, ctx); }
static void cmp_loose (axlDoc *d, RN *m, const char *ctx)
{
	RN *x = norm (ax_model (axl_doc_get_root (d)), 0, 1), *y = norm (norm (m, 0, 0), 0, 1);   /* both sides: texts stripped where markup stands beside them */
	MC_CHECK (rn_equal (x, y), "%s: parsed back as %s, expected %s", ctx, Q (rn_str (x)), Q (rn_str (y)));
}
static int few (RN *m) { RN *c; if (rn_nattrs (m) > 10) return 0; for (c = m->first; c; c = c->next) if (!few (c)) return 0; return 1; }
static int haspres (RN *m) { RN *c; RA *a; for (a = m->attrs; a; a = a->next) if (!strcmp (a->k, "xml:space")) return 1; for (c = m->first; c; c = c->next) if (c->kind == R_ELEM && haspres (c)) return 1; return 0; }
static void subnodes (RN *m, int tab)
{
	RN *c; char *t; int n; axlDoc *d;
	t = ax_dump_node (m->impl, &n); d = ax_parse_ok (t, n, "node dump"); cmp_tree (d, m, 0, "node dump"); axl_doc_free (d);
	if (!haspres (m)) { t = pretty_node (m->impl, tab, &n); d = ax_parse_ok (t, n, "pretty node dump"); cmp_loose (d, m, "pretty node dump"); axl_doc_free (d); }
	for (c = m->first; c; c = c->next) if (c->kind == R_ELEM) subnodes (c, tab);
}
static void files (axlDoc *doc, RN *m, int tab)
{
	char *p = ax_fmt ("%s/f", mc_scratch), *t, *f; int n, k;
	ax_write_file (p, ax_rep ('z', 3000), 3000);     /* must be overwritten */
	t = ax_dump (doc, &n); MC_CHECK (axl_doc_dump_to_file (doc, p), "dump to file failed"); f = ax_read_file (p, &k); MC_CHECK (k == n && !memcmp (f, t, n), "the file holds %s, the dump is %s", Q (f), Q (t));
	t = pretty_doc (doc, tab, &n); MC_CHECK (axl_doc_dump_pretty_to_file (doc, p, tab), "pretty dump to file failed"); f = ax_read_file (p, &k); MC_CHECK (k == n && !memcmp (f, t, n), "the pretty file holds %s, the dump is %s", Q (f), Q (t));
	t = ax_dump_node (m->impl, &n); MC_CHECK (axl_node_dump_to_file (m->impl, p), "node dump to file failed"); f = ax_read_file (p, &k); MC_CHECK (k == n && !memcmp (f, t, n), "the node file holds %s, the dump is %s", Q (f), Q (t));
	t = pretty_node (m->impl, tab, &n); MC_CHECK (axl_node_dump_pretty_to_file (m->impl, p, tab), "pretty node dump to file failed"); f = ax_read_file (p, &k); MC_CHECK (k == n && !memcmp (f, t, n), "the pretty node file holds %s, the dump is %s", Q (f), Q (t));
	remove (p); p = ax_fmt ("%s/no/such", mc_scratch);
	MC_CHECK (!axl_doc_dump_to_file (doc, p) && !axl_doc_dump_pretty_to_file (doc, p, tab) && !axl_node_dump_to_file (m->impl, p) && !axl_node_dump_pretty_to_file (m->impl, p, tab), "dump to an impossible file reported as done");
}
static void bindx (axlNode *n, RN *m) { RN *c; axlNode *k = axl_node_get_first_child (n); m->impl = n; for (c = rn_first_elem (m); c; c = rn_elem_next (c), k = axl_node_get_next (k)) bindx (k, c); }
static void all (axlDoc *doc, RN *m, int tab, int deep)
{
	char *t1, *t2, *t3; int n; axlDoc *d, *e; RN *nm = norm (m, 0, 0);
	t1 = ax_dump (doc, &n); d = ax_parse_ok (t1, n, "dump"); cmp_tree (d, m, 0, "dump");
	MC_CHECK ((axl_doc_get_encoding (d) == NULL) == (axl_doc_get_encoding (doc) == NULL) && (!axl_doc_get_encoding (d) || !strcmp (axl_doc_get_encoding (d), axl_doc_get_encoding (doc))), "encoding lost in the dump");
	MC_CHECK (!axl_doc_get_standalone (d) == !axl_doc_get_standalone (doc), "standalone flag lost in the dump");
	t2 = ax_dump (d, &n); if (rn_equal (nm, m)) MC_CHECK (few (m) ? !strcmp (t1, t2) : strlen (t1) == strlen (t2), "dumped again: %s, first time %s", Q (t2), Q (t1));
	e = ax_parse_ok (t2, n, "second dump"); t3 = ax_dump (e, &n); MC_CHECK (few (m) ? !strcmp (t2, t3) : strlen (t2) == strlen (t3), "dumped again: %s, before %s", Q (t3), Q (t2)); axl_doc_free (e);
	/* dumping changes nothing */
	t3 = ax_dump (doc, &n); MC_CHECK (!strcmp (t1, t3), "a second dump of the same document differs"); axl_doc_free (d);
	if (!haspres (m)) { t1 = pretty_doc (doc, tab, &n); d = ax_parse_ok (t1, n, "pretty dump"); cmp_loose (d, m, "pretty dump");
		if (deep) { t2 = pretty_doc (d, tab, &n); } axl_doc_free (d); }
	else { t1 = pretty_doc (doc, tab, &n); d = ax_parse_ok (t1, n, "pretty dump"); axl_doc_free (d); }
	if (deep) { subnodes (m, tab); files (doc, m, tab); }
	mc_state (rn_hash (m)); mc_nontrivial ();
}
static const char *txt[] = { "t", " s ", "\n", "a&lt;b", "" }, *cds[] = { "c", "", " <x> ", "]]" }, *cms[] = { "c", " c", "c ", "", " ", " - " };
static RN *gen (int budget, int parsed, int wide)
{
	RN *root = rn_elem ("r"), *cur = root, *e; int k, nel = 0, st = 0; if (mc_choose (wide ? 3 : 1)) { rn_set (root, "k", "v"); }
	while (budget > 0) {
		int nk = wide ? 21 : 12; k = mc_choose (nk + 2); budget--; if (++st == 2 || (st == 1 && !k)) mc_shard ();
		if (k == 0) break;
		if (k == 1) { if (cur == root) mc_skip (); cur = cur->parent; budget++; if (!cur->last || cur->last->kind != R_ELEM) mc_skip (); continue; }
		k -= 2;
		if (k >= 12) k = k - 12 + 100;
		switch (k) {
		case 0: rn_add (cur, rn_elem (nel++ & 1 ? "b" : "ab")); break;
		case 1: e = rn_elem (nel++ & 1 ? "b" : "ab"); rn_add (cur, e); cur = e; break;
		case 2: e = rn_elem ("p"); rn_set (e, "q", "1"); rn_set (e, "w", "&quot;'"); rn_add (cur, e); cur = e; break;
		case 3: rn_add (cur, rn_new (R_TEXT, NULL, txt[0])); break;
		case 4: rn_add (cur, rn_new (R_TEXT, NULL, txt[1])); break;
		case 5: rn_add (cur, rn_new (R_TEXT, NULL, txt[2])); break;
		case 6: rn_add (cur, rn_new (R_CDATA, NULL, cds[0])); break;
		case 7: rn_add (cur, rn_new (R_COMMENT, NULL, cms[0])); break;
		case 8: rn_add (cur, rn_new (R_PI, "pt", "pc x")); break;
		case 9: rn_add (cur, rn_new (R_PI, "pt", NULL)); break;
		case 10: rn_add (cur, rn_new (R_COMMENT, NULL, cms[1])); break;
		case 11: e = rn_elem ("s"); rn_set (e, "xml:space", "preserve"); rn_add (cur, e); cur = e; break;
		case 100: rn_add (cur, rn_new (R_TEXT, NULL, txt[3])); break;
		case 101: if (parsed) mc_skip (); rn_add (cur, rn_new (R_TEXT, NULL, txt[4])); break;
		case 102: case 103: case 104: rn_add (cur, rn_new (R_CDATA, NULL, k == 103 ? "&lt;x&gt;" : cds[k - 101])); break;
		case 105: case 106: case 107: case 108: rn_add (cur, rn_new (R_COMMENT, NULL, cms[k - 103])); break;
		}
	}
	return root;
}
static axlDoc *make (RN *m, int parsed, const char *enc, int sa)
{
	axlDoc *d; if (parsed) { char *t = ax_fmt ("%s%s", enc || sa ? ax_fmt ("<?xml version='1.0'%s%s?>", enc ? ax_fmt (" encoding='%s'", enc) : "", sa ? " standalone='yes'" : "") : "", rn_str (m)); d = ax_parse_ok (t, -1, "start"); return d; }
	d = axl_doc_create ("1.0", enc, sa); { axlNode *r = axl_node_create (m->name); apibuild (m, r); axl_doc_set_root (d, r); } return d;
}
static const int tabs[] = { 0, 1, 4, 7, 33 };
void mc_case (void)
{
	int part, parsed, i, n; RN *m, *p; axlDoc *d; ax_reset (); part = mc_choose (6); parsed = mc_choose (2);
	if (part <= 1) {                 /* structure */
		static int quick[] = { 4, 3 }; int budget = quick[part] + (mc_thorough ? 1 : 0); m = gen (budget, parsed, part); 
				mc_desc ("%s %s", parsed ? "parsed" : "api", Q (rn_str (m))); d = make (m, parsed, NULL, 0); if (parsed) { m = ax_model (axl_doc_get_root (d)); bindx (axl_doc_get_root (d), m); }
		all (d, m, tabs[part ? 2 : mc_hash (rn_str (m), 3, 0) % 3], 0); subnodes (m, 2); axl_doc_free (d);
	} else if (part == 2) {          /* header, every tabulation, files */
		static const char *encs[] = { NULL, "utf-8", "UTF-8", "x" }; static const char *b[] = { "<r/>", "<r k='v'>t</r>", "<r><a>x</a><!-- c --><b/><?p?><![CDATA[]]></r>", "<a><b><c><d>1</d></c>2</b></a>" }; int sa, e, w; e = mc_choose (4); sa = mc_choose (2); w = mc_choose (4); mc_shard (); n = mc_choose (41);
		d = ax_parse_ok (b[w], -1, "seed"); m = ax_model (axl_doc_get_root (d)); axl_doc_free (d); mc_desc ("encoding %s standalone %d tab %d %s", encs[e] ? encs[e] : "-", sa, n, b[w]);
		d = make (m, parsed, encs[e], sa); if (parsed) bindx (axl_doc_get_root (d), m); MC_CHECK (!axl_doc_get_standalone (d) == !sa, "standalone"); all (d, m, n, 1); axl_doc_free (d);
	} else if (part == 3) {          /* depth, width, attributes */
		static const int cnt[] = { 0, 1, 5, 9, 10, 11, 12, 20, 21, 22, 40, 100, 300 }; int w = mc_choose (5); n = cnt[mc_choose (13)]; mc_shard (); m = rn_elem ("r"); p = m;
		for (i = 0; i < n; i++) { RN *c = rn_elem (ax_fmt ("e%d", i % 7)); switch (w) {
			case 0: rn_add (p, c); p = c; break; case 1: rn_add (p, c); break; case 2: rn_set (m, ax_fmt ("a%d", i), ax_fmt ("%d%s", i, i % 3 ? "" : "\"")); break;
			case 3: rn_add (p, c); rn_add (c, rn_new (R_TEXT, NULL, ax_fmt ("%d", i))); rn_add (p, rn_new (R_COMMENT, NULL, "x")); rn_set (c, "i", ax_fmt ("%d", i)); if (i % 5 == 4) p = c; break;
			case 4: rn_add (p, rn_new (R_CDATA, NULL, ax_rep ('x', i))); rn_add (p, rn_new (R_PI, "t", ax_rep ('y', i))); rn_add (p, c); break; } }
		mc_desc ("%s shape %d count %d", parsed ? "parsed" : "api", w, n); d = make (m, parsed, NULL, 0); if (parsed) { m = ax_model (axl_doc_get_root (d)); bindx (axl_doc_get_root (d), m); } all (d, m, 3, n < 50); axl_doc_free (d);
	} else if (part == 4) {          /* every short content of every kind, one or two attributes */
		static const char *al[6][8] = { { "'", "\"", "a", " ", "\n", "&lt;", ">", "\xc3\xa9" }, { "a", " ", "\n", "]", ">", "-", "&amp;", "\"" }, { "]", ">", "<", "&", "a", " ", "\n", "'" }, { "-", " ", "a", "<", ">", "\n", "&", "!" }, { "?", " ", "a", ">", "\n", "<", "&", "\"" }, { "'", "\"", "a", "", "", "", "", "" } };
		int k = mc_choose (6), len, mx = mc_thorough ? 5 : 4; SB b[2] = {{0}}; const char *x, *y; len = k == 5 ? mc_choose (3) : mc_choose (mx + 1);
		for (i = 0; i < len; i++) { sb_add (&b[0], al[k][mc_choose (k == 5 ? 3 : 8)]); if (!i) mc_shard (); } x = sb_str (&b[0]); y = NULL;
		if (k == 5) { len = mc_choose (3); for (i = 0; i < len; i++) sb_add (&b[1], al[k][mc_choose (3)]); y = sb_str (&b[1]); }
		if ((strchr (x, '\'') && strchr (x, '"') && (k == 0 || k == 5)) || (y && strchr (y, '\'') && strchr (y, '"'))) mc_skip ();
		m = rn_elem ("r"); p = rn_elem ("e"); rn_add (m, p);
		switch (k) { case 0: rn_set (p, "q", x); break; case 5: rn_set (p, "q", x); rn_set (p, "w", y); rn_set (p, "z", "1"); break; case 1: rn_add (p, rn_new (R_TEXT, NULL, x)); if (parsed && !*x) mc_skip (); break;
			case 2: if (strstr (x, "]]>")) mc_skip (); rn_add (p, rn_new (R_CDATA, NULL, x)); break; case 3: if (strstr (x, "--") || (*x && x[strlen (x) - 1] == '-')) mc_skip (); rn_add (p, rn_new (R_COMMENT, NULL, x)); break;
			case 4: if (strstr (x, "?>") || isws (*x) || (*x && isws (x[strlen (x) - 1]))) mc_skip (); rn_add (p, rn_new (R_PI, "t", *x ? x : NULL)); break; }
		mc_desc ("%s content kind %d %s %s", parsed ? "parsed" : "api", k, Q (x), y ? Q (y) : ""); d = make (m, parsed, NULL, 0); if (parsed) { m = ax_model (axl_doc_get_root (d)); bindx (axl_doc_get_root (d), m); } all (d, m, 3, 1); axl_doc_free (d);
	} else {                         /* edited trees: every single edit of a parsed tree, then dumped */
		static const char *b[] = { "<r><a k='v'>x</a><b/>t<!-- c --><?p q?></r>", "<r>t</r>", "<r><a/></r>" }; axlItem *it; int w = mc_choose (3), op = mc_choose (6), k; mc_shard (); d = ax_parse_ok (b[w], -1, "seed"); m = ax_model (axl_doc_get_root (d)); bindx (axl_doc_get_root (d), m); if (parsed) mc_skip ();
		mc_desc ("%s edit %d", b[w], op);
		switch (op) {
		case 0: for (it = axl_item_get_first_child (m->impl), k = 0; it; it = axl_item_get_next (it)) k++; n = mc_choose (k); mc_desc (" item %d", n); for (it = axl_item_get_first_child (m->impl), p = m->first, k = 0; k < n; k++) { it = axl_item_get_next (it); p = p->next; } axl_item_remove (it, axl_true); rn_unlink (p); break;
		case 1: axl_node_set_is_empty (m->impl, axl_true); for (p = m->first; p; ) { RN *q = p->next; if (p->kind == R_TEXT || p->kind == R_CDATA) rn_unlink (p); p = q; } break;
		case 2: axl_node_set_name (m->impl, "renamed-root"); m->name = "renamed-root"; break;
		case 3: axl_node_set_attribute (m->impl, "n", "<\""); rn_set (m, "n", "&lt;&quot;"); break;
		case 4: axl_node_set_content (m->impl, "x>y", -1); rn_add (m, rn_new (R_TEXT, NULL, "x&gt;y")); break;
		case 5: p = rn_elem ("z"); p->impl = axl_node_create ("z"); axl_node_set_child (m->impl, p->impl); rn_add (m, p); break; }
		all (d, m, 2, 1); axl_doc_free (d);
	}
}
