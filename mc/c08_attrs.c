/* C08: a node's attributes against a plain map, for every short history started at every interesting size. */
#include "ax.h"
const char *mc_name = "c08_attrs";
void mc_init (void) { axl_init (); }

static SB D; static RN *m; static axlNode *node; static axlDoc *doc; static int fresh;
/* raw text, its escaped form */
static const char *raw[] = { "v", "", "a&b", "<'\">", " sp ", "&amp;", "x]]>y" };
static const char *esc[] = { "v", "", "a&amp;b", "&lt;&apos;&quot;&gt;", " sp ", "&amp;amp;", "x]]&gt;y" };
static const char *unesc (const char *s)
{
	static const struct { const char *e; char c; } t[] = { { "&amp;", '&' }, { "&lt;", '<' }, { "&gt;", '>' }, { "&quot;", '"' }, { "&apos;", '\'' } }; SB b = {0}; int i;
	while (*s) { for (i = 0; i < 5 && strncmp (s, t[i].e, strlen (t[i].e)); i++); if (i < 5) { sb_c (&b, t[i].c); s += strlen (t[i].e); } else sb_c (&b, *s++); }
	return sb_str (&b);
}
static char *key (int i) { return i % 4 == 0 ? ax_fmt ("k%d", i) : i % 4 == 1 ? ax_fmt ("%c", 'a' + i % 26) : i % 4 == 2 ? ax_fmt ("ns:long-attribute-name-%d", i) : ax_fmt ("%dk", i); }
static void set_new (int v) { char *k = key (fresh++); axl_node_set_attribute (node, k, raw[v]); rn_set (m, k, esc[v]); mc_trans (1); }
static RA *nth (int i) { RA *a; for (a = m->attrs; a && i; a = a->next) i--; return a; }
static RA *some (int where) { int n = rn_nattrs (m); if (!n) mc_skip (); return nth (where == 0 ? 0 : where == 1 ? n - 1 : n / 2); }
static int cb_n, cb_stop; static axl_bool cb (const char *k, const char *v, axlPointer a, axlPointer b) { (void) k; (void) v; (void) a; (void) b; return ++cb_n == cb_stop; }

#define NOPS 15
static void op (int o)
{
	RA *a; int w; char *k;
	switch (o) {
	case 0: w = mc_choose (3); sb_f (&D, " set(new,%s)", raw[(int[]) { 0, 2, 3 } [w]]); set_new ((int[]) { 0, 2, 3 } [w]); break;
	case 1: a = some (mc_choose (3)); sb_f (&D, " set(%s again)", a->k); k = ax_dup (a->k); axl_node_set_attribute (node, k, "other<"); break;
	case 2: k = key (fresh++); sb_f (&D, " set_ref(new)"); axl_node_set_attribute_ref (node, axl_strdup (k), axl_strdup ("r&gt;f")); rn_set (m, k, "r&gt;f"); break;
	case 3: a = some (mc_choose (3)); sb_f (&D, " set_ref(%s again)", a->k); axl_node_set_attribute_ref (node, axl_strdup (a->k), axl_strdup ("zz")); break;
	case 4: a = some (mc_choose (3)); sb_f (&D, " remove(%s)", a->k); k = ax_dup (a->k); axl_node_remove_attribute (node, k); rn_unset (m, k); break;
	case 5: sb_add (&D, " remove(missing)"); axl_node_remove_attribute (node, "missing"); break;
	case 6: w = 2 + mc_choose (2); sb_f (&D, " set(%d new)", w); while (w--) set_new (1 + w); break;
	case 7: w = 2 + mc_choose (2); sb_f (&D, " remove(%d)", w); while (w-- && m->attrs) { k = ax_dup (some (w & 1)->k); axl_node_remove_attribute (node, k); rn_unset (m, k); } break;
	case 8: { axlNode *c = axl_node_copy (node, axl_true, axl_true); w = mc_choose (2); sb_f (&D, " copy%s", w ? "+free original" : "");      /* continue on the copy */
		if (w) { if (doc) { axl_doc_free (doc); doc = NULL; } else axl_node_free (node); node = c; } else axl_node_free (c); break; }
	case 9: a = some (mc_choose (3)); sb_f (&D, " get_trimmed(%s)", a->k); { const char *t = axl_node_get_attribute_value_trimmed (node, a->k); char *e = ax_dup (a->v); int l; while (*e == ' ') e++; l = strlen (e); while (l && e[l - 1] == ' ') e[--l] = 0; MC_CHECK (t && !strcmp (t, e), "trimmed value is %s, expected %s", Q (t), Q (e)); a->v = e; } break;
	case 10: sb_add (&D, " set(empty name)"); axl_node_set_attribute (node, "", "x"); break;
	case 11: a = some (mc_choose (3)); k = ax_dup (a->k); sb_f (&D, " remove+set(%s)", k); axl_node_remove_attribute (node, k); axl_node_set_attribute (node, k, raw[2]); rn_unset (m, k); rn_set (m, k, esc[2]); break;
	case 12: sb_add (&D, " remove all"); while (m->attrs) { k = ax_dup (m->attrs->k); axl_node_remove_attribute (node, k); rn_unset (m, k); } break;
	case 13: { axlAttrCursor *c = axl_node_attr_cursor_new (node); int n = 0, t = rn_nattrs (m); sb_add (&D, " cursor walk");   /* twice around, and one step beyond the end */
		for (w = 0; w < 2; w++) { axl_node_attr_cursor_first (c); for (n = 0; axl_node_attr_cursor_has_item (c) && n <= t; n++) axl_node_attr_cursor_next (c); MC_CHECK (n == t, "cursor shows %d attributes, expected %d", n, t); MC_CHECK (!axl_node_attr_cursor_has_next (c), "has_next after the end"); MC_CHECK (!axl_node_attr_cursor_get_key (c) && !axl_node_attr_cursor_get_value (c), "an attribute past the end"); axl_node_attr_cursor_next (c); MC_CHECK (!axl_node_attr_cursor_has_item (c), "item after the end"); }
		axl_node_attr_cursor_free (c); break; }
	case 14: { int t = rn_nattrs (m), s; sb_add (&D, " foreach stop"); for (s = 1; s <= t + 1; s++) { cb_n = 0; cb_stop = s; axl_node_attr_foreach (node, cb, NULL, NULL); MC_CHECK (cb_n == (s <= t ? s : t), "foreach asked to stop at %d ran %d times of %d", s, cb_n, t); } break; }
	}
	mc_trans (1); mc_desc ("%s", sb_str (&D)); D.n = 0;
}
static void final (void)
{
	RA *a; char *t; int n = -1; axlDoc *d; axlNode *c;
	ax_check (node, m, NULL, AXF_NODOC, "node");
	for (a = m->attrs; a; a = a->next) { const char *u = unesc (a->v);
		t = axl_node_get_attribute_value_trans (node, a->k); MC_CHECK (t && !strcmp (t, u), "translated value of %s is %s, expected %s", Q (a->k), Q (t), Q (u)); axl_free (t);
		t = axl_node_get_attribute_value_copy (node, a->k); MC_CHECK (t && !strcmp (t, a->v), "copied value of %s is %s, expected %s", Q (a->k), Q (t), Q (a->v)); axl_free (t);
		MC_CHECK (!axl_node_has_attribute_value (node, a->k, ax_fmt ("%sx", a->v)), "has_attribute_value true for another value");
		MC_CHECK (axl_node_has_attribute_value (node, a->k, a->v), "has_attribute_value false");
		MC_CHECK (!axl_node_has_attribute (node, ax_fmt ("%sx", a->k)), "a longer name is found"); if (strlen (a->k) > 2) MC_CHECK (!axl_node_has_attribute (node, ax_dupn (a->k, strlen (a->k) - 1)) == !rn_attr (m, ax_dupn (a->k, strlen (a->k) - 1)), "a shorter name is found"); }
	c = axl_node_copy (node, axl_true, axl_true); ax_check (c, m, NULL, AXF_NODOC, "copy"); MC_CHECK (axl_node_are_equal (node, c) && axl_node_are_equal (c, node), "a copy is not equal"); axl_node_free (c);
	c = axl_node_copy (node, axl_false, axl_false); MC_CHECK (!axl_node_has_attributes (c) && axl_node_num_attributes (c) == 0, "a copy without attributes has some"); axl_node_free (c);
	MC_CHECK (axl_node_dump (node, &t, &n) && n == (int) strlen (t), "dump failed or size %d wrong", n);
	d = ax_parse_ok (t, n, "dump"); axl_free (t); ax_check (axl_doc_get_root (d), m, d, 0, "dumped"); axl_doc_free (d);
	mc_state (rn_hash (m));
	if (doc) axl_doc_free (doc); else axl_node_free (node); mc_nontrivial ();
}
void mc_case (void)
{
	static const int sizes[] = { 0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 20, 21, 22, 40 }; int n, mode, i, depth = mc_thorough ? 4 : 3, o; ax_reset (); memset (&D, 0, sizeof D); doc = NULL; fresh = 0; m = rn_elem ("n");
	n = sizes[mc_choose (14)]; mode = mc_choose (2); if (n > 12) depth--;
	o = mc_choose (NOPS + 1); mc_shard ();
	sb_f (&D, "%d attributes (%s):", n, mode ? "parsed" : "api");
	if (mode) { SB b = {0}; sb_add (&b, "<n"); for (i = 0; i < n; i++) { char *k = key (fresh++); sb_f (&b, " %s=\"%s\"", k, esc[i % 7]); rn_set (m, k, esc[i % 7]); } sb_add (&b, "/>"); doc = ax_parse_ok (sb_str (&b), b.n, "start"); node = axl_doc_get_root (doc); }
	else { node = axl_node_create ("n"); for (i = 0; i < n; i++) set_new (i % 7); }
	mc_desc ("%s", sb_str (&D)); D.n = 0;
	for (i = 0; i < depth; i++) { if (i) o = mc_choose (NOPS + 1); if (!o) break; op (o - 1); }
	final ();
}
