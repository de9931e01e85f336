/* C09: equality of all ordered pairs of small trees and of every single-point change; copies are equal and independent. */
#include "ax.h"
const char *mc_name = "c09_equal";
void mc_init (void) { axl_init (); }

static int isws (int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static char *strip (const char *s) { int n; while (isws (*s)) s++; n = strlen (s); while (n && isws (s[n - 1])) n--; return ax_dupn (s, n); }
static RN *trimmed (RN *m) { RN *r = rn_new (m->kind, m->name, m->kind == R_TEXT || m->kind == R_CDATA || m->kind == R_COMMENT ? strip (m->text) : m->text), *c; RA *a; for (a = m->attrs; a; a = a->next) rn_set (r, a->k, a->v); for (c = m->first; c; c = c->next) rn_add (r, trimmed (c)); return r; }
static void apibuild (RN *m, axlNode *n)
{
	RN *c; RA *a; m->impl = n; for (a = m->attrs; a; a = a->next) axl_node_set_attribute_ref (n, axl_strdup (a->k), axl_strdup (a->v));
	for (c = m->first; c; c = c->next) switch (c->kind) {
		case R_ELEM: { axlNode *k = axl_node_create (c->name); axl_node_set_child (n, k); apibuild (c, k); break; }
		case R_TEXT: axl_node_set_content_ref (n, axl_strdup (c->text), -1); break; case R_CDATA: axl_item_set_child_ref (n, axl_item_new_ref (ITEM_CDATA, axl_strdup (c->text))); break;
		case R_COMMENT: axl_node_set_comment (n, c->text, -1); break; case R_PI: axl_node_add_pi_target (n, c->name, c->text); break; }
}
static void bindx (axlNode *n, RN *m) { RN *c; axlNode *k = axl_node_get_first_child (n); m->impl = n; for (c = rn_first_elem (m); c; c = rn_elem_next (c), k = axl_node_get_next (k)) bindx (k, c); }
static axlDoc *make (RN *m, int parsed) { axlDoc *d; if (parsed) { d = ax_parse_ok (rn_str (m), -1, "start"); bindx (axl_doc_get_root (d), m); return d; } d = axl_doc_create (NULL, NULL, axl_false); { axlNode *r = axl_node_create (m->name); apibuild (m, r); axl_doc_set_root (d, r); } return d; }
/* texts the parser would join or drop: such trees are only built through the API */
static int parseable (RN *m) { RN *c; for (c = m->first; c; c = c->next) { if (c->kind == R_PI && c->text && strcmp (c->text, strip (c->text))) return 0; if (c->kind == R_TEXT && (strchr (c->text, '<') || !*strip (c->text) || (c->prev && c->prev->kind == R_TEXT) || (isws (*c->text) && c->prev && (c->prev->kind == R_COMMENT || c->prev->kind == R_PI)))) return 0; if (c->kind == R_ELEM && !parseable (c)) return 0; } return 1; }
static int shallow_eq (RN *a, RN *b) { RN x = *a, y = *b, *c; int ta = 0, tb = 0; x.first = y.first = NULL; for (c = a->first; c; c = c->next) if (c->kind == R_TEXT || c->kind == R_CDATA) ta = 1; for (c = b->first; c; c = c->next) if (c->kind == R_TEXT || c->kind == R_CDATA) tb = 1; return rn_equal (&x, &y) && ta == tb && rn_nelems (a) == rn_nelems (b); }
static void verdicts (axlDoc *x, RN *a, axlDoc *y, RN *b)
{
	int eq = rn_equal (a, b), te = rn_equal (trimmed (a), trimmed (b)), k; axlError *err = NULL; mc_trans (5);
	MC_CHECK (!axl_doc_are_equal (x, y) == !eq, "axl_doc_are_equal says %d for %s and %s", !eq, Q (rn_str (a)), Q (rn_str (b)));
	MC_CHECK (!axl_doc_are_equal_trimmed (x, y) == !te, "axl_doc_are_equal_trimmed says %d for %s and %s", !te, Q (rn_str (a)), Q (rn_str (b)));
	for (k = 0; k < 2; k++) { axl_bool r = axl_doc_are_equal_full (x, y, k, &err); MC_CHECK (!r == !(k ? te : eq), "axl_doc_are_equal_full (trimmed %d) says %d for %s and %s", k, r, Q (rn_str (a)), Q (rn_str (b))); MC_CHECK (!(r && err), "equal documents with an error"); if (err) { MC_CHECK (ax_err (err), "empty message or code 0"); axl_error_free (err); err = NULL; } }
	MC_CHECK (!axl_node_are_equal (a->impl, b->impl) == !shallow_eq (a, b), "axl_node_are_equal says %d for %s and %s", !shallow_eq (a, b), Q (rn_str (a)), Q (rn_str (b)));
	mc_outcome (eq ? "equal" : te ? "equal when trimmed" : "different");
}
static RN *gen (int budget, int kinds)
{
	RN *root, *cur, *e; int k, st = 0; root = rn_elem (mc_choose (2) ? "r" : "s"); cur = root; k = mc_choose (3); if (k) rn_set (root, "k", k == 1 ? "v" : "w");
	while (budget > 0) {
		k = mc_choose (kinds + 2); budget--; st++;
		if (k == 0) break;
		if (k == 1) { if (cur == root || cur->parent->last != cur) mc_skip (); cur = cur->parent; budget++; if (budget > 20) mc_skip (); continue; }
		switch (k - 2) {
		case 0: rn_add (cur, rn_elem ("a")); break;
		case 1: rn_add (cur, rn_new (R_TEXT, NULL, "t")); break;
		case 2: e = rn_elem ("a"); rn_add (cur, e); cur = e; break;
		case 3: rn_add (cur, rn_new (R_TEXT, NULL, " t ")); break;
		case 4: rn_add (cur, rn_new (R_CDATA, NULL, "t")); break;
		case 5: rn_add (cur, rn_new (R_COMMENT, NULL, "t")); break;
		case 6: rn_add (cur, rn_new (R_PI, "t", NULL)); break;
		case 7: rn_add (cur, rn_new (R_PI, "t", "x")); break;
		}
	}
	return root;
}
static const char *bases[] = {
	"<r/>", "<r>text</r>", "<r k='v' j='w'><a>x</a><!-- c --><b><c/> y </b><?p q?><![CDATA[<z>]]></r>",
	"<r><a><b><c><d k='1'>deep</d></c></b></a><a/><a><b/></a></r>", "<r><a/>one<a/>two<a/>three<a/></r>",
	"<r a='1' b='2' c='3' d='4' e='5' f='6' g='7' h='8' i='9' j='10' k='11' l='12'><x a='1' b='2' c='3' d='4' e='5' f='6' g='7' h='8' i='9' j='10'/></r>",
	"<r><?p?><?p q?><!--c--><!--d--><![CDATA[1]]><![CDATA[2]]></r>", "<r> padded <i>\n\tin \n</i> end</r>" };
#define NB 8
static RN *E[128], *I[128]; static int ne, ni;
static void coll (RN *n) { RN *c; E[ne++] = n; for (c = n->first; c; c = c->next) { I[ni++] = c; if (c->kind == R_ELEM) coll (c); } }
static void mutate (RN *m)
{
	RN *x, *y; RA *a; int k, n; char *t; ne = ni = 0; coll (m); k = mc_choose (16);
	switch (k) {
	case 0: x = E[mc_choose (ne)]; n = mc_choose (3); x->name = n == 0 ? ax_fmt ("%sx", x->name) : n == 1 ? ax_fmt ("x%s", x->name) : ax_fmt ("%c%s", x->name[0] ^ 32, x->name + 1); mc_desc (" rename to %s", x->name); break;
	case 1: case 2: case 3: case 4: x = E[mc_choose (ne)]; n = rn_nattrs (x); n = mc_choose (n); for (a = x->attrs; n; a = a->next) n--; mc_desc (" attribute %s of <%s> change %d", a->k, x->name, k);
		if (k == 1) rn_unset (x, a->k); else if (k == 2) a->v = ax_fmt ("%s ", a->v); else if (k == 3) a->k = ax_fmt ("%s0", a->k); else a->v = mc_choose (2) ? "" : *a->v ? ax_fmt ("%c%s", a->v[0] + 1, a->v + 1) : "n"; break;
	case 5: x = E[mc_choose (ne)]; mc_desc (" new attribute on <%s>", x->name); rn_set (x, "zz", "1"); break;
	case 6: if (!ni) mc_skip (); y = I[mc_choose (ni)]; mc_desc (" delete %s", Q (rn_str (y))); rn_unlink (y); break;
	case 7: if (!ni) mc_skip (); y = I[mc_choose (ni)]; mc_desc (" duplicate %s", Q (rn_str (y))); rn_after (y, rn_copy (y, 1, 1)); break;
	case 8: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (!y->next) mc_skip (); mc_desc (" swap %s with the next", Q (rn_str (y))); x = y->next; rn_unlink (y); rn_after (x, y); break;
	case 9: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (y->kind == R_ELEM || y->kind == R_PI || !y->text) mc_skip (); t = ax_dup (y->text); n = mc_choose (6); { int L = strlen (t);
		if (n == 0) t = ax_fmt ("%s ", t); else if (n == 1) t = ax_fmt ("\n%s", t); else if (n == 2 && L) t[L - 1] ^= 1; else if (n == 3 && L) t[0] ^= 32; else if (n == 4) t = ax_fmt ("%sx", t); else if (n == 5 && L > 1) t[L - 1] = 0; else mc_skip (); } mc_desc (" text %s", Q (t)); y->text = t; break;
	case 10: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (y->kind == R_ELEM || y->kind == R_PI) mc_skip (); n = mc_choose (3); if (y->kind == (n == 0 ? R_TEXT : n == 1 ? R_CDATA : R_COMMENT)) mc_skip (); mc_desc (" kind of %s", Q (rn_str (y))); y->kind = n == 0 ? R_TEXT : n == 1 ? R_CDATA : R_COMMENT; break;
	case 11: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (y->kind != R_PI) mc_skip (); n = mc_choose (4); mc_desc (" instruction %d", n); if (n == 0) y->name = "pp"; else if (n == 1) y->text = y->text ? NULL : "q"; else if (n == 2 && y->text) y->text = ax_fmt ("%sx", y->text); else if (n == 3 && y->text) y->text = ax_fmt ("%s ", y->text); else mc_skip (); break;
	case 12: x = E[mc_choose (ne)]; n = mc_choose (5); mc_desc (" append %d to <%s>", n, x->name); rn_add (x, n == 0 ? rn_elem ("new") : n == 1 ? rn_new (R_TEXT, NULL, "new") : n == 2 ? rn_new (R_CDATA, NULL, "") : n == 3 ? rn_new (R_COMMENT, NULL, "") : rn_new (R_PI, "n", NULL)); break;
	case 13: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (y->kind != R_ELEM || !y->prev || y->prev->kind != R_ELEM) mc_skip (); mc_desc (" move <%s> into its predecessor", y->name); x = y->prev; rn_unlink (y); rn_add (x, y); break;
	case 14: if (!ni) mc_skip (); y = I[mc_choose (ni)]; if (y->kind != R_ELEM || y->parent->kind != R_ELEM || y != y->parent->last || !y->parent->parent) mc_skip (); mc_desc (" move <%s> out", y->name); x = y->parent; rn_unlink (y); rn_after (x, y); break;
	case 15: break;            /* no change */
	}
}
static RN *model_of (const char *t) { axlDoc *d = ax_parse_ok (t, -1, "base"); RN *m = ax_model (axl_doc_get_root (d)); axl_doc_free (d); return m; }
static void edit (axlNode *n, RN *m, int k)   /* one change of an implementation tree and its model */
{
	RN *c; RA *a; mc_trans (1);
	switch (k) {
	case 0: axl_node_set_content (n, "EDIT", -1); rn_add (m, rn_new (R_TEXT, NULL, "EDIT")); break;
	case 1: axl_node_set_attribute (n, "edit", "1"); rn_set (m, "edit", "1"); break;
	case 2: a = m->attrs; if (!a) mc_skip (); axl_node_remove_attribute (n, a->k); rn_unset (m, a->k); break;
	case 3: c = rn_first_elem (m); if (!c) mc_skip (); axl_node_remove (axl_node_get_first_child (n), axl_true); rn_unlink (c); break;
	case 4: axl_node_set_name (n, "edited"); m->name = "edited"; break;
	case 5: axl_node_set_is_empty (n, axl_true); for (c = m->first; c; ) { RN *q = c->next; if (c->kind == R_TEXT || c->kind == R_CDATA) rn_unlink (c); c = q; } break;
	case 6: if (!m->first) mc_skip (); axl_item_remove (axl_item_get_first_child (n), axl_true); rn_unlink (m->first); break;
	case 7: c = m->first; if (!c || c->kind != R_TEXT) mc_skip (); axl_node_get_content_trim (n, NULL); c->text = strip (c->text); break;
	case 8: c = rn_first_elem (m); if (!c) mc_skip (); axl_node_set_child (axl_node_get_first_child (n), axl_node_create ("e")); rn_add (c, rn_elem ("e")); break;
	case 9: a = m->attrs; if (!a) mc_skip (); a->v = strip (a->v); axl_node_get_attribute_value_trimmed (n, a->k); break;
	}
}
void mc_case (void)
{
	int part, i, k; RN *a, *b; axlDoc *x, *y; ax_reset (); part = mc_choose (4);
	if (part == 0) {                 /* all ordered pairs of small trees: first through the API, second parsed when it can be */
		a = gen (3, 8); mc_shard (); b = gen (mc_thorough ? 3 : 2, mc_thorough ? 7 : 8); mc_desc ("%s ? %s", Q (rn_str (a)), Q (rn_str (b)));
		x = make (a, 0); y = make (b, parseable (b)); verdicts (x, a, y, b); verdicts (y, b, x, a); axl_doc_free (x); axl_doc_free (y); mc_state (rn_hash (a) * 3 + rn_hash (b)); mc_nontrivial ();
	} else if (part == 1) {          /* every single-point change (thorough: every pair of changes) */
		int w = mc_choose (NB), two; a = model_of (bases[w]); b = rn_copy (a, 1, 1); mc_desc ("%s:", bases[w]); mutate (b); mc_shard (); two = mc_choose (2); if (two && !mc_thorough && (w == 5 || w == 2 || w == 3)) mc_skip (); if (two) mutate (b);
		x = make (a, mc_choose (2)); y = make (b, parseable (b)); verdicts (x, a, y, b); verdicts (y, b, x, a);
		ax_check (a->impl, a, x, AXF_NODOC, "first tree after comparing"); ax_check (b->impl, b, y, AXF_NODOC, "second tree after comparing"); axl_doc_free (x); axl_doc_free (y); mc_state (rn_hash (b)); mc_nontrivial ();
	} else if (part == 2) {          /* copies: equal, partial copies, independence */
		int w = mc_choose (NB), fa = mc_choose (2), fc = mc_choose (2), o, e, side; axlNode *c; RN *src, *m; mc_shard (); a = model_of (bases[w]); x = make (a, mc_choose (2)); ne = ni = 0; coll (a); src = E[mc_choose (ne)];
		side = mc_choose (4); e = mc_choose (10); if (side > 1 && e) mc_skip (); o = mc_choose (2);
		mc_desc ("%s: copy of <%s> attributes %d children %d, then %s %d, %s released first", bases[w], src->name, fa, fc, side == 0 ? "edit the copy" : side == 1 ? "edit the original" : "nothing", e, o ? "copy" : "original");
		c = axl_node_copy (src->impl, fa, fc); b = rn_copy (src, fa, fc); ax_check (c, b, NULL, AXF_NODOC, "copy"); MC_CHECK (!axl_node_get_parent (c) && !axl_node_get_next (c) && !axl_node_get_previous (c), "a copy has relatives");
		if (fa && fc) MC_CHECK (axl_node_are_equal (c, src->impl), "a copy is not equal to the original");
		m = a; if (side == 3) { axlNode *c2 = axl_node_copy (c, axl_true, axl_true); axl_node_free (c); c = c2; }
		if (side == 0) edit (c, b, e); if (side == 1) edit (src->impl, src, e);
		ax_check (c, b, NULL, AXF_NODOC, "copy after the edit"); ax_check (a->impl, m, x, AXF_NODOC, "original after the edit");
		if (o) { axl_node_free (c); ax_check (a->impl, m, x, AXF_NODOC, "original after the copy is gone"); axl_doc_free (x); } else { axl_doc_free (x); ax_check (c, b, NULL, AXF_NODOC, "copy after the original is gone"); axl_node_free (c); }
		mc_state (rn_hash (b) + e + side * 77); mc_nontrivial ();
	} else {                         /* many attributes and big trees: a difference at every position */
		int n = (int[]) { 1, 2, 9, 10, 11, 12, 13, 25 } [mc_choose (8)], w = mc_choose (3), p = mc_choose (n), ch = mc_choose (3), rev = mc_choose (2); mc_shard (); a = rn_elem ("r"); b = rn_elem ("r");
		for (k = 0; k < 2; k++) { RN *m = k ? b : a, *cur = m; for (i = 0; i < n; i++) { int j = k && rev && w == 0 ? n - 1 - i : i, d = k && ch && j == p;
			if (w == 0) { if (d && ch == 2) rn_set (m, ax_fmt ("b%d", j), "v"); else rn_set (m, ax_fmt ("a%d", j), d ? "w" : "v"); }
			else { RN *c = rn_elem (d && ch == 1 ? "d" : "c"); rn_add (cur, c); if (d && ch == 2) rn_add (c, rn_new (R_TEXT, NULL, "x")); if (w == 2) cur = c; } } }
		mc_desc ("%s %d, difference %d at %d, reversed %d", w == 0 ? "attributes" : w == 1 ? "siblings" : "nested", n, ch, p, rev);
		x = make (a, 0); y = make (b, 1); verdicts (x, a, y, b); verdicts (y, b, x, a); axl_doc_free (x); axl_doc_free (y); mc_nontrivial ();
	}
}
