/* C16: namespace validation and namespace-aware lookups against resolution by definition. */
#include "ax.h"
#include <axl_ns.h>
const char *mc_name = "c16_ns";
void mc_init (void) { axl_init (); }
#define XMLNS "http://www.w3.org/XML/1998/namespace"
static RN *E[128]; static int ne;
static void coll (RN *n) { RN *c; E[ne++] = n; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) coll (c); }
/* the namespace bound to a prefix (NULL prefix: default) at an element, by definition */
static const char *bound (RN *n, const char *pre)
{
	char *k = pre ? ax_fmt ("xmlns:%s", pre) : "xmlns"; RA *a; if (pre && !strcmp (pre, "xml")) return XMLNS;
	for (; n; n = n->parent) if ((a = rn_attr (n, k))) return a->v;
	return NULL;
}
static char *prefix (const char *name) { const char *c = strchr (name, ':'); return c ? ax_dupn (name, c - name) : NULL; }
static const char *local (const char *name) { const char *c = strchr (name, ':'); return c ? c + 1 : name; }
static const char *model_bad (RN *n)
{
	char *p = prefix (n->name); RA *a; RN *c; const char *r; if (p && !bound (n, p)) return ax_fmt ("<%s>", n->name);
	for (a = n->attrs; a; a = a->next) { if (!strncmp (a->k, "xmlns:", 6) || !strcmp (a->k, "xmlns")) continue; p = prefix (a->k); if (p && !bound (n, p)) return ax_fmt ("attribute %s of <%s>", a->k, n->name); }
	for (c = rn_first_elem (n); c; c = rn_elem_next (c)) if ((r = model_bad (c))) return r;
	return NULL;
}
static int cmp (RN *n, const char *ns, const char *l) { const char *b = bound (n, prefix (n->name)); return b && !strcmp (b, ns) && !strcmp (local (n->name), l); }
static RN *child (RN *n, const char *ns, const char *l) { RN *c; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) if (cmp (c, ns, l)) return c; return NULL; }
static RN *find (RN *n, const char *ns, const char *l) { RN *c = child (n, ns, l), *r; if (c) return c; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) if ((r = find (c, ns, l))) return r; return NULL; }
static const char *NS[] = { "urn:1", "urn:12", "urn:", XMLNS }, *LN[] = { "x", "xy", "p:x" };
#define SAME(n,m,what) do { RN *_m = (m); mc_trans (1); if ((n) != (_m ? _m->impl : NULL)) mc_fail ("%s (%s, %s) from element %d is not %s", what, NS[s], LN[l], i, _m ? _m->name : "nothing"); } while (0)
static void lookups (axlDoc *d, RN *root, int nl)
{
	int i, s, l; RN *x; ne = 0; coll (root);
	for (i = 0; i < ne; i++) { axlNode *n = E[i]->impl; int pos = 77, pe = strchr (E[i]->name, ':') ? (int) (strchr (E[i]->name, ':') - E[i]->name) : -1; MC_CHECK (!axl_ns_node_is_prefixed (n, &pos) == (pe < 0) && pos == pe && !axl_ns_node_is_prefixed (n, NULL) == (pe < 0), "is_prefixed of <%s> at %d", E[i]->name, pos);
		for (s = 0; s < 4; s++) for (l = 0; l < nl; l++) { int e = cmp (E[i], NS[s], LN[l]); mc_trans (1);
			MC_CHECK (!axl_ns_node_cmp (n, NS[s], LN[l]) == !e, "axl_ns_node_cmp of element %d <%s> with (%s, %s) says %d", i, E[i]->name, NS[s], LN[l], !e); if (e) mc_nontrivial ();
			SAME (axl_ns_node_get_child_called (n, NS[s], LN[l]), child (E[i], NS[s], LN[l]), "child"); SAME (axl_ns_node_find_called (n, NS[s], LN[l]), find (E[i], NS[s], LN[l]), "descendant");
			for (x = rn_elem_next (E[i]); x && !cmp (x, NS[s], LN[l]); x = rn_elem_next (x)); SAME (axl_ns_node_get_next_called (n, NS[s], LN[l]), x, "next");
			for (x = rn_elem_prev (E[i]); x && !cmp (x, NS[s], LN[l]); x = rn_elem_prev (x)); SAME (axl_ns_node_get_previous_called (n, NS[s], LN[l]), x, "previous"); } }
	i = 0; for (s = 0; s < 4; s++) for (l = 0; l < nl; l++) SAME (axl_ns_doc_find_called (d, NS[s], LN[l]), find (root, NS[s], LN[l]), "whole document");
}
static int judge (axlDoc *d, RN *root, int times)
{
	int k; const char *bad = model_bad (root); axlError *err = NULL; axl_bool r;
	for (k = 0; k < times; k++) { mc_trans (1); r = axl_ns_doc_validate (d, k == 1 ? NULL : &err); MC_CHECK (!r == !!bad, "validation says %d: %s%s", r, bad ? "no declaration for " : "every prefix is declared", bad ? bad : ""); if (k != 1) MC_CHECK (!r == !!err, "verdict %d with%s error", r, err ? "" : "out"); if (err) { MC_CHECK (ax_err (err), "empty message or code 0"); axl_error_free (err); err = NULL; } }
	ax_check (root->impl, root, d, AXF_NODOC, "document after validation"); mc_outcome (bad ? "undeclared prefix" : "valid"); return !bad;
}
static axlDoc *load (RN *m) { axlDoc *d = ax_parse_ok (rn_str (m), -1, "document"); ax_check (axl_doc_get_root (d), m, d, AXF_BIND, "parsed"); return d; }
static void decorate (RN *e, int rich)
{
	static const char *names[] = { "x", "p:x", "pp:x", "xml:x", "p:xy" }, *at[] = { NULL, "p:k", "k", "pp:k", "xml:lang", "xmlnsp", "xmlnspp:k", "xm" }; const char *v; int k;
	e->name = (char *) names[mc_choose (rich == 2 ? 5 : rich ? 4 : 3)];
	k = mc_choose (rich == 2 ? 4 : 3); v = k == 0 ? NULL : k == 1 ? "urn:1" : k == 2 ? "" : "urn:12"; if (v) rn_set (e, "xmlns", v);
	k = mc_choose (rich || mc_thorough ? 3 : 2); if (k) rn_set (e, "xmlns:p", k == 1 ? "urn:1" : "urn:12");
	if (rich && mc_choose (2)) rn_set (e, "xmlns:pp", "urn:12");
	k = mc_choose (rich == 2 ? 8 : rich ? 5 : 2); if (at[k]) { if (rich && mc_choose (2)) { RA *a = e->attrs, *n; rn_set (e, at[k], "v"); n = rn_attr (e, at[k]); if (n != e->attrs) { RA *q = a; while (q->next != n) q = q->next; q->next = NULL; n->next = a; e->attrs = n; } } else rn_set (e, at[k], "v"); }
}
void mc_case (void)
{
	int part, i, k; RN *root, *c; axlDoc *d; ax_reset (); part = mc_choose (5);
	if (part == 0) {                 /* one or two elements with every combination of names, declarations and attributes */
		root = rn_elem ("r"); decorate (root, mc_thorough ? 2 : 1); mc_shard (); k = mc_choose (2); if (k) { c = rn_elem ("c"); rn_add (root, c); if (mc_choose (2)) rn_add (root, rn_new (R_TEXT, NULL, "t")); decorate (c, 1); }
		mc_desc ("%s", Q (rn_str (root))); d = load (root); if (judge (d, root, 3)) lookups (d, root, 3); axl_doc_free (d); mc_state (rn_hash (root));
	} else if (part == 1) {          /* three elements: chain, siblings, mixed */
		int shape = mc_choose (2); RN *a = rn_elem ("a"), *b = rn_elem ("b"); root = rn_elem ("r"); rn_add (root, a); rn_add (shape ? root : a, b); decorate (root, 0); decorate (a, 0); mc_shard (); decorate (b, mc_thorough);
		mc_desc ("%s", Q (rn_str (root))); d = load (root); if (judge (d, root, 2)) lookups (d, root, 2); axl_doc_free (d); mc_state (rn_hash (root));
	} else if (part == 2) {          /* histories: declarations come and go, elements move, validation is repeated */
		int depth = mc_thorough ? 5 : 4, j, n; RN *a = rn_elem ("p:x"), *b = rn_elem ("x"), *cc = rn_elem ("p:x"); root = rn_elem ("x"); rn_set (root, "xmlns:p", "urn:1"); rn_add (root, a); rn_add (a, b); rn_add (root, cc); rn_set (cc, "p:k", "1"); d = load (root); E[0] = root; E[1] = a; E[2] = b; E[3] = cc; RN *el[4] = { root, a, b, cc };
		for (j = 0; j < depth; j++) { int op = mc_choose (mc_thorough || j < 3 ? 22 : 13); if (j == 1) mc_shard (); mc_trans (1);
			if (op < 12) { static const char *kk[] = { "xmlns", "xmlns:p" }; n = op % 3; k = op / 3 % 2; RN *m = el[n]; const char *key = kk[k]; RA *x = rn_attr (m, key);
				if (op < 6) { const char *v = x && !strcmp (x->v, "urn:1") ? "urn:12" : "urn:1"; mc_desc (" %s of %d = %s;", key, n, v); if (x) axl_node_remove_attribute (m->impl, key); axl_node_set_attribute (m->impl, key, v); rn_unset (m, key); rn_set (m, key, v); }
				else { if (!x) mc_skip (); mc_desc (" remove %s of %d;", key, n); axl_node_remove_attribute (m->impl, key); rn_unset (m, key); } }
			else switch (op - 12) {
			case 0: mc_desc (" validate;"); if (judge (d, root, 1)) lookups (d, root, 2); break;
			case 1: if (b->parent == cc) mc_skip (); mc_desc (" move 2 below 3;"); axl_node_deattach (b->impl); axl_node_set_child (cc->impl, b->impl); rn_unlink (b); rn_add (cc, b); break;
			case 2: mc_desc (" rename 2;"); b->name = !strcmp (b->name, "x") ? "p:xy" : "x"; axl_node_set_name (b->impl, b->name); break;
			case 3: { RN *nn = rn_elem ("p:x"); if (ne > 20) mc_skip (); mc_desc (" new child of 1;"); nn->impl = axl_node_create ("p:x"); axl_node_set_child (a->impl, nn->impl); rn_add (a, nn); break; }
			case 4: mc_desc (" replace 3;"); { RN *nn = rn_elem ("x"); if (b->parent == cc || !cc->parent) mc_skip (); nn->impl = axl_node_create ("x"); axl_node_replace (cc->impl, nn->impl, axl_true); rn_after (cc, nn); rn_unlink (cc); el[3] = cc = nn; nn->parent = root; } break;
			case 5: mc_desc (" attribute pp:k on 1;"); if (rn_attr (a, "pp:k")) mc_skip (); axl_node_set_attribute (a->impl, "pp:k", "1"); rn_set (a, "pp:k", "1"); break;
			case 6: mc_desc (" pp on 0;"); if (rn_attr (root, "xmlns:pp")) mc_skip (); axl_node_set_attribute (root->impl, "xmlns:pp", "urn:1"); rn_set (root, "xmlns:pp", "urn:1"); break;
			case 7: mc_desc (" compare;"); axl_ns_node_cmp (b->impl, "urn:1", "x"); axl_ns_node_cmp (cc->impl, "urn:1", "x"); axl_ns_doc_find_called (d, "urn:1", "x"); break;   /* answers not judged between edit and validation, but no harm */
			case 8: mc_desc (" 12 attributes on 1;"); if (rn_attr (a, "a0")) mc_skip (); for (i = 0; i < 12; i++) { axl_node_set_attribute (a->impl, ax_fmt ("a%d", i), "v"); rn_set (a, ax_fmt ("a%d", i), "v"); } break;
			case 9: mc_skip (); } }
		if (depth == 1) mc_shard (); mc_desc (" validate"); if (judge (d, root, 2)) lookups (d, root, 2); axl_doc_free (d); mc_state (rn_hash (root));
	} else if (part == 3) {          /* many attributes and declarations on an element; the needed one at every position, or missing */
		int n = (int[]) { 1, 2, 9, 10, 11, 12, 13, 30 } [mc_choose (8)], p = mc_choose (n), kind = mc_choose (4), where = mc_choose (2); mc_shard (); root = rn_elem (kind == 3 ? "x" : "p:x"); c = rn_elem (kind == 3 ? "x" : "p:x"); if (where) rn_add (root, c);
		for (i = 0; i < n; i++) { if (i == p && kind) rn_set (root, kind == 3 ? "xmlns" : "xmlns:p", "urn:1"); else rn_set (root, i % 3 == 0 ? ax_fmt ("xmlns:p%d", i) : i % 3 == 1 ? ax_fmt ("xmlnsx%d", i) : ax_fmt ("a%d", i), "urn:12"); if (i == p && kind == 2) rn_set (root, "p:k", "v"); }
		mc_desc ("%s", Q (rn_str (root))); d = load (root); if (judge (d, root, 2)) lookups (d, root, 3); axl_doc_free (d); mc_state (rn_hash (root));
	} else {                         /* deep chains: declaration at one depth, redeclaration at another, use everywhere below */
		int n = (int[]) { 3, 8, 20 } [mc_choose (3)], p = mc_choose (n), q = mc_choose (n), def = mc_choose (2); RN *cur = NULL; mc_shard (); root = NULL;
		for (i = 0; i < n; i++) { c = rn_elem (def ? "x" : i >= p ? "p:x" : "x"); if (cur) rn_add (cur, c); else root = c; cur = c; if (i == q) rn_set (c, def ? "xmlns" : "xmlns:p", "urn:12"); if (i == p) { if (rn_attr (c, def ? "xmlns" : "xmlns:p")) mc_skip (); rn_set (c, def ? "xmlns" : "xmlns:p", "urn:1"); } if (i % 3 == 1) { rn_add (c, rn_new (R_TEXT, NULL, "t")); rn_add (c, rn_elem ("x")); } }
		mc_desc ("%d levels, declared at %d, again at %d%s", n, p, q, def ? " (default)" : ""); d = load (root); if (judge (d, root, 2)) lookups (d, root, 2); axl_doc_free (d); mc_state (rn_hash (root));
	}
}
