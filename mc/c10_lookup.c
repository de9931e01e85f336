/* C10: lookups, navigation and iteration over all small trees; every visitor decision (go on, stop, remove, replace) at every step. */
#include "ax.h"
const char *mc_name = "c10_lookup";
void mc_init (void) { axl_init (); }

static const char *NM[] = { "a", "ab", "c" };      /* c: used by no small tree */
static RN *E[256]; static int ne;
static void coll (RN *n) { RN *c; E[ne++] = n; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) coll (c); }
/* every ordered tree of n further elements: after each one, any number of closes */
static RN *gen (int max, const char *rootname)
{
	RN *root = rn_elem (rootname), *cur = root, *e; int i, n = mc_choose (max + 1), d, dep = 0;
	for (i = 0; i < n; i++) { if (i) for (d = mc_choose (dep + 1); d; d--) { cur = cur->parent; dep--; } e = rn_elem (NM[mc_choose (2)]); rn_add (cur, e); cur = e; dep++; if (i == 1) mc_shard (); }
	if (n < 2) mc_shard ();
	return root;
}
static void decorate (RN *n, int mode, int *cnt)   /* text, comments, CDATA and instructions around the children */
{
	RN *c, *nx; int k = 0; if (!mode) return;
	for (c = n->first; c; c = nx) { nx = c->next; decorate (c, mode, cnt); RN *x = (mode + k++) % 4 == 0 ? rn_new (R_COMMENT, NULL, "c") : k % 3 == 1 ? rn_new (R_TEXT, NULL, ax_fmt ("t%d", (*cnt)++)) : k % 3 == 2 ? rn_new (R_PI, "a", "ab") : rn_new (R_CDATA, NULL, "d"); rn_after (c, x); }
	if (mode == 2 || !n->first) { RN *x = rn_new (R_TEXT, NULL, ax_fmt ("T%d", (*cnt)++)), *f = n->first; rn_add (n, x); if (f && mode == 2) { /* move to the front */ rn_unlink (x); x->next = f; f->prev = x; x->parent = n; n->first = x; } }
}
static void apibuild (RN *m, axlNode *n)
{
	RN *c; m->impl = n;
	for (c = m->first; c; c = c->next) switch (c->kind) {
		case R_ELEM: { axlNode *k = axl_node_create (c->name); axl_node_set_child (n, k); apibuild (c, k); break; }
		case R_TEXT: axl_node_set_content_ref (n, axl_strdup (c->text), -1); break; case R_CDATA: axl_item_set_child_ref (n, axl_item_new_ref (ITEM_CDATA, axl_strdup (c->text))); break;
		case R_COMMENT: axl_node_set_comment (n, c->text, -1); break; case R_PI: axl_node_add_pi_target (n, c->name, c->text); break; }
}
static axlDoc *make (RN *m, int parsed)
{
	axlDoc *d; if (parsed) { d = ax_parse_ok (rn_str (m), -1, "start"); ax_check (axl_doc_get_root (d), m, d, AXF_BIND, "parsed tree"); return d; }
	d = axl_doc_create (NULL, NULL, axl_false); { axlNode *r = axl_node_create (m->name); apibuild (m, r); axl_doc_set_root (d, r); } return d;
}
static RN *child_called (RN *n, const char *name) { RN *c; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) if (!strcmp (c->name, name)) return c; return NULL; }
static RN *find (RN *n, const char *name) { RN *c = child_called (n, name), *r; if (c) return c; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) if ((r = find (c, name))) return r; return NULL; }
static const char *who (RN *root, axlNode *n) { int i; if (!n) return "nothing"; for (i = 0; i < ne; i++) if (E[i]->impl == n) return ax_fmt ("<%s> (element %d)", E[i]->name, i); return "a foreign node"; }
#define SAME(n,m,...) do { axlNode *_n = (n); RN *_m = (m); mc_trans (1); if (_n != (_m ? _m->impl : NULL)) mc_fail ("%s returns %s, the tree says %s", ax_fmt (__VA_ARGS__), who (NULL, _n), who (NULL, _m ? _m->impl : NULL)); } while (0)
static void paths (axlDoc *d, const char *path, RN **set, int n)
{
	axlList *l = axl_doc_get_list (d, path); int i, sz = -7; const char *c; RN *t; mc_trans (3);
	if (!n) { MC_CHECK (l == NULL, "%s: a list of %d for a path nothing matches", path, axl_list_length (l)); SAME (axl_doc_get (d, path), NULL, "axl_doc_get %s", path); MC_CHECK (axl_doc_get_content_at (d, path, NULL) == NULL, "%s: content of nothing", path); return; }
	MC_CHECK (l, "axl_doc_get_list %s finds nothing, %d elements match", path, n); MC_CHECK (axl_list_length (l) == n, "axl_doc_get_list %s returns %d elements, %d match", path, axl_list_length (l), n);
	for (i = 0; i < n; i++) SAME (axl_list_get_nth (l, i), set[i], "axl_doc_get_list %s, position %d", path, i);
	axl_list_free (l); SAME (axl_doc_get (d, path), set[0], "axl_doc_get %s", path);
	c = axl_doc_get_content_at (d, path, &sz); for (t = set[0]->first; t && t->kind != R_TEXT && t->kind != R_CDATA; t = t->next);
	if (t) MC_CHECK (c && !strcmp (c, t->text) && sz == (int) strlen (t->text), "axl_doc_get_content_at %s: %s", path, Q (c)); else MC_CHECK (!c || !*c, "axl_doc_get_content_at %s: %s for an element without text", path, Q (c));
}
static int step (RN **in, int n, const char *name, RN **out) { int i, k = 0; RN *c; for (i = 0; i < n; i++) for (c = rn_first_elem (in[i]); c; c = rn_elem_next (c)) if (*name == '*' || !strcmp (c->name, name)) out[k++] = c; return k; }
static void walk (axlDoc *d, const char *path, RN **set, int n, int depth)
{
	RN *out[256]; int k, m; paths (d, path, set, n); if (!depth) return;
	for (k = 0; k < 4; k++) { const char *s = k == 3 ? "*" : NM[k]; m = step (set, n, s, out); if (k >= 2) paths (d, ax_fmt ("%s/%s", path, s), out, m); else walk (d, ax_fmt ("%s/%s", path, s), out, m, depth - 1); }
}
static void lookups (axlDoc *d, RN *root, int depth)
{
	int i, k, j; RN *none[1], *one[256], *c, *x; char *p; ne = 0; coll (root);
	for (i = 0; i < ne; i++) {
		RN *m = E[i]; axlNode *n = m->impl; axlList *l; char *w = ax_fmt ("of element %d", i);
		SAME (axl_node_get_parent (n), m->parent, "parent %s", w); SAME (axl_node_get_next (n), rn_elem_next (m), "next %s", w); SAME (axl_node_get_previous (n), rn_elem_prev (m), "previous %s", w);
		SAME (axl_node_get_first_child (n), rn_first_elem (m), "first child %s", w); SAME (axl_node_get_last_child (n), rn_last_elem (m), "last child %s", w);
		MC_CHECK (axl_node_get_child_num (n) == rn_nelems (m), "child number %s", w); MC_CHECK (!axl_node_have_childs (n) == !rn_nelems (m), "have children %s", w);
		for (k = -1, c = NULL; k <= rn_nelems (m); k++) { if (k == 0) c = rn_first_elem (m); else if (k > 0) c = rn_elem_next (c); SAME (axl_node_get_child_nth (n, k), c, "child %d %s", k, w); }
		l = axl_node_get_childs (n); MC_CHECK (axl_list_length (l) == rn_nelems (m), "list of children %s has %d", w, axl_list_length (l)); for (k = 0, c = rn_first_elem (m); c; c = rn_elem_next (c), k++) SAME (axl_list_get_nth (l, k), c, "list of children %s, %d", w, k); axl_list_free (l);
		for (j = 0; j < 3; j++) {
			SAME (axl_node_get_child_called (n, NM[j]), child_called (m, NM[j]), "child %s %s", NM[j], w); SAME (axl_node_find_called (n, NM[j]), find (m, NM[j]), "descendant %s %s", NM[j], w);
			for (x = rn_elem_next (m); x && strcmp (x->name, NM[j]); x = rn_elem_next (x)); SAME (axl_node_get_next_called (n, NM[j]), x, "next %s %s", NM[j], w);
			for (x = rn_elem_prev (m); x && strcmp (x->name, NM[j]); x = rn_elem_prev (x)); SAME (axl_node_get_previous_called (n, NM[j]), x, "previous %s %s", NM[j], w);
		}
		/* the path of every element */
		for (p = "", x = m; x->parent; x = x->parent) p = ax_fmt ("/%s%s", x->name, p);
		if (!strchr (p, '*')) { RN *a[256], *b[256]; int n1 = 1; char *q; a[0] = root; for (q = strtok (ax_dup (p), "/"); q; q = strtok (NULL, "/")) { n1 = step (a, n1, q, b); memcpy (a, b, sizeof a); } MC_CHECK (n1 > 0, "model"); paths (d, ax_fmt ("/%s%s", root->name, p), a, n1); if (*p) paths (d, ax_fmt ("/%s", p), a, n1); }
	}
	one[0] = root; paths (d, "/", one, 1);
	walk (d, ax_fmt ("/%s", root->name), one, 1, depth);
	for (k = 0; k < 4; k++) { int m; const char *s = k == 3 ? "*" : NM[k]; RN *out[256]; m = step (one, 1, s, out); paths (d, ax_fmt ("//%s", s), out, m); if (k < 2) for (j = 0; j < 4; j++) { RN *o2[256]; const char *s2 = j == 3 ? "*" : NM[j]; paths (d, ax_fmt ("//%s/%s", s, s2), o2, step (out, m, s2, o2)); } }
	paths (d, ax_fmt ("/%sx", root->name), none, 0); paths (d, ax_fmt ("/x%s/a", root->name), none, 0); { char *s = ax_dup (root->name); if (strlen (s) > 1) { s[strlen (s) - 1] = 0; paths (d, ax_fmt ("/%s", s), none, 0); } s = ax_dup (root->name); s[0] ^= 32; paths (d, ax_fmt ("/%s", s), none, 0); }
	for (j = 0; j < 3; j++) SAME (axl_doc_find_called (d, NM[j]), find (root, NM[j]), "axl_doc_find_called %s", NM[j]);
}

/* ------------------------------------------------ iteration */
static RN *order[256], *start; static int no, pos, acts, stopped, removed_start; static axlDoc *idoc; static int P1, P2; static SB trace;
static void pre (RN *n) { RN *c; order[no++] = n; for (c = rn_first_elem (n); c; c = rn_elem_next (c)) pre (c); }
static void bfs (RN *n) { int i = 0; RN *c; order[no++] = n; while (i < no) for (c = rn_first_elem (order[i++]); c; c = rn_elem_next (c)) order[no++] = c; }
static axl_bool visit (axlNode *n, axlNode *parent, axlDoc *d, axl_bool *was_removed, axlPointer p)
{
	RN *m; int k; mc_trans (1);
	MC_CHECK (p == &P1, "the user pointer is not handed over"); MC_CHECK (d == idoc, "a foreign document is handed over"); MC_CHECK (was_removed && !*was_removed, "the removal flag starts set"); MC_CHECK (!stopped, "the visitor is called after it asked to stop");
	MC_CHECK (!removed_start, "the iteration goes on below a removed starting point");
	while (pos < no && order[pos]->nd) { RN *c; for (c = rn_first_elem (order[pos]); c; c = rn_elem_next (c)) c->nd = 1; pos++; }
	MC_CHECK (pos < no, "visit of %s after the last element (%s)", who (NULL, n), sb_str (&trace)); m = order[pos++];
	MC_CHECK (n == m->impl, "visit %d is %s, expected %s (%s)", pos - 1, who (NULL, n), who (NULL, m->impl), sb_str (&trace));
	if (m != start) MC_CHECK (parent == m->parent->impl, "parent handed over for %s is %s", who (NULL, n), who (NULL, parent)); else if (!m->parent) MC_CHECK (!parent, "a parent for the root");
	k = mc_choose (m->parent ? acts : 2); sb_f (&trace, " %s:%s", m->name, k == 0 ? "go on" : k == 1 ? "stop" : k == 2 ? "remove" : k == 3 ? "replace" : "remove and stop"); mc_desc (" %s:%d", m->name, k);
	if (k == 1) { stopped = 1; return axl_false; }
	if (k == 2 || k == 4) { RN *c; axl_node_remove (n, axl_true); *was_removed = axl_true; for (c = rn_first_elem (m); c; c = rn_elem_next (c)) c->nd = 1; rn_unlink (m); if (m == start) removed_start = 1; if (k == 4) { stopped = 1; return axl_false; } }
	if (k == 3) { RN *c, *x = rn_elem ("new"); axlNode *nn = axl_node_create ("new"), *cc = axl_node_create ("a"); axl_node_set_child (nn, cc); x->impl = nn; rn_add (x, rn_elem ("a")); x->first->impl = cc; axl_node_replace (n, nn, axl_true); *was_removed = axl_true; for (c = rn_first_elem (m); c; c = rn_elem_next (c)) c->nd = 1; rn_after (m, x); rn_unlink (m); if (m == start) removed_start = 1; }
	return axl_true;
}
static axl_bool visit2 (axlNode *n, axlNode *parent, axlDoc *d, axl_bool *r, axlPointer p, axlPointer p2) { MC_CHECK (p2 == &P2, "the second user pointer is not handed over"); return visit (n, parent, d, r, p); }
static void iterate (axlDoc *d, RN *root, int mode, int api, RN *from)
{
	axl_bool r; int i; ne = 0; coll (root); no = pos = stopped = removed_start = 0; memset (&trace, 0, sizeof trace); start = from; idoc = d; for (i = 0; i < ne; i++) E[i]->nd = 0;
	if (mode) bfs (from); else pre (from);
	r = api == 0 ? axl_doc_iterate (d, mode ? WIDE_ITERATION : DEEP_ITERATION, visit, &P1) : api == 1 ? axl_doc_iterate_full (d, mode ? WIDE_ITERATION : DEEP_ITERATION, visit2, &P1, &P2) : axl_doc_iterate_full_from (d, from->impl, mode ? WIDE_ITERATION : DEEP_ITERATION, visit2, &P1, &P2);
	if (!stopped && !removed_start) { while (pos < no && order[pos]->nd) { RN *c; for (c = rn_first_elem (order[pos]); c; c = rn_elem_next (c)) c->nd = 1; pos++; } MC_CHECK (pos == no, "%s is never visited (%s)", who (NULL, order[pos]->impl), sb_str (&trace)); MC_CHECK (r, "a complete iteration returns false"); }
	if (stopped) MC_CHECK (!r, "a stopped iteration returns true");
	ax_check (root->impl, root, d, AXF_NODOC, "tree after the iteration"); mc_outcome (stopped ? "stopped" : removed_start ? "starting point removed" : "complete");
}
void mc_case (void)
{
	int part, deco, parsed, cnt = 0, i; RN *root; axlDoc *d; ax_reset (); part = mc_choose (3);
	if (part == 0) {                  /* every lookup on every small tree */
		root = gen (mc_thorough ? 7 : 5, mc_choose (2) ? "a" : "root"); deco = mc_choose (3); decorate (root, deco, &cnt); parsed = mc_choose (2); if (parsed && deco == 0 && !mc_thorough) mc_skip ();
		mc_desc ("%s (%s)", rn_str (root), parsed ? "parsed" : "built"); d = make (root, parsed); lookups (d, root, 3); axl_doc_free (d); mc_state (rn_hash (root)); mc_nontrivial ();
	} else if (part == 1) {           /* iteration: every decision of the visitor at every step */
		int mode = mc_choose (2), api = mc_choose (3); acts = mc_thorough ? 5 : 4; root = gen (mc_thorough ? (api == 0 ? 5 : 4) : (api == 0 ? 4 : 3), "root"); deco = mc_choose (2); if (deco) decorate (root, 2, &cnt); ne = 0; coll (root);
		i = api == 2 ? mc_choose (ne) : 0; mc_desc ("%s: %s%s from element %d:", rn_str (root), mode ? "wide" : "deep", api == 0 ? "" : api == 1 ? " full" : " full_from", i); d = make (root, deco); iterate (d, root, mode, api, E[i]); axl_doc_free (d); mc_state (rn_hash (root) + mode); mc_nontrivial ();
	} else {                          /* wide and deep documents, many equal names */
		int n = (int[]) { 9, 10, 11, 12, 25, 60 } [mc_choose (6)], shape = mc_choose (5), k = mc_choose (n), mode = mc_choose (2); RN *cur, *e; mc_shard (); root = cur = rn_elem ("root");
		for (i = 0; i < n; i++) { e = rn_elem (shape == 3 ? NM[i % 2] : i == k ? "ab" : "a"); if (shape == 4) e->name = ax_rep ('a', i == k ? i + 1 : 1 + i % 3); rn_add (cur, e); if (shape == 1) cur = e; if (shape == 2) { RN *x = rn_elem (i == k ? "a" : "ab"); rn_add (e, x); if (i % 2) { rn_add (e, rn_new (R_TEXT, NULL, "t")); cur = x; } } }
		mc_desc ("shape %d, %d elements, odd one at %d", shape, n, k); d = make (root, 1); if (!mode) lookups (d, root, 2); acts = 1; iterate (d, root, mode, 0, root); axl_doc_free (d); mc_state (rn_hash (root)); mc_nontrivial ();
	}
}
