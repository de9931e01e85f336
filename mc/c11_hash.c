/* C11: the hash table against a plain map with exact ownership accounting. */
#include "ax.h"
const char *mc_name = "c11_hash";
void mc_init (void) { axl_init (); }

/* ---- tracked objects: every key and value handed to the table ---- */
typedef struct { int kind; /* 1 key, 2 value */ int k; int id; int freed; int alt; } Obj;
#define MAXO 400
static Obj *objs[MAXO]; static int nobjs;
static const char *bad;                       /* first ownership violation */
static Obj *obj (int kind, int k) { Obj *o = ax_alloc (sizeof *o); memset (o, 0, sizeof *o); o->kind = kind; o->k = k; o->id = nobjs; if (nobjs >= MAXO) abort (); objs[nobjs++] = o; return o; }
static void rel (Obj *o, int kind, int alt) { if (!o) { bad = "destroy function called with NULL"; return; } if (o->kind != kind) bad = "wrong destroy function"; if (o->freed) bad = "released twice"; o->freed++; o->alt = alt; }
static void dk (axlPointer p) { rel (p, 1, 0); }
static void dv (axlPointer p) { rel (p, 2, 0); }
static void dk2 (axlPointer p) { rel (p, 1, 1); }
static void dv2 (axlPointer p) { rel (p, 2, 1); }
static int hmode;
static unsigned int H (axlPointer p) { Obj *o = p; static const unsigned big[] = { 0xfffffff0u, 0x80000001u, 7, 0xffffffffu, 0x7fffffffu, 3 }; switch (hmode) { case 0: return 5; case 1: return o->k & 1; case 2: return o->k; default: return big[o->k]; } }
static int E (axlPointer a, axlPointer b) { return ((Obj *) a)->k == ((Obj *) b)->k ? 0 : 1; }
static axlPointer ck (axlPointer key, axlDestroyFunc kd, axlPointer v, axlDestroyFunc vd) { return obj (1, ((Obj *) key)->k); }
static Obj *cpv[MAXO];                        /* copy of value id -> new object */
static axlPointer cv (axlPointer key, axlDestroyFunc kd, axlPointer v, axlDestroyFunc vd) { Obj *o; if (!v) return NULL; o = obj (2, ((Obj *) v)->k); cpv[((Obj *) v)->id] = o; return o; }

#define NK 6
typedef struct { int in; Obj *key, *val; int own; } Ent;
typedef struct { Ent e[NK]; } Map;
static int msize (Map *m) { int i, c = 0; for (i = 0; i < NK; i++) c += m->e[i].in; return c; }
typedef struct { Obj *k[64]; Obj *v[64]; int n, stop; void *chk[4]; int badptr; } Vis;
static axl_bool f1 (axlPointer k, axlPointer d, axlPointer u) { Vis *v = u; if (v->n < 64) { v->k[v->n] = k; v->v[v->n] = d; } v->n++; return v->n == v->stop; }
static axl_bool f2 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2) { Vis *v = u; if (u2 != v->chk[1]) v->badptr = 1; return f1 (k, d, u); }
static axl_bool f3 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3) { Vis *v = u; if (u3 != v->chk[2]) v->badptr = 1; return f2 (k, d, u, u2); }
static axl_bool f4 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3, axlPointer u4) { Vis *v = u; if (u4 != v->chk[3]) v->badptr = 1; return f3 (k, d, u, u2, u3); }
static void vis_check (Map *m, Vis *v, const char *w)
{
	int i, seen[NK] = {0};
	MC_CHECK (!v->badptr, "%s: user pointers not passed through", w);
	MC_CHECK (v->n == msize (m), "%s: %d items visited, %d stored", w, v->n, msize (m));
	for (i = 0; i < v->n; i++) { int k = v->k[i]->k; MC_CHECK (!seen[k], "%s: key %d visited twice", w, k); seen[k] = 1; MC_CHECK (m->e[k].in && m->e[k].key == v->k[i] && m->e[k].val == v->v[i], "%s: wrong pair for key %d", w, k); }
}
static void check (axlHash *h, Map *m, int full)
{
	int i; Vis v; axlHashCursor *c; Obj probe;
	MC_CHECK (!bad, "%s", bad);
	for (i = 0; i < nobjs; i++) ;
	MC_CHECK (axl_hash_items (h) == msize (m), "items %d, expected %d", axl_hash_items (h), msize (m));
	for (i = 0; i < NK; i++) { probe.k = i; probe.kind = 1;
		MC_CHECK (axl_hash_exists (h, &probe) == m->e[i].in, "exists (%d) is %d", i, !m->e[i].in);
		MC_CHECK (axl_hash_get (h, &probe) == (m->e[i].in ? m->e[i].val : NULL), "get (%d) wrong", i);
		if (m->e[i].in) MC_CHECK (!m->e[i].key->freed && (!m->e[i].val || !m->e[i].val->freed), "key or value of %d released while stored", i); }
	memset (&v, 0, sizeof v); axl_hash_foreach (h, f1, &v); vis_check (m, &v, "foreach");
	mc_state (mc_hash (v.k, 0, ({ uint64_t x = hmode * 7919 + axl_hash_capacity (h); for (i = 0; i < v.n; i++) x = x * 31 + v.k[i]->k + 1; x; })));
	if (!full) return;
	{ Vis r; int s; void *U2 = &r, *U3 = &s, *U4 = m;
	  memset (&r, 0, sizeof r); r.chk[1] = U2; axl_hash_foreach2 (h, f2, &r, U2); vis_check (m, &r, "foreach2");
	  memset (&r, 0, sizeof r); r.chk[1] = U2; r.chk[2] = U3; axl_hash_foreach3 (h, f3, &r, U2, U3); vis_check (m, &r, "foreach3");
	  memset (&r, 0, sizeof r); r.chk[1] = U2; r.chk[2] = U3; r.chk[3] = U4; axl_hash_foreach4 (h, f4, &r, U2, U3, U4); vis_check (m, &r, "foreach4");
	  for (s = 1; s <= v.n; s++) { memset (&r, 0, sizeof r); r.stop = s; axl_hash_foreach (h, f1, &r); MC_CHECK (r.n == s, "foreach visited %d items after being stopped at %d", r.n, s); } }
	c = axl_hash_cursor_new (h); MC_CHECK (axl_hash_cursor_hash (c) == h, "cursor hash");
	for (int rep = 0; rep < 2; rep++) { Vis r; memset (&r, 0, sizeof r);
		if (rep) axl_hash_cursor_first (c);
		while (axl_hash_cursor_has_item (c)) { int more = axl_hash_cursor_has_next (c);
			f1 (axl_hash_cursor_get_key (c), axl_hash_cursor_get_value (c), &r); MC_CHECK (r.n <= v.n, "cursor visits more items than stored");
			MC_CHECK (more == (r.n < v.n), "cursor has_next wrong at item %d of %d", r.n, v.n); axl_hash_cursor_next (c); }
		MC_CHECK (!axl_hash_cursor_get_key (c) && !axl_hash_cursor_get_value (c), "cursor past the end returns data");
		MC_CHECK (!axl_hash_cursor_has_next (c), "has_next past the end");
		vis_check (m, &r, "cursor"); if (v.n) { axl_hash_cursor_last (c); MC_CHECK (axl_hash_cursor_has_item (c) && !axl_hash_cursor_has_next (c), "cursor_last is not at an item or has items after it"); MC_CHECK (axl_hash_cursor_get_key (c) == r.k[v.n - 1], "cursor_last is not the last item"); }
		else { axl_hash_cursor_last (c); MC_CHECK (!axl_hash_cursor_has_item (c), "cursor_last of an empty table"); }
	}
	axl_hash_cursor_free (c);
}
static void final (Map *m)           /* after the table was freed: everything owned released once, nothing else */
{
	int i; MC_CHECK (!bad, "%s", bad);
	for (i = 0; i < NK; i++) if (m->e[i].in && m->e[i].own) { MC_CHECK (m->e[i].key->freed == 1, "key %d not released with the table", i); if (m->e[i].val) MC_CHECK (m->e[i].val->freed == 1, "value %d not released with the table", i); }
	else if (m->e[i].in) MC_CHECK (!m->e[i].key->freed && (!m->e[i].val || !m->e[i].val->freed), "not owned data released");
}
static void dropped (Ent *e, int released, const char *w)
{
	if (e->own && released) { MC_CHECK (e->key->freed == 1, "%s: key not released", w); if (e->val) MC_CHECK (e->val->freed == 1, "%s: value not released", w); }
	else { MC_CHECK (!e->key->freed, "%s: key released", w); if (e->val) MC_CHECK (!e->val->freed, "%s: value released", w); }
}
static axlHash *op (axlHash *h, Map *m, int which, int k, SB *d)
{
	Obj probe; probe.kind = 1; probe.k = k; Ent *e = &m->e[k], old = *e; mc_trans (1);
	switch (which) {
	case 0: case 1: case 2: { /* insert: owned, not owned, NULL value */
		Obj *kk = obj (1, k), *vv = which == 2 ? NULL : obj (2, k);
		sb_f (d, " ins%s%d", which == 1 ? "-" : which == 2 ? "N" : "", k);
		if (which == 0) axl_hash_insert_full (h, kk, dk, vv, dv); else if (which == 2) axl_hash_insert_full (h, kk, dk, NULL, NULL); else axl_hash_insert (h, kk, vv);
		e->in = 1; e->key = kk; e->val = vv; e->own = which != 1; if (old.in) dropped (&old, 1, "replaced"); break; }
	case 3: sb_f (d, " rem%d", k); MC_CHECK (axl_hash_remove (h, &probe) == old.in, "remove returned %d", !old.in); e->in = 0; if (old.in) dropped (&old, 1, "remove"); break;
	case 4: sb_f (d, " del%d", k); MC_CHECK (axl_hash_delete (h, &probe) == old.in, "delete returned %d", !old.in); e->in = 0; if (old.in) dropped (&old, 0, "delete"); break;
	case 5: { axlPointer a = &probe, b = &probe; axlDestroyFunc fa = dk2, fb = dk2; sb_f (d, " def%d", k);
		MC_CHECK (axl_hash_remove_deferred (h, &probe, &a, &fa, &b, &fb) == old.in, "remove_deferred returned %d", !old.in); e->in = 0;
		if (!old.in) MC_CHECK (!a && !b && !fa && !fb, "remove_deferred of an absent key hands something over");
		else { dropped (&old, 0, "deferred"); MC_CHECK (a == old.key && b == old.val, "remove_deferred hands over the wrong data"); MC_CHECK (fa == (old.own ? dk : NULL) && fb == (old.own && old.val ? dv : NULL), "remove_deferred hands over wrong destroy functions");
			axl_hash_deferred_cleanup (a, fa, b, fb); dropped (&old, 1, "deferred cleanup"); } break; }
	case 6: { /* cursor walk removing the items selected by k's bits (by visiting order) */
		axlHashCursor *c = axl_hash_cursor_new (h); int i = 0, n = msize (m), seen[NK] = {0}; static const int pat[] = { 1, 2, 5, 7, 6, 63 }; sb_f (d, " walk-remove%d", pat[k]);
		while (axl_hash_cursor_has_item (c)) { Obj *kk = axl_hash_cursor_get_key (c); int q = kk->k; MC_CHECK (i < n, "cursor visits more than %d items while removing", n); MC_CHECK (m->e[q].in && m->e[q].key == kk, "cursor shows a removed item"); MC_CHECK (!seen[q], "cursor visits key %d twice", q); seen[q] = 1;
			MC_CHECK (axl_hash_cursor_get_value (c) == m->e[q].val, "cursor value");
			MC_CHECK (axl_hash_cursor_has_next (c) == (i < n - 1), "has_next %d while removing, item %d of %d", i >= n - 1, i, n);
			if (pat[k] >> (i % 6) & 1) { Ent o = m->e[q]; axl_hash_cursor_remove (c); m->e[q].in = 0; dropped (&o, 1, "cursor_remove"); } else axl_hash_cursor_next (c);
			i++; }
		MC_CHECK (i == n, "cursor visited %d of %d items while removing", i, n); axl_hash_cursor_remove (c); axl_hash_cursor_free (c); break; }
	case 7: { /* copy; continue with the copy (k odd) or with the original */
		axlHash *c; Map cm = *m; int i, full = k >= 2; Ent *x; sb_f (d, " copy%d", k); memset (cpv, 0, sizeof cpv);
		c = full ? axl_hash_copy_full (h, ck, cv, dk2, dv2) : axl_hash_copy (h, ck, cv); MC_CHECK (c, "copy returned NULL");
		{ Vis v; memset (&v, 0, sizeof v); axl_hash_foreach (c, f1, &v); MC_CHECK (v.n == msize (m), "copy has %d items, original %d", v.n, msize (m));
		  for (i = 0; i < v.n; i++) { int q = v.k[i]->k; x = &cm.e[q]; MC_CHECK (x->in && m->e[q].key != v.k[i], "copy shares or invents key %d", q); x->key = v.k[i]; MC_CHECK ((m->e[q].val ? cpv[m->e[q].val->id] : NULL) == v.v[i], "copy holds the wrong value"); x->val = v.v[i]; if (full) x->own = 1; } }
		check (c, &cm, 0); check (h, m, 0);
		if (k & 1) { axl_hash_free (h); final (m); *m = cm; h = c;
			if (full) for (i = 0; i < NK; i++) if (m->e[i].in && m->e[i].own) ; 
			if (full) { /* forced destroy functions: verify at once by freeing */ axl_hash_free (h); final (m); for (i = 0; i < NK; i++) if (m->e[i].in) MC_CHECK (m->e[i].key->alt == 1 && (!m->e[i].val || m->e[i].val->alt == 1), "copy_full did not use the given destroy functions"); memset (m, 0, sizeof *m); h = axl_hash_new_full (H, E, 2); } }
		else { axl_hash_free (c); final (&cm); }
		break; }
	}
	return h;
}
static void sequences (void)
{
	Map m; SB d = {0}; int i, depth, nk, w, k, step; axlHash *h;
	memset (&m, 0, sizeof m); nobjs = 0; bad = NULL;
	hmode = mc_choose (4); step = 1 + mc_choose (4); if (step == 4) step = 10;
	nk = 4; depth = (mc_thorough ? 5 : 4) + ((hmode == 0 || hmode == 2) && step <= 2); sb_f (&d, "hash=%d step=%d", hmode, step);
	h = axl_hash_new_full (H, E, step); MC_CHECK (h, "no hash");
	for (i = 0; i < depth; i++) {
		int o = mc_choose (19);                       /* 0: stop; ins x4, insN, ins-, rem x4, del x2, def x2, walk x2, copy x2 */
		if (i == 2) mc_shard ();
		if (o == 0) break;
		if (o <= 4) { w = 0; k = o - 1; } else if (o == 5) { w = 2; k = 1; } else if (o == 6) { w = 1; k = 2; } else if (o <= 10) { w = 3; k = o - 7; } else if (o == 11) { w = 4; k = 0; } else if (o == 12) { w = 4; k = 2; }
		else if (o == 13) { w = 5; k = 0; } else if (o == 14) { w = 5; k = 1; } else if (o == 15) { w = 6; k = 0; } else if (o == 16) { w = 6; k = 1; } else if (o == 17) { w = 7; k = 0; } else { w = 7; k = 1; }
		h = op (h, &m, w, k, &d); mc_desc ("%s", sb_str (&d)); check (h, &m, 0);
	}
	if (i < 3) mc_shard ();
	mc_desc ("%s", sb_str (&d)); check (h, &m, 1); mc_nontrivial ();
	axl_hash_free (h); final (&m); MC_CHECK (!bad, "%s", bad);
}
/* all build orders of up to 6 keys, then every walk pattern / copy mode / deletion of each key */
static void shapes (void)
{
	Map m; SB d = {0}; int n, i, used = 0, step; axlHash *h;
	memset (&m, 0, sizeof m); nobjs = 0; bad = NULL;
	hmode = mc_choose (4); step = 1 + mc_choose (7); if (step == 7) step = 10; n = mc_choose (7); sb_f (&d, "hash=%d step=%d", hmode, step);
	mc_shard ();
	h = axl_hash_new_full (H, E, step);
	for (i = 0; i < n; i++) { int k = mc_choose (NK); if (used >> k & 1) mc_skip (); used |= 1 << k; h = op (h, &m, (k == 3 && n > 3) ? 1 : 0, k, &d); }
	mc_desc ("%s", sb_str (&d)); check (h, &m, 1);
	switch (mc_choose (3)) {
	case 0: h = op (h, &m, 6, mc_choose (6), &d); break;
	case 1: h = op (h, &m, 7, mc_choose (4), &d); break;
	case 2: h = op (h, &m, 3 + mc_choose (3), mc_choose (NK), &d); break;
	}
	mc_desc ("%s", sb_str (&d)); check (h, &m, 1);
	h = op (h, &m, 0, mc_choose (2) * 5, &d); mc_desc ("%s", sb_str (&d)); check (h, &m, 1); mc_nontrivial ();
	axl_hash_free (h); final (&m);
}
/* library key functions on real keys, tables grown far beyond the step */
static void large (void)
{
	int mode = mc_choose (3), n = mc_choose (mc_thorough ? 120 : 64), rm = mc_choose (6), i, left = 0; axlHash *h; char *keys[130]; mc_shard ();
	mc_desc ("large mode=%d n=%d remove=%d", mode, n, rm);
	h = mode == 0 ? axl_hash_new (axl_hash_int, axl_hash_equal_int) : axl_hash_new_full (axl_hash_string, axl_hash_equal_string, mode == 1 ? 10 : 1);
#define KEY(i) (mode == 0 ? INT_TO_PTR ((i) % 2 ? -(i) : (i) * 37) : (axlPointer) keys[i])
	for (i = 0; i < n; i++) keys[i] = i % 3 == 0 ? ax_fmt ("k%d", i) : i % 3 == 1 ? ax_fmt ("a-much-longer-key-number-%d-\xc3\xa9", i) : ax_fmt ("%c", 40 + i);
	for (i = 0; i < n; i++) { axl_hash_insert (h, KEY (i), INT_TO_PTR (i + 1)); MC_CHECK (axl_hash_items (h) == i + 1, "items %d after %d insertions", axl_hash_items (h), i + 1); }
	for (i = 0; i < n; i++) if (rm && i % rm == 0) MC_CHECK (axl_hash_remove (h, KEY (i)), "remove %d", i);
	for (i = 0; i < n; i++) { int in = !(rm && i % rm == 0); left += in; MC_CHECK (axl_hash_exists (h, KEY (i)) == in && axl_hash_get (h, KEY (i)) == INT_TO_PTR (in ? i + 1 : 0), "key %d", i); }
	MC_CHECK (axl_hash_items (h) == left, "items");
	{ axlHashCursor *c = axl_hash_cursor_new (h); int cnt = 0; char seen[200] = {0}; while (axl_hash_cursor_has_item (c)) { int v = PTR_TO_INT (axl_hash_cursor_get_value (c)); MC_CHECK (v > 0 && v <= n && !seen[v], "cursor"); seen[v] = 1; MC_CHECK (axl_hash_cursor_get_key (c) == KEY (v - 1), "cursor key"); cnt++; axl_hash_cursor_next (c); } MC_CHECK (cnt == left, "cursor visited %d of %d", cnt, left); axl_hash_cursor_free (c); }
	for (i = 0; i < n; i++) { axl_hash_insert (h, KEY (i), INT_TO_PTR (i + 1001)); } MC_CHECK (axl_hash_items (h) == n, "items after reinsertion");
	for (i = 0; i < n; i++) MC_CHECK (axl_hash_get (h, KEY (i)) == INT_TO_PTR (i + 1001), "value %d after reinsertion", i);
	mc_trans (4 * n); mc_nontrivial (); mc_state (mc_hash (&n, sizeof n, mode * 100 + rm)); axl_hash_free (h);
}
static void keyfuncs (void)
{
	char a[4], b[4]; int la = mc_choose (4), lb = mc_choose (4), i; static const char al[] = "ab\xff"; mc_shard ();
	for (i = 0; i < la; i++) a[i] = al[mc_choose (3)]; a[la] = 0; for (i = 0; i < lb; i++) b[i] = al[mc_choose (3)]; b[lb] = 0;
	mc_desc ("keys %s %s", Q (a), Q (b)); mc_trans (2); mc_nontrivial ();
	MC_CHECK ((axl_hash_equal_string (a, b) == 0) == (strcmp (a, b) == 0), "equal_string"); if (!strcmp (a, b)) MC_CHECK (axl_hash_string (a) == axl_hash_string (b), "hash of equal strings differs");
	MC_CHECK (axl_hash_equal_string (NULL, b) != 0 && axl_hash_equal_string (a, NULL) != 0 && axl_hash_equal_string (NULL, NULL) == 0, "NULL keys");
	MC_CHECK ((axl_hash_equal_int (INT_TO_PTR (la - 2), INT_TO_PTR (lb - 2)) == 0) == (la == lb), "equal_int");
}
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (4)) { case 0: sequences (); break; case 1: shapes (); break; case 2: large (); break; case 3: keyfuncs (); break; }
}
