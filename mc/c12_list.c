/* C12: the list against a plain sequence with exact ownership accounting. */
#include "ax.h"
const char *mc_name = "c12_list";
void mc_init (void) { axl_init (); }

typedef struct { int k, id, freed, alt; char str[8]; } Obj;
#define MAXO 400
static Obj *objs[MAXO]; static int nobjs; static const char *bad;
static Obj *obj (int k) { Obj *o = ax_alloc (sizeof *o); memset (o, 0, sizeof *o); o->k = k; o->id = nobjs; if (nobjs >= MAXO) abort (); objs[nobjs++] = o; return o; }
static void rel (axlPointer p, int alt) { Obj *o = p; if (!o) { bad = "destroy called with NULL"; return; } if (o->freed) bad = "released twice"; o->freed++; o->alt = alt; }
static void d1 (axlPointer p) { rel (p, 0); }
static void d2 (axlPointer p) { rel (p, 1); }
static int eqmode;   /* 0: ordered ascending, 1: 0/1 (append), 2: 0/-1 (prepend), 3: always 1, 4: ordered descending */
static int cmpk (int a, int b) { switch (eqmode) { case 0: return a == b ? 0 : a < b ? 1 : -1; case 1: return a == b ? 0 : 1; case 2: return a == b ? 0 : -1; case 3: return 1; default: return a == b ? 0 : a < b ? -1 : 1; } }
static int EQ (axlPointer a, axlPointer b) { return cmpk (((Obj *) a)->k, ((Obj *) b)->k); }
static axlPointer dupo (axlPointer p) { return obj (((Obj *) p)->k); }

#define ML 96
typedef struct { Obj *o[ML]; int n, sorted, own; } Seq;
static void ins (Seq *s, int at, Obj *o) { int i; for (i = s->n; i > at; i--) s->o[i] = s->o[i - 1]; s->o[at] = o; s->n++; }
static Obj *del (Seq *s, int at) { Obj *o = s->o[at]; s->n--; for (; at < s->n; at++) s->o[at] = s->o[at + 1]; return o; }
static int findk (Seq *s, int k) { int i; for (i = 0; i < s->n; i++) if (cmpk (s->o[i]->k, k) == 0) return i; return -1; }
static void gone (Seq *s, Obj *o, int removed, const char *w)
{
	MC_CHECK (!bad, "%s: %s", w, bad);
	if (removed && s->own) MC_CHECK (o->freed == 1, "%s: the element was not released", w); else MC_CHECK (!o->freed, "%s: the element was released", w);
}
typedef struct { Obj *seen[ML]; int n, k; } Lk;
static axl_bool lk (axlPointer e, axlPointer d) { Lk *l = d; Obj *o = e; if (l->n < ML) l->seen[l->n] = o; l->n++; return o->k == l->k; }

static void check (axlList *l, Seq *s, int full)
{
	int i; Obj probe; uint64_t h = eqmode; memset (&probe, 0, sizeof probe);
	MC_CHECK (!bad, "%s", bad);
	MC_CHECK (axl_list_length (l) == s->n, "length %d, expected %d", axl_list_length (l), s->n);
	MC_CHECK (axl_list_is_empty (l) == (s->n == 0), "is_empty wrong");
	MC_CHECK (axl_list_get_first (l) == (s->n ? s->o[0] : NULL), "first wrong");
	MC_CHECK (axl_list_get_last (l) == (s->n ? s->o[s->n - 1] : NULL), "last wrong");
	for (i = 0; i < s->n; i++) { Obj *o = axl_list_get_nth (l, i); MC_CHECK (o == s->o[i], "item %d of %d is %d, expected %d", i, s->n, o ? o->k : -1, s->o[i]->k); MC_CHECK (!o->freed, "stored item released"); h = h * 31 + o->k + 1; }
	MC_CHECK (!axl_list_get_nth (l, s->n) && !axl_list_get_nth (l, -1) && !axl_list_get_nth (l, s->n + 1), "nth outside the list returns data");
	mc_state (h);
	for (i = 0; i < 4; i++) { probe.k = i; MC_CHECK (axl_list_exists (l, &probe) == (findk (s, i) >= 0), "exists (%d) is %d", i, findk (s, i) < 0); }
	if (!full) return;
	for (i = 0; i < 4; i++) { Lk q; int j, f = -1; for (j = 0; j < s->n; j++) if (s->o[j]->k == i) { f = j; break; }
		memset (&q, 0, sizeof q); q.k = i; MC_CHECK (axl_list_lookup (l, lk, &q) == (f >= 0 ? s->o[f] : NULL), "lookup (%d) wrong", i);
		MC_CHECK (q.n == (f >= 0 ? f + 1 : s->n), "lookup examined %d items", q.n); for (j = 0; j < q.n; j++) MC_CHECK (q.seen[j] == s->o[j], "lookup order");
		probe.k = i; for (j = -1; j <= s->n; j++) MC_CHECK (axl_list_exists_at (l, &probe, j) == (j >= 0 && j < s->n && cmpk (s->o[j]->k, i) == 0), "exists_at (%d, %d)", i, j); }
	{ axlListCursor *c = axl_list_cursor_new (l); int p, q; MC_CHECK (axl_list_cursor_list (c) == l, "cursor list");
	  for (q = 0; q < 2; q++) { if (q) axl_list_cursor_first (c);
		for (p = 0; p < s->n; p++) { MC_CHECK (axl_list_cursor_has_item (c) && axl_list_cursor_get (c) == s->o[p], "cursor item %d", p); MC_CHECK (axl_list_cursor_has_next (c) == (p < s->n - 1), "has_next at %d of %d", p, s->n); MC_CHECK (axl_list_cursor_has_previous (c) == (p > 0), "has_previous at %d", p); axl_list_cursor_next (c); }
		MC_CHECK (!axl_list_cursor_has_item (c) && !axl_list_cursor_get (c) && !axl_list_cursor_has_next (c) && !axl_list_cursor_has_previous (c), "cursor past the end has data"); axl_list_cursor_next (c); axl_list_cursor_previous (c); }
	  axl_list_cursor_last (c);
	  for (p = s->n - 1; p >= 0; p--) { MC_CHECK (axl_list_cursor_has_item (c) && axl_list_cursor_get (c) == s->o[p], "cursor backwards item %d", p); MC_CHECK (axl_list_cursor_has_next (c) == (p < s->n - 1) && axl_list_cursor_has_previous (c) == (p > 0), "cursor backwards has_next/has_previous at %d", p);
		if (p > 0 && p < s->n - 1) { axl_list_cursor_next (c); MC_CHECK (axl_list_cursor_get (c) == s->o[p + 1], "cursor turn"); axl_list_cursor_previous (c); }
		axl_list_cursor_previous (c); }
	  MC_CHECK (!axl_list_cursor_has_item (c) && !axl_list_cursor_get (c), "cursor before the start has data");
	  axl_list_cursor_free (c); }
}
static axlList *op (axlList *l, Seq *s, int w, int k, int at, SB *d)
{
	Obj probe, *o; int i, f; memset (&probe, 0, sizeof probe); probe.k = k; mc_trans (1);
	switch (w) {
	case 0: o = obj (k); sb_f (d, " add%d", k); axl_list_add (l, o);
		if (eqmode == 3) { ins (s, s->n, o); break; }                   /* always at the end */
		f = findk (s, k);
		if ((eqmode == 0 || eqmode == 4) && s->sorted) { if (f < 0) { for (i = 0; i < s->n && cmpk (s->o[i]->k, k) == 1; i++) ; ins (s, i, o); } }
		else if (f < 0 && (eqmode == 1)) ins (s, s->n, o);              /* equal/append functions */
		else if (f < 0 && (eqmode == 2)) ins (s, 0, o);
		else { /* order not defined by the documentation: the other elements stay in place, the new one is stored once at most (exactly once if absent) */
			int n = axl_list_length (l); if (n == s->n && f >= 0) break;
			MC_CHECK (n == s->n + 1, "add changed the length to %d from %d", n, s->n); for (i = 0; i < n && axl_list_get_nth (l, i) != o; i++) ; MC_CHECK (i < n, "added element not found"); ins (s, i, o); }
		break;
	case 1: o = obj (k); sb_f (d, " append%d", k); axl_list_append (l, o); ins (s, s->n, o); s->sorted = 0; break;
	case 2: o = obj (k); sb_f (d, " prepend%d", k); axl_list_prepend (l, o); ins (s, 0, o); s->sorted = 0; break;
	case 3: o = obj (k); sb_f (d, " add_at(%d,%d)", k, at); axl_list_add_at (l, o, at); ins (s, at <= 0 ? 0 : at >= s->n ? s->n : at, o); s->sorted = 0; break;
	case 4: case 5: sb_f (d, w == 4 ? " remove%d" : " unlink%d", k); if (w == 4) axl_list_remove (l, &probe); else axl_list_unlink (l, &probe); f = findk (s, k); if (f >= 0) gone (s, del (s, f), w == 4, "by value"); break;
	case 6: case 7: sb_f (d, w == 6 ? " remove_ptr@%d" : " unlink_ptr@%d", at); o = at < s->n ? s->o[at] : &probe; if (w == 6) axl_list_remove_ptr (l, o); else axl_list_unlink_ptr (l, o); if (at < s->n) gone (s, del (s, at), w == 6, "by pointer"); break;
	case 8: case 9: sb_f (d, w == 8 ? " remove_at%d" : " unlink_at%d", at); if (w == 8) axl_list_remove_at (l, at); else axl_list_unlink_at (l, at); if (at >= 0 && at < s->n) gone (s, del (s, at), w == 8, "by position"); break;
	case 10: sb_add (d, " remove_first"); axl_list_remove_first (l); if (s->n) gone (s, del (s, 0), 1, "first"); break;
	case 11: sb_add (d, " unlink_first"); axl_list_unlink_first (l); if (s->n) gone (s, del (s, 0), 0, "first"); break;
	case 12: sb_add (d, " remove_last"); axl_list_remove_last (l); if (s->n) gone (s, del (s, s->n - 1), 1, "last"); break;
	case 13: sb_add (d, " unlink_last"); axl_list_unlink_last (l); if (s->n) gone (s, del (s, s->n - 1), 0, "last"); break;
	case 14: { /* walk with a cursor, removing/unlinking according to the pattern k; at odd: backwards */
		axlListCursor *c = axl_list_cursor_new (l); int p = 0, step = 0, back = at & 1, guard = 0; sb_f (d, " walk%s(%d)", back ? "-back" : "", k); if (back) { axl_list_cursor_last (c); p = s->n - 1; }
		while (guard++ < 40) { int has = p >= 0 && p < s->n;
			MC_CHECK (axl_list_cursor_has_item (c) == has, "cursor has_item %d at %d of %d", !has, p, s->n); if (!has) break;
			MC_CHECK (axl_list_cursor_get (c) == s->o[p], "cursor at %d shows another item", p);
			MC_CHECK (axl_list_cursor_has_next (c) == (p < s->n - 1) && axl_list_cursor_has_previous (c) == (p > 0), "cursor has_next/previous at %d of %d while removing", p, s->n);
			if (k >> (step++ % 6) & 1) { int rem = step & 1; o = del (s, p); if (rem) axl_list_cursor_remove (c); else axl_list_cursor_unlink (c); gone (s, o, rem, "cursor"); if (p == s->n) p--; /* next, or the previous if it was the last */ if (p < 0) p = 0; }
			else { if (back) { axl_list_cursor_previous (c); p--; } else { axl_list_cursor_next (c); p++; } } }
		axl_list_cursor_free (c); break; }
	case 15: { /* copy: k=0 shallow, 1 deep, continue with the original; 2 deep, continue with the copy */
		Seq cs = *s; axlList *c = axl_list_copy (l, k ? dupo : NULL); sb_f (d, " copy%d", k); MC_CHECK (c && axl_list_length (c) == s->n, "copy has %d items, the list %d", axl_list_length (c), s->n);
		if (k) for (i = 0; i < s->n; i++) { o = axl_list_get_nth (c, i); MC_CHECK (o && o != s->o[i] && o->k == s->o[i]->k, "copied item %d wrong", i); cs.o[i] = o; }
		else cs.own = 0;
		check (c, &cs, 1); check (l, s, 0);
		if (k == 2) { axl_list_free (l); for (i = 0; i < s->n; i++) gone (s, s->o[i], 1, "list_free"); *s = cs; l = c; }
		else { axl_list_free (c); for (i = 0; i < cs.n; i++) gone (&cs, cs.o[i], 1, "free of the copy"); }
		break; }
	}
	return l;
}
static void finish (axlList *l, Seq *s)
{
	int i; check (l, s, 1); axl_list_free (l); for (i = 0; i < s->n; i++) gone (s, s->o[i], 1, "list_free"); MC_CHECK (!bad, "%s", bad); mc_nontrivial ();
}
static axlList *start (Seq *s, SB *d, int nown)
{
	axlList *l; memset (s, 0, sizeof *s); nobjs = 0; bad = NULL; s->sorted = 1; eqmode = mc_choose (5); s->own = nown == 1 ? 1 : mc_choose (3);
	sb_f (d, "eq=%d %s", eqmode, s->own == 2 ? "destroy changed" : s->own ? "owned" : "not owned"); l = axl_list_new (EQ, s->own ? d1 : NULL); MC_CHECK (l, "no list");
	if (s->own == 2) { axl_list_set_destroy_func (l, d2); s->own = 1; }
	return l;
}
static axlList *randop (axlList *l, Seq *s, int o, SB *d)
{
	int n = s->n;
	switch (o) {
	case 1: case 2: case 3: case 4: return op (l, s, 0, o - 1, 0, d);
	case 5: case 6: return op (l, s, 1, o == 5 ? 0 : 2, 0, d);
	case 7: return op (l, s, 2, 1, 0, d);
	case 8: case 9: case 10: case 11: return op (l, s, 3, o & 3, o == 8 ? -1 : o == 9 ? 1 : o == 10 ? n - 1 : n + 1, d);
	case 12: case 13: case 14: return op (l, s, 4, o - 12, 0, d);
	case 15: return op (l, s, 5, 1, 0, d);
	case 16: case 17: return op (l, s, 6, 3, o == 16 ? 0 : n / 2, d);
	case 18: return op (l, s, 7, 3, n ? n - 1 : 0, d);
	case 19: case 20: return op (l, s, 8, 0, o == 19 ? 1 : n, d);
	case 21: return op (l, s, 9, 0, n - 1, d);
	case 22: return op (l, s, 10, 0, 0, d);
	case 23: return op (l, s, 11, 0, 0, d);
	case 24: return op (l, s, 12, 0, 0, d);
	case 25: return op (l, s, 13, 0, 0, d);
	case 26: return op (l, s, 14, 2, 0, d);
	case 27: return op (l, s, 14, 1, 1, d);
	case 28: return op (l, s, 15, 0, 0, d);
	default: return op (l, s, 15, 2, 0, d);
	}
}
static void sequences (void)
{
	Seq s; SB d = {0}; int i, depth = mc_thorough ? 5 : 4; axlList *l = start (&s, &d, 1);
	for (i = 0; i < depth; i++) { int o = mc_choose (30); if (i == 1) mc_shard (); if (!o) break; l = randop (l, &s, o, &d); mc_desc ("%s", sb_str (&d)); check (l, &s, 0); }
	if (i < 2) mc_shard ();
	finish (l, &s);
}
/* every build of n items by add/append/prepend, then every (operation, position) pair, twice */
static void shapes (void)
{
	Seq s; SB d = {0}; int n, i, r; axlList *l = start (&s, &d, 3); n = mc_choose (mc_thorough ? 6 : 5);
	for (i = 0; i < n; i++) { int o = mc_choose (4); if (o == 0) l = op (l, &s, 0, (i * 3) % 4, 0, &d); else if (o == 1) l = op (l, &s, 0, i % 4, 0, &d); else if (o == 2) l = op (l, &s, 1, i % 4, 0, &d); else l = op (l, &s, 2, (i + 1) % 4, 0, &d); if (i == 1) mc_shard (); }
	if (n < 2) mc_shard ();
	for (r = 0; r < 2; r++) { int w = mc_choose (13), at;
		switch (w) {
		case 0: l = op (l, &s, 3, mc_choose (2), mc_choose (s.n + 3) - 1, &d); break;
		case 1: case 2: case 3: case 4: at = mc_choose (s.n + 2) - (w > 2); l = op (l, &s, 5 + w, 0, at, &d); break;
		case 5: case 6: l = op (l, &s, w - 1, mc_choose (4), 0, &d); break;
		case 7: l = op (l, &s, 14, mc_choose (16), mc_choose (2), &d); break;
		case 8: l = op (l, &s, 15, mc_choose (3), 0, &d); break;
		default: l = op (l, &s, w + 1, 0, 0, &d); }
		mc_desc ("%s", sb_str (&d)); check (l, &s, 0); }
	finish (l, &s);
}
/* long lists (node preallocation and reuse): fill n, drop m, fill again, several rounds */
static void longs (void)
{
	Seq s; SB d = {0}; int n, m, r, i; axlList *l = start (&s, &d, 3); n = mc_choose (mc_thorough ? 40 : 25); m = mc_choose (6); mc_shard (); sb_f (&d, " long n=%d drop=%d", n, m);
	mc_desc ("%s", sb_str (&d));
	for (r = 0; r < 2; r++) { SB dd = {0};
		for (i = 0; i < n && s.n < ML - 8; i++) l = op (l, &s, (eqmode == 1 || eqmode == 2) ? 1 + (i & 1) : r && i < 3 ? 0 : 1, i % 4, 0, &dd);
		check (l, &s, 1);
		switch (m) { case 0: for (i = 0; i < n; i++) l = op (l, &s, 10, 0, 0, &dd); break; case 1: for (i = 0; i < n / 2; i++) l = op (l, &s, 13, 0, 0, &dd); break; case 2: for (i = 0; i < n; i++) l = op (l, &s, 8, 0, s.n / 2, &dd); break; case 3: l = op (l, &s, 14, 21, 0, &dd); break; case 4: l = op (l, &s, 14, 63, 1, &dd); break; default: l = op (l, &s, 15, 2, 0, &dd); }
		check (l, &s, 1); }
	finish (l, &s);
}
/* the library's own equal/order functions and string lists */
static const char *W[] = { "a", "b", "ab", "", "abc", "B", "\xc3\xa9" };
static int freed; static void fcount (axlPointer p) { freed++; free (p); }
static void strings (void)
{
	int f = mc_choose (2), n = mc_choose (mc_thorough ? 6 : 5), i, j, m = 0; SB d = {0}; axlList *l; const char *seq[8]; freed = 0; mc_shard ();
	l = axl_list_new (f ? axl_list_order_string : axl_list_equal_string, fcount); sb_add (&d, f ? "order_string" : "equal_string");
	for (i = 0; i < n; i++) { int c = mc_choose (7); char *p; for (j = 0; j < m && strcmp (seq[j], W[c]); j++) ;
		if (j < m) { /* duplicates: by value removal instead */ sb_f (&d, " remove(%s)", W[c]); axl_list_remove (l, (axlPointer) W[c]); for (; j < m - 1; j++) seq[j] = seq[j + 1]; m--; continue; }
		p = strdup (W[c]); sb_f (&d, " add(%s)", W[c]); axl_list_add (l, p); mc_trans (1);
		if (f) for (j = 0; j < m && strcmp (seq[j], W[c]) < 0; j++) ; else j = m;
		memmove (seq + j + 1, seq + j, (m - j) * sizeof *seq); seq[j] = W[c]; m++; }
	mc_desc ("%s", sb_str (&d)); MC_CHECK (axl_list_length (l) == m, "length %d expected %d", axl_list_length (l), m);
	for (i = 0; i < m; i++) MC_CHECK (!strcmp (axl_list_get_nth (l, i), seq[i]), "item %d is %s, expected %s", i, (char *) axl_list_get_nth (l, i), seq[i]);
	for (i = 0; i < 7; i++) { for (j = 0; j < m && strcmp (seq[j], W[i]); j++) ; MC_CHECK (axl_list_exists (l, (axlPointer) W[i]) == (j < m), "exists (%s)", W[i]); char *r = axl_list_lookup (l, axl_list_find_string, (axlPointer) W[i]); MC_CHECK (j < m ? r && !strcmp (r, W[i]) : !r, "lookup (%s)", W[i]); }
	axl_list_free (l); mc_nontrivial ();
}
static void ints (void)
{
	static const int V[] = { 0, 1, 2, -1, 2147483647, -2147483647 - 1, 100 }; int n = mc_choose (6), i, j, m = 0, seq[8], ptr = mc_choose (2); SB d = {0}; axlList *l; mc_shard ();
	l = axl_list_new (ptr ? axl_list_equal_ptr : axl_list_equal_int, NULL); sb_add (&d, ptr ? "equal_ptr" : "equal_int");
	for (i = 0; i < n; i++) { int c = V[mc_choose (7)]; for (j = 0; j < m && seq[j] != c; j++) ;
		if (j < m) { sb_f (&d, " unlink(%d)", c); axl_list_unlink (l, INT_TO_PTR (c)); for (; j < m - 1; j++) seq[j] = seq[j + 1]; m--; continue; }
		sb_f (&d, " add(%d)", c); axl_list_add (l, INT_TO_PTR (c)); mc_trans (1); memmove (seq + 1, seq, 0);
		if (ptr) j = 0; else for (j = 0; j < m && seq[j] < c; j++) ;
		memmove (seq + j + 1, seq + j, (m - j) * sizeof *seq); seq[j] = c; m++; }
	mc_desc ("%s", sb_str (&d)); MC_CHECK (axl_list_length (l) == m, "length %d expected %d", axl_list_length (l), m);
	for (i = 0; i < m; i++) MC_CHECK (PTR_TO_INT (axl_list_get_nth (l, i)) == seq[i], "item %d is %d, expected %d", i, PTR_TO_INT (axl_list_get_nth (l, i)), seq[i]);
	for (i = 1; i < 7; i++) { for (j = 0; j < m && seq[j] != V[i]; j++) ; MC_CHECK (axl_list_exists (l, INT_TO_PTR (V[i])) == (j < m), "exists (%d)", V[i]); }
	axl_list_free (l); mc_nontrivial ();
}
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (5)) { case 0: sequences (); break; case 1: shapes (); break; case 2: longs (); break; case 3: strings (); break; default: ints (); }
}
