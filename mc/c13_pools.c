/* C13: stacks, bit stack, object pool and string pool against plain models. */
#include "ax.h"
#include <axl_factory.h>
const char *mc_name = "c13_pools";
void mc_init (void) { axl_init (); }

static int rel[64]; static const char *bad; static char slot[64];
static void dd (axlPointer p) { long i = (char *) p - slot; if (i < 0 || i >= 64) bad = "destroy called with a foreign pointer"; else rel[i]++; }
typedef struct { int seen[128], n, stop; void *u2, *u3; int wrong; } Vis;
static axl_bool v2 (axlPointer e, axlPointer u, axlPointer u2) { Vis *v = u; if (u2 != v->u2) v->wrong = 1; if (v->n < 128) v->seen[v->n] = (char *) e - slot; v->n++; return v->n == v->stop; }
static axl_bool v3 (axlPointer e, axlPointer u, axlPointer u2, axlPointer u3) { Vis *v = u; if (u3 != v->u3) v->wrong = 1; return v2 (e, u, u2); }
static void stack_check (axlStack *s, int *m, int n, int full)
{
	int i, k; uint64_t h = 1; for (i = 0; i < n; i++) h = h * 31 + m[i]; mc_state (h);
	MC_CHECK (axl_stack_size (s) == n, "size %d expected %d", axl_stack_size (s), n);
	MC_CHECK (axl_stack_is_empty (s) == (n == 0), "is_empty wrong");
	MC_CHECK (axl_stack_peek (s) == (n ? slot + m[n - 1] : NULL), "top wrong");
	if (!full) return;
	for (k = 0; k <= n; k++) { Vis v; int r; memset (&v, 0, sizeof v); v.stop = k; v.u2 = m; v.u3 = s; r = (k & 1) ? axl_stack_foreach (s, v2, &v, m) : axl_stack_foreach3 (s, v3, &v, m, s);
		MC_CHECK (r == (k == 0), "foreach stopped at %d returned %d", k, r); MC_CHECK (v.n == (k ? k : n) && !v.wrong, "foreach visited %d of %d", v.n, n); for (i = 0; i < v.n; i++) MC_CHECK (v.seen[i] == m[n - 1 - i], "foreach order"); }
}
static void stacks (void)
{
	int m[64], n = 0, i, own = mc_choose (2), depth = mc_thorough ? 12 : 9, dead[64] = {0}, next = 0; SB d = {0}; axlStack *s = axl_stack_new (own ? dd : NULL); memset (rel, 0, sizeof rel); bad = NULL; sb_f (&d, "stack own=%d", own);
	for (i = 0; i < depth; i++) { int o = mc_choose (4); if (i == 4) mc_shard (); if (!o) break; mc_trans (1);
		if (o == 1) { axl_stack_push (s, slot + next); m[n++] = next++; sb_add (&d, " push"); }
		else if (o == 2) { axlPointer p = axl_stack_pop (s); sb_add (&d, " pop"); MC_CHECK (p == (n ? slot + m[n - 1] : NULL), "pop returned the wrong element"); if (n) dead[m[--n]] = 1; }
		else { /* three pushes */ int q; sb_add (&d, " push3"); for (q = 0; q < 3; q++) { axl_stack_push (s, slot + next); m[n++] = next++; } }
		mc_desc ("%s", sb_str (&d)); stack_check (s, m, n, 0); }
	if (i < 5) mc_shard ();
	stack_check (s, m, n, 1); axl_stack_free (s); MC_CHECK (!bad, "%s", bad);
	for (i = 0; i < next; i++) MC_CHECK (rel[i] == (own && !dead[i]), "element %d released %d times", i, rel[i]); mc_nontrivial ();
}
static void bits (void)
{
	int m[4000], n = 0, i, depth = mc_thorough ? 10 : 8; SB d = {0}; axlBinaryStack *s = axl_binary_stack_new (); sb_add (&d, "bits");
	for (i = 0; i < depth; i++) { int o = mc_choose (7); if (i == 3) mc_shard (); if (!o) break; mc_trans (1);
		if (o <= 2) { axl_binary_stack_push (s, o == 2); m[n++] = o == 2; sb_f (&d, " push%d", o == 2); }
		else if (o == 3) { axl_binary_stack_push_the_same (s); sb_add (&d, " same"); if (n) { m[n] = m[n - 1]; n++; } }
		else if (o == 4) { int r = axl_binary_stack_pop (s); sb_add (&d, " pop"); MC_CHECK (r == (n ? m[n - 1] : 0), "pop returned %d", r); if (n) n--; }
		else if (o == 5) { int k; sb_add (&d, " push-101"); for (k = 0; k < 3; k++) { axl_binary_stack_push (s, k != 1); m[n++] = k != 1; } }
		else { int k; sb_add (&d, " pop3"); for (k = 0; k < 3; k++) { int r = axl_binary_stack_pop (s); MC_CHECK (r == (n ? m[n - 1] : 0), "pop returned %d", r); if (n) n--; } }
		mc_desc ("%s", sb_str (&d));
		MC_CHECK (axl_binary_stack_size (s) == n, "size %d expected %d", axl_binary_stack_size (s), n); MC_CHECK (axl_binary_stack_is_empty (s) == (n == 0), "is_empty"); MC_CHECK (axl_binary_stack_peek (s) == (n ? m[n - 1] : 0), "peek wrong"); }
	if (i < 4) mc_shard ();
	{ uint64_t h = 2; for (i = 0; i < n; i++) h = h * 31 + m[i]; mc_state (h); }
	if (mc_choose (2)) while (n) { int r = axl_binary_stack_pop (s); n--; MC_CHECK (r == m[n], "pop at depth %d returned %d", n, r); MC_CHECK (axl_binary_stack_size (s) == n, "size"); }
	axl_binary_stack_free (s); mc_nontrivial ();
}
static void deepbits (void)     /* long runs of every pattern period up to 6 */
{
	int per = 1 + mc_choose (6), pat = mc_choose (1 << per), len = mc_choose (4), n, i; axlBinaryStack *s; mc_shard (); n = (int[]) { 31, 32, 257, 3000 } [len]; mc_desc ("bits period=%d pattern=%d n=%d", per, pat, n); s = axl_binary_stack_new ();
	for (i = 0; i < n; i++) axl_binary_stack_push (s, pat >> (i % per) & 1);
	while (n--) { MC_CHECK (axl_binary_stack_peek (s) == (pat >> (n % per) & 1), "peek at %d", n); MC_CHECK (axl_binary_stack_pop (s) == (pat >> (n % per) & 1), "pop at %d", n); MC_CHECK (axl_binary_stack_size (s) == n, "size"); }
	MC_CHECK (axl_binary_stack_is_empty (s), "not empty"); axl_binary_stack_free (s); mc_trans (2 * n); mc_nontrivial ();
}
/* object pool */
typedef struct { unsigned char *p; int live; unsigned char tag; } Blk;
static Blk *B; static int nb, ts; static unsigned char seq;
static int cmpp (const void *a, const void *b) { const Blk *x = *(Blk **) a, *y = *(Blk **) b; return x->p < y->p ? -1 : x->p > y->p; }
static void verify (Blk *b) { int i; for (i = 0; i < ts; i++) MC_CHECK (b->p[i] == b->tag, "content of a block changed while in use (byte %d)", i); }
static void overlap (void)
{
	int i, k = 0; Blk **v = ax_alloc (sizeof (Blk *) * (nb + 1)); for (i = 0; i < nb; i++) if (B[i].live) v[k++] = B + i;
	qsort (v, k, sizeof *v, cmpp); for (i = 1; i < k; i++) MC_CHECK (v[i - 1]->p + ts <= v[i]->p, "two blocks in use overlap"); for (i = 0; i < k; i++) verify (v[i]);
}
static void pools (void)
{
	static const int sizes[] = { 1, 2, 3, 7, 8, 16, 24, 32, 40, 48, 56, 64, 72, 100, 128, 129, 200, 255, 256, 257, 300, 512 };
	static const int gets[] = { 1, 2, 9, 33, 120 }, rels[] = { 1, 2, 9, 10, 11, 21 }; int i, r, j; axlFactory *f; SB d = {0}; int depth = mc_thorough ? 5 : 4;
	ts = sizes[mc_choose (22)]; B = ax_alloc (sizeof (Blk) * 4000); nb = 0; seq = 1; sb_f (&d, "pool size=%d", ts); f = axl_factory_create (ts); MC_CHECK (f, "no factory");
	for (r = 0; r < depth; r++) { int o = mc_choose (1 + 5 + 6 + 6 + 2), n; if (r == 1) mc_shard (); if (!o) break;
		if (o <= 5) { n = gets[o - 1]; sb_f (&d, " get%d", n);
			for (i = 0; i < n; i++) { Blk *b = B + nb; int known = 0; b->p = axl_factory_get (f); MC_CHECK (b->p, "no block"); mc_trans (1);
				for (j = 0; j < nb; j++) if (B[j].p == b->p) { known = 1; MC_CHECK (!B[j].live, "a block in use was handed out again"); }
				if (!known) for (j = 0; j < ts; j++) MC_CHECK (b->p[j] == 0, "fresh block not zeroed");
				nb++; b->live = 1; b->tag = seq; if (++seq == 0) seq = 1; memset (b->p, b->tag, ts); } }
		else if (o <= 11) { n = rels[o - 6]; sb_f (&d, " release-newest%d", n); for (i = nb - 1; i >= 0 && n; i--) if (B[i].live) { verify (B + i); B[i].live = 0; axl_factory_release_spare (f, B[i].p); n--; mc_trans (1); } }
		else if (o <= 17) { n = rels[o - 12]; sb_f (&d, " release-oldest%d", n); for (i = 0; i < nb && n; i++) if (B[i].live) { verify (B + i); B[i].live = 0; axl_factory_release_spare (f, B[i].p); n--; mc_trans (1); } }
		else { sb_f (&d, " release-%s", o == 18 ? "all" : "odd"); for (i = 0; i < nb; i++) if (B[i].live && (o == 18 || (i & 1))) { verify (B + i); B[i].live = 0; axl_factory_release_spare (f, B[i].p); mc_trans (1); } }
		mc_desc ("%s", sb_str (&d)); }
	if (r < 2) mc_shard ();
	overlap (); { int live = 0; for (i = 0; i < nb; i++) live += B[i].live; mc_state (ts * 100003 + live * 997 + axl_factory_spare_next (f)); } axl_factory_free (f); mc_nontrivial ();
}
static void strs (void)
{
	static const int sizes[] = { 0, 1, 2, 10, 511, 512, 700, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 5000 }; char *p[8]; int n[8], i, j, k, depth = mc_thorough ? 6 : 5; axlStrFactory *f = axl_string_factory_create (); SB d = {0}; sb_add (&d, "strings");
	for (i = 0; i < depth; i++) { int o = mc_choose (17); if (i == 1) mc_shard (); if (!o) break; n[i] = sizes[o - 1]; sb_f (&d, " %d", n[i]); p[i] = axl_string_factory_alloc (f, n[i]); mc_trans (1); MC_CHECK (p[i] && p[i][n[i]] == 0, "not terminated");
		for (j = 0; j < i; j++) MC_CHECK (p[i] + n[i] + 1 <= p[j] || p[j] + n[j] + 1 <= p[i], "blocks %d and %d overlap", j, i); memset (p[i], 'a' + i, n[i]); mc_desc ("%s", sb_str (&d)); }
	if (i < 2) mc_shard ();
	for (j = 0; j < i; j++) { for (k = 0; k < n[j]; k++) MC_CHECK (p[j][k] == 'a' + j, "block %d changed", j); MC_CHECK (p[j][n[j]] == 0, "terminator of block %d changed", j); }
	mc_state (mc_hash (n, i * sizeof *n, 77)); axl_string_factory_free (f); mc_nontrivial ();
}
static void strsmall (void)      /* fill blocks with s-sized strings: every alignment of the block end */
{
	int s = mc_choose (140), n, i, j; char *p[300]; axlStrFactory *f; mc_shard (); n = s > 20 ? 60 : 290; mc_desc ("strings %d x %d", n, s); f = axl_string_factory_create ();
	for (i = 0; i < n; i++) { p[i] = axl_string_factory_alloc (f, s); MC_CHECK (p[i][s] == 0, "not terminated"); memset (p[i], 1 + i % 200, s); mc_trans (1); }
	for (i = 0; i < n; i++) { for (j = 0; j < s; j++) MC_CHECK ((unsigned char) p[i][j] == 1 + i % 200, "string %d changed", i); MC_CHECK (p[i][s] == 0, "terminator %d changed", i); }
	axl_string_factory_free (f); mc_nontrivial ();
}
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (6)) { case 0: stacks (); break; case 1: bits (); break; case 2: deepbits (); break; case 3: pools (); break; case 4: strs (); break; default: strsmall (); }
}
