/* C20: all annotation histories on a small tree; all placements of processing instructions. */
#include "ax.h"
const char *mc_name = "c20_annot";
void mc_init (void) { axl_init (); }

/* ---------------------------------------------- annotations */
enum { NONE, RAW, FULL, INT, STR, DBL };
typedef struct { int kind, iv, id; double dv; char *sv; } AN;
#define NN 4
#define NK 3
static const char *KEY[] = { "k", "kk", "l" };
static AN A[NN][NK]; static axlNode *N[NN]; static int par[NN], gone[NN];
static int alive[256], kfreed[256], nextid; static char *kptr[256];          /* objects owned by the library through the full variant */
typedef struct { int id; } Obj; static Obj objs[256];
static void obj_free (axlPointer p) { Obj *o = p; if (o < objs || o >= objs + 256) mc_fail ("a foreign pointer is released"); if (!alive[o->id]) mc_fail ("annotation %d is released twice", o->id); alive[o->id] = 0; }
static void key_free (axlPointer p) { int i; for (i = nextid - 1; i >= 0; i--) if (kptr[i] == p) { if (kfreed[i]) mc_fail ("a key is released twice"); kfreed[i] = 1; return; } mc_fail ("a foreign key is released"); }
static int held (int id) { int n, k; for (n = 0; n < NN; n++) for (k = 0; k < NK; k++) if (!gone[n] && A[n][k].kind == FULL && A[n][k].id == id) return 1; return 0; }
static AN *find (int n, int k, int up) { for (; n >= 0; n = up ? par[n] : -1) if (A[n][k].kind) return &A[n][k]; return NULL; }
static void check (const char *when)
{
	int n, k, up, i; mc_trans (1);
	for (n = 0; n < NN; n++) if (!gone[n]) for (k = 0; k < NK; k++) for (up = 0; up < 2; up++) {
		char key[8]; AN *a = find (n, k, up); strcpy (key, KEY[k]); mc_trans (1);
		if (!a) { MC_CHECK (!axl_node_annotate_get (N[n], key, up), "%s: node %d has data under %s nobody stored (ancestors %d)", when, n, key, up); MC_CHECK (axl_node_annotate_get_int (N[n], key, up) == 0 && !axl_node_annotate_get_string (N[n], key, up) && axl_node_annotate_get_double (N[n], key, up) == 0, "%s: typed data nobody stored", when); continue; }
		MC_CHECK (axl_node_annotate_get (N[n], key, up), "%s: node %d lost the data under %s (ancestors %d)", when, n, key, up);
		if (a->kind == RAW || a->kind == FULL) MC_CHECK (axl_node_annotate_get (N[n], key, up) == &objs[a->id], "%s: node %d, %s (ancestors %d): other data than stored", when, n, key, up);
		else { int iv = axl_node_annotate_get_int (N[n], key, up); char *sv = axl_node_annotate_get_string (N[n], key, up); double dv = axl_node_annotate_get_double (N[n], key, up);
			MC_CHECK (iv == (a->kind == INT ? a->iv : 0), "%s: integer %d under %s", when, iv, key); MC_CHECK (dv == (a->kind == DBL ? a->dv : 0), "%s: double %g under %s, stored %g", when, dv, key, a->dv); MC_CHECK (a->kind == STR ? sv && !strcmp (sv, a->sv) : !sv, "%s: string %s under %s", when, Q (sv), key); }
	}
	for (i = 0; i < nextid; i++) { if (kptr[i]) MC_CHECK (!kfreed[i] || !held (i), "%s: the key of a stored annotation was released", when); MC_CHECK (alive[i] == (held (i) || alive[i] == 2 ? alive[i] ? alive[i] : 1 : 0), "%s: annotation %d is %s", when, i, alive[i] ? "not released though nobody holds it" : "released while stored"); }
}
static void put (int n, int k, int kind, int v)
{
	AN *a = &A[n][k]; memset (a, 0, sizeof *a); a->kind = kind;
	switch (kind) {
	case RAW: a->id = nextid; objs[nextid].id = nextid; alive[nextid] = 2; nextid++; axl_node_annotate_data (N[n], KEY[k], &objs[a->id]); break;
	case FULL: { char *key = axl_strdup (KEY[k]); a->id = nextid; objs[nextid].id = nextid; alive[nextid] = 1; kptr[nextid] = key; nextid++; axl_node_annotate_data_full (N[n], key, key_free, &objs[a->id], obj_free); break; }
	case INT: a->iv = (int[]) { 1, -7, 0x7fffffff, 0 } [v % 4]; axl_node_annotate_int (N[n], KEY[k], a->iv); break;
	case STR: { char *s = (char *[]) { "s", "", "text & <more>", "s" } [v % 4]; char t[32]; strcpy (t, s); a->sv = s; axl_node_annotate_string (N[n], KEY[k], t); memset (t, 'x', 31); break; }
	case DBL: a->dv = (double[]) { 1.5, -2e300, 0.1, 3 } [v % 4]; axl_node_annotate_double (N[n], KEY[k], a->dv); break;
	}
}
static void fin (axlDoc *d) { int i; axl_doc_free (d); for (i = 0; i < nextid; i++) { MC_CHECK (alive[i] != 1, "annotation %d is never released", i); if (kptr[i]) { MC_CHECK (kfreed[i], "the key of annotation %d is never released", i); axl_free (kptr[i]); } } }
static axlDoc *tree (void)        /* 0: root, 1: child, 2: grandchild, 3: second child */
{
	axlDoc *d = axl_doc_create (NULL, NULL, axl_false); memset (A, 0, sizeof A); memset (alive, 0, sizeof alive); memset (kfreed, 0, sizeof kfreed); memset (kptr, 0, sizeof kptr); memset (gone, 0, sizeof gone); nextid = 0;
	N[0] = axl_node_create ("r"); N[1] = axl_node_create ("a"); N[2] = axl_node_create ("b"); N[3] = axl_node_create ("c"); axl_doc_set_root (d, N[0]); axl_node_set_child (N[0], N[1]); axl_node_set_content (N[1], "t", -1); axl_node_set_child (N[1], N[2]); axl_node_set_child (N[0], N[3]); par[0] = -1; par[1] = 0; par[2] = 1; par[3] = 0; return d;
}
/* ---------------------------------------------- processing instructions */
static const char *T[] = { "t", "tt", "T-2" }, *C[] = { NULL, "c", "href=\"a.css\" type='x'", "a ? b > c", "two\nlines", "" };
typedef struct { const char *t, *c; } PI;
static void pis (void *o, int isnode, PI *p, int n, const char *ctx)
{
	int i, j; axlList *l = isnode ? axl_node_get_pi_target_list (o) : axl_doc_get_pi_target_list (o); mc_trans (7);
	MC_CHECK ((l ? axl_list_length (l) : 0) == n, "%s: %d instructions listed, %d are there", ctx, l ? axl_list_length (l) : 0, n);
	for (i = 0; i < n; i++) { axlPI *x = axl_list_get_nth (l, i), *y; MC_CHECK (x && !strcmp (axl_pi_get_name (x), p[i].t), "%s: instruction %d has target %s, not %s", ctx, i, x ? axl_pi_get_name (x) : "-", p[i].t); MC_CHECK (p[i].c ? axl_pi_get_content (x) && !strcmp (axl_pi_get_content (x), p[i].c) : !axl_pi_get_content (x), "%s: instruction %d has content %s, not %s", ctx, i, Q (axl_pi_get_content (x)), Q (p[i].c));
		y = axl_pi_copy (x); MC_CHECK (axl_pi_are_equal (x, y) && !strcmp (axl_pi_get_name (y), p[i].t) && (p[i].c ? !strcmp (axl_pi_get_content (y), p[i].c) : !axl_pi_get_content (y)), "%s: copy of an instruction", ctx); axl_pi_free (y);
		if (i) { axlPI *z = axl_list_get_nth (l, i - 1); int eq = !strcmp (p[i].t, p[i - 1].t) && !p[i].c == !p[i - 1].c && (!p[i].c || !strcmp (p[i].c, p[i - 1].c)); MC_CHECK (!axl_pi_are_equal (x, z) == !eq, "%s: equality of instructions %d and %d", ctx, i - 1, i); } }
	if (isnode && l) axl_list_free (l);
	for (j = 0; j < 4; j++) { char *t = (char *) (j < 3 ? T[j] : "ttt"), *c; for (i = 0; i < n && strcmp (p[i].t, t); i++); c = isnode ? axl_node_get_pi_target_content (o, t) : axl_doc_get_pi_target_content (o, t);
		MC_CHECK (!(isnode ? axl_node_has_pi_target (o, t) : axl_doc_has_pi_target (o, t)) == (i == n), "%s: existence of %s", ctx, t); MC_CHECK (i < n && p[i].c ? c && !strcmp (c, p[i].c) : !c, "%s: content of %s is %s, not %s", ctx, t, Q (c), i < n ? Q (p[i].c) : "nothing"); }
}
void mc_case (void)
{
	int part, i, n; axlDoc *d; ax_reset (); part = mc_choose (4);
	if (part == 0) {                  /* annotation histories */
		int depth = mc_thorough ? 4 : 3; d = tree (); n = 1 + mc_choose (depth); int keys = n > 2 ? 2 : 3, nodes = n > 3 ? 3 : 4;
		for (i = 0; i < n; i++) { int op = mc_choose (nodes * keys * 5 + (n <= 3 ? 4 : 2)); if (i == 0 && n > 1) mc_shard ();
			if (op < nodes * keys * 5) { int nd = op / (keys * 5), k = op / 5 % keys, kind = 1 + op % 5; if (gone[nd]) mc_skip (); mc_desc (" node %d %s: %s;", nd, KEY[k], (const char *[]) { "", "data", "data with destroy", "int", "string", "double" } [kind]); put (nd, k, kind, i); }
			else { op -= nodes * keys * 5; mc_desc (" %s;", op == 0 ? "release the first child" : op == 1 ? "move the grandchild below the second child" : op == 2 ? "detach and release the grandchild" : "move the first child to the end");
				if (op == 0) { if (gone[1]) mc_skip (); axl_node_remove (N[1], axl_true); gone[1] = 1; if (par[2] == 1) gone[2] = 1; }
				if (op == 1) { if (gone[2] || par[2] == 3 || gone[3]) mc_skip (); axl_node_deattach (N[2]); axl_node_set_child (N[3], N[2]); par[2] = 3; }
				if (op == 2) { if (gone[2]) mc_skip (); axl_node_deattach (N[2]); axl_node_free (N[2]); gone[2] = 1; }
				if (op == 3) { if (gone[1]) mc_skip (); axl_node_remove (N[1], axl_false); axl_node_set_child (N[0], N[1]); } }
			check ("after the last step"); }
		if (n == 1) mc_shard (); fin (d); mc_state (mc_hash (A, sizeof A, n)); mc_outcome ("annotations"); mc_nontrivial ();
	} else if (part == 1) {           /* many keys on one node; another node keeps its own */
		int cnt = (int[]) { 1, 2, 9, 10, 11, 12, 21, 40 } [mc_choose (8)], p = mc_choose (cnt), kind = mc_choose (3); char *keys[64]; mc_shard (); d = tree (); mc_desc ("%d keys, one replaced at %d", cnt, p);
		for (i = 0; i < cnt; i++) { keys[i] = ax_fmt ("key%d", i); axl_node_annotate_int (N[1], keys[i], 100 + i); if (i % 2) axl_node_annotate_int (N[0], keys[i], 500 + i); }
		if (kind == 1) axl_node_annotate_int (N[1], keys[p], 7); if (kind == 2) axl_node_annotate_string (N[1], keys[p], "seven");
		for (i = 0; i < cnt; i++) { int e = kind == 1 && i == p ? 7 : 100 + i; if (kind == 2 && i == p) { MC_CHECK (!strcmp (axl_node_annotate_get_string (N[2], keys[i], axl_true), "seven"), "replaced string"); continue; } MC_CHECK (axl_node_annotate_get_int (N[1], ax_dup (keys[i]), axl_false) == e, "key %d holds %d, stored %d", i, axl_node_annotate_get_int (N[1], keys[i], axl_false), e); MC_CHECK (axl_node_annotate_get_int (N[2], keys[i], axl_true) == e && axl_node_annotate_get_int (N[2], keys[i], axl_false) == 0, "key %d from below", i); MC_CHECK (axl_node_annotate_get_int (N[3], keys[i], axl_true) == (i % 2 ? 500 + i : 0), "key %d from the other child", i); mc_trans (4); }
		axl_doc_free (d); mc_outcome ("many keys"); mc_nontrivial ();
	} else if (part == 2) {           /* instructions through the API: document and element, every sequence */
		PI p[2][8]; int np[2] = { 0, 0 }, k; n = mc_choose (mc_thorough ? 4 : 3) + 1; d = tree ();
		for (i = 0; i < n; i++) { int w = mc_choose (2), t = mc_choose (3), c = mc_choose (n > 3 ? 3 : 6); char tb[8], cb[64]; if (i == 0) mc_shard (); strcpy (tb, T[t]); if (C[c]) strcpy (cb, C[c]); mc_desc (" %s <?%s %s?>", w ? "element" : "document", T[t], C[c] ? C[c] : "-"); if (w) { if (i == 1) axl_node_set_content (N[1], "x", -1); axl_node_add_pi_target (N[1], tb, C[c] ? cb : NULL); } else axl_doc_add_pi_target (d, tb, C[c] ? cb : NULL); memset (tb, 'z', 7); memset (cb, 'z', 63); p[w][np[w]].t = T[t]; p[w][np[w]++].c = C[c]; }
		for (k = 0; k < 2; k++) { pis (d, 0, p[0], np[0], "document"); pis (N[1], 1, p[1], np[1], "element"); pis (N[0], 1, NULL, 0, "root"); pis (N[3], 1, NULL, 0, "other element"); }
		axl_doc_free (d); mc_outcome ("instructions added"); mc_nontrivial ();
	} else {                          /* parsed: instructions at every combination of places */
		static const char *parts[] = { "<?xml version='1.0'?>", "", "<!-- c -->", "\n<r>", "text", "<a>", "</a>", "<b/>", "<!--d-->", "</r>", "\n<!-- e -->" }; PI p[3][8]; int np[3] = { 0, 0, 0 }, where[4], k, sepk = mc_choose (3); SB b = { 0 }; axlNode *r; n = 1 + mc_choose (mc_thorough ? 4 : 3);
		int tt[4], cc[4]; for (k = 0; k < n; k++) { where[k] = mc_choose (10); if (k && where[k] < where[k - 1]) mc_skip (); tt[k] = mc_choose (k && n > 2 ? 2 : 3); cc[k] = mc_choose (n > 3 ? 2 : n > 2 ? 3 : 5); if (k == 0) mc_shard (); }
		for (i = 0, k = 0; i < 11; i++) { sb_add (&b, parts[i]); for (; k < n && where[k] == i; k++) { int o = i < 3 || i >= 9 ? 0 : i == 5 ? 2 : 1; const char *c = C[cc[k]]; sb_f (&b, "<?%s%s%s?>", T[tt[k]], c ? (const char *[]) { " ", "\n", "\t" } [sepk] : "", c ? c : ""); if (i < 3 && k % 2) sb_c (&b, '\n'); p[o][np[o]].t = T[tt[k]]; p[o][np[o]++].c = c; } }
		mc_desc ("%s", Q (sb_str (&b))); d = ax_parse_ok (sb_str (&b), -1, "document"); r = axl_doc_get_root (d);
		pis (d, 0, p[0], np[0], "document"); pis (r, 1, p[1], np[1], "root"); pis (axl_node_get_first_child (r), 1, p[2], np[2], "first child"); pis (axl_node_get_last_child (r), 1, NULL, 0, "last child"); axl_doc_free (d); mc_state (mc_hash (b.p, b.n, 1)); mc_outcome ("instructions parsed"); mc_nontrivial ();
	}
}
