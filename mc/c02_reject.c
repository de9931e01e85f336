/* C02: malformed documents are rejected; failure and error agree (oracle: the recogniser in rec.h). */
#include "ax.h"
#include "rec.h"
#include "seeds.h"
const char *mc_name = "c02_reject";
void mc_init (void) {}

static void judge (const char *t, int n)
{
	const char *why = NULL; int v = rec_doc (t, n, &why); axlError *err = NULL; axlDoc *d;
	mc_desc ("%s", mc_q (t, n));
	d = ax_parse_full (t, n, &err);
	if (v == REC_BAD) { MC_CHECK (!d, "malformed document accepted (%s)", why); mc_outcome (why); mc_nontrivial (); }
	if (v == REC_OK) { MC_CHECK (d, "well-formed document refused: %s", axl_error_get (err)); mc_outcome ("well-formed"); mc_nontrivial (); }
	if (v == REC_ANY) mc_outcome (d ? "unclaimed, accepted" : "unclaimed, refused");
	if (err) axl_error_free (err);
	if (d) axl_doc_free (d);
	/* the verdict does not depend on whether the caller wants the error */
	{ axlDoc *d2 = axl_doc_parse (t, n, NULL); MC_CHECK (!d2 == !d, "verdict differs without an error holder"); if (d2) axl_doc_free (d2); }
	mc_state (mc_hash (t, n, v));
}
static void part_bytes (void)
{
	static const char al[] = "<>/a=\"' b!-?[]"; int k = sizeof al - 1, len, i; char t[16];
	len = mc_choose (mc_thorough ? 8 : 7);
	for (i = 0; i < len; i++) { t[i] = al[mc_choose (i == 0 ? 1 : len > 5 ? (i < 2 ? 5 : 9) : k)]; if (i == 1) mc_shard (); }
	if (len < 2) mc_shard ();
	t[len] = 0;
	judge (t, len);
}
static const char *tok[] = { "<a>", "</a>", "<b k='v'>", "</b>", "<a/>", "x", " ", "<!--c-->", "<?p q?>", "<![CDATA[d]]>",
	"<?xml version='1.0'?>", "<a", ">", "</", "<!--", "-->", "<?p ", "?>", "<![CDATA[", "]]>", " k='v'", " k=\"w\"", "/>", "<", " j=v", " xml:space='preserve'", " xml:space='x'", "<!DOCTYPE a>", "'", "\xEF\xBB\xBF", " k=", "=", "</a >", "<a k='1' j='2' k='3'/>" };
static void part_tokens (void)
{
	int n = sizeof tok / sizeof *tok, len = mc_choose (mc_thorough ? 6 : 5), i; SB b = {0};
	for (i = 0; i < len; i++) { sb_add (&b, tok[mc_choose (len > 4 ? 24 : n)]); if (i == 0) { } }
	mc_shard ();
	judge (sb_str (&b), b.n);
}
/* wrap: token strings inside an open element, so that depth is reached with few tokens */
static void part_inner (void)
{
	int n = sizeof tok / sizeof *tok, len = 1 + mc_choose (mc_thorough ? 4 : 3), i; SB b = {0};
	sb_add (&b, mc_choose (2) ? "<?xml version='1.0'?>\n<a>" : "<a><b k='v'>");
	for (i = 0; i < len; i++) sb_add (&b, tok[mc_choose (n)]);
	switch (mc_choose (3)) { case 0: sb_add (&b, "</a>"); break; case 1: sb_add (&b, "</b></a>"); break; case 2: break; }
	mc_shard ();
	judge (sb_str (&b), b.n);
}
/* every single change of every seed: prefix, deletion, duplication, replacement, insertion, token deletion */
static void part_mutants (void)
{
	int s = mc_choose (NSEEDS), how = mc_choose (6), n = strlen (seeds[s]), i, j; SB b = {0}; const char *t = seeds[s];
	static const char al[] = "<>/a=\"' !-?[]&xk\n";
	i = mc_choose (n + 1); mc_shard ();
	switch (how) {
	case 0: sb_addn (&b, t, i); break;
	case 1: if (i == n) mc_skip (); j = 1 + mc_choose (4); if (i + j > n) mc_skip (); sb_addn (&b, t, i); sb_add (&b, t + i + j); break;
	case 2: if (i == n) mc_skip (); j = 1 + mc_choose (6); if (i + j > n) mc_skip (); sb_addn (&b, t, i + j); sb_add (&b, t + i); break;
	case 3: if (i == n) mc_skip (); sb_addn (&b, t, i); sb_c (&b, al[mc_choose (sizeof al - 1)]); sb_add (&b, t + i + 1); break;
	case 4: sb_addn (&b, t, i); sb_c (&b, al[mc_choose (sizeof al - 1)]); sb_add (&b, t + i); break;
	case 5: j = mc_choose (sizeof tok / sizeof *tok); sb_addn (&b, t, i); sb_add (&b, tok[j]); sb_add (&b, t + i); break;
	}
	judge (sb_str (&b), b.n);
}
/* pairs of one-byte changes of two short seeds */
static void part_pairs (void)
{
	static const char *sh[] = { "<r k='v'><c/>t</r>", "<r><!--c--><c></c></r>" }; static const char al[] = "<>/'= r";
	const char *t = sh[mc_choose (2)]; int i, k, n; char u[80];
	strcpy (u, t);
	for (k = 0; k < 2; k++) { int how = mc_choose (2); n = strlen (u);
		i = mc_choose (n);
		if (k == 0) mc_shard ();
		if (how == 0) memmove (u + i, u + i + 1, n - i);
		else { memmove (u + i + 1, u + i, n - i + 1); u[i] = al[mc_choose (7)]; } }
	judge (u, strlen (u));
}
/* many attributes, duplicated at every pair of positions and on both sides of the storage switch */
static void part_dup (void)
{
	int n = 2 + mc_choose (mc_thorough ? 24 : 14), i = mc_choose (n), j, k, same, deep; SB b = {0};
	j = mc_choose (n); mc_shard (); if (j <= i) mc_skip ();
	same = mc_choose (2); deep = mc_choose (2);
	sb_add (&b, deep ? "<r x='1'><n" : "<n");
	for (k = 0; k < n; k++) sb_f (&b, " k%d='v%d'", k == j && same ? i : k, k);
	sb_add (&b, deep ? "/></r>" : ">t</n>");
	judge (sb_str (&b), b.n);
}
/* nesting depth and closing order */
static void part_depth (void)
{
	static const int ds[] = { 1, 2, 9, 10, 11, 19, 20, 21, 60, 100 };
	int d = ds[mc_choose (10)], bad = mc_choose (d + 1), kind = mc_choose (4), i; SB b = {0}; mc_shard ();
	for (i = 0; i < d; i++) sb_f (&b, "<e%d>", i);
	for (i = d - 1; i >= 0; i--) {
		if (i == bad) switch (kind) { case 0: continue; case 1: sb_f (&b, "</e%d>", i + 1); continue; case 2: sb_f (&b, "</e%d></e%d>", i, i); continue; case 3: sb_f (&b, "</e%d", i); continue; }
		sb_f (&b, "</e%d>", i); }
	judge (sb_str (&b), b.n);
}
/* error objects: codes, messages and chains */
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (7)) {
	case 0: part_mutants (); break;
	case 1: part_dup (); break;
	case 2: part_depth (); break;
	case 3: part_pairs (); break;
	case 4: part_tokens (); break;
	case 5: part_inner (); break;
	case 6: part_bytes (); break;
	}
}
