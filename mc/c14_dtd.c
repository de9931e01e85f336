/* C14: DTD content models against an independent regular-expression matcher. */
#include "ax.h"
const char *mc_name = "c14_dtd";
#define NL 5
#define MAXLEN 5
static axlDoc *docs[4000]; static int dlen[4000]; static char dseq[4000][MAXLEN + 1]; static int ndocs;
void mc_init (void)
{
	int len, i, j, tot; axl_init ();
	for (len = 0; len <= MAXLEN; len++) { for (tot = 1, i = 0; i < len; i++) tot *= NL;
		for (i = 0; i < tot; i++) { int v = i; axlNode *r; axlDoc *d = axl_doc_create ("1.0", NULL, 0); r = axl_node_create ("r"); axl_doc_set_root (d, r);
			for (j = 0; j < len; j++) { char nm[2] = { 'a' + v % NL, 0 }; axlNode *c = axl_node_create (nm); dseq[ndocs][j] = nm[0]; axl_node_set_child (r, c); v /= NL; }
			dlen[ndocs] = len; docs[ndocs++] = d; } }
}
/* ---- content models ---- */
enum { LEAF, SEQ, CHO };
typedef struct M { int type, nk; char rep, name; struct M *k[6]; int pos; } M;
static int budget_rep, used, npos, nleaf; static M *leafs[16];
static char rep (void) { int r; if (!budget_rep) return 0; r = mc_choose (4); if (r) budget_rep--; return r ? "?*+"[r - 1] : 0; }
static M *leaf (void) { M *m = ax_alloc (sizeof *m); memset (m, 0, sizeof *m); int c = mc_choose (used < 4 ? used + 1 : 4); m->type = LEAF; m->name = 'a' + c; if (c == used) used++; m->rep = rep (); if (++nleaf == 2) mc_shard (); return m; }
static int singles;
/* a group holding exactly n leaves, nesting at most depth */
static M *group (int n, int depth)
{
	M *m = ax_alloc (sizeof *m); memset (m, 0, sizeof *m); int left = n;
	while (left) { int take, nest;
		/* next kid: a leaf, or a nested group with 1..left leaves */
		if (depth > 0) { nest = mc_choose (left + 1); } else nest = 0;
		if (nest == 0) { m->k[m->nk++] = leaf (); left--; continue; }
		take = nest;
		if (take == n && m->nk == 0) { if (singles <= 0) mc_skip (); singles--; }   /* group holding one group only */
		else if (take == 1) { if (singles <= 0) mc_skip (); singles--; }
		m->k[m->nk++] = group (take, depth - 1); left -= take; }
	m->type = m->nk > 1 && mc_choose (2) ? CHO : SEQ; m->rep = rep (); return m;
}
static void show (SB *b, M *m, int style)
{
	int i; const char *sp = style == 1 ? " " : style == 2 ? "\n\t " : "";
	if (m->type == LEAF) { sb_c (b, m->name); if (m->rep) sb_c (b, m->rep); return; }
	sb_c (b, '('); sb_add (b, sp); for (i = 0; i < m->nk; i++) { if (i) { sb_add (b, sp); sb_c (b, m->type == SEQ ? ',' : '|'); sb_add (b, sp); } show (b, m->k[i], style); } sb_add (b, sp); sb_c (b, ')'); if (m->rep) sb_c (b, m->rep);
}
/* set of end positions reachable from a set of start positions */
static unsigned once (M *m, const char *s, int n, unsigned from);
static unsigned mat (M *m, const char *s, int n, unsigned from)
{
	unsigned r, all, nx;
	switch (m->rep) { case 0: return once (m, s, n, from); case '?': return from | once (m, s, n, from);
	default: all = m->rep == '*' ? from : 0; r = from; do { r = once (m, s, n, r); nx = all | r; if (nx == all) break; all = nx; } while (r); return all; }
}
static unsigned once (M *m, const char *s, int n, unsigned from)
{
	int i; unsigned r = 0;
	if (m->type == LEAF) { for (i = 0; i < n; i++) if ((from >> i & 1) && s[i] == m->name) r |= 1u << (i + 1); return r; }
	if (m->type == SEQ) { for (i = 0; i < m->nk && from; i++) from = mat (m->k[i], s, n, from); return from; }
	for (i = 0; i < m->nk; i++) r |= mat (m->k[i], s, n, from); return r;
}
/* Glushkov construction, to keep the deterministic models only */
static unsigned follow[16]; typedef struct { unsigned first, last; int null; } G;
static G glu (M *m)
{
	G g; int i; unsigned p;
	if (m->type == LEAF) { m->pos = npos; leafs[npos] = m; follow[npos] = 0; g.first = g.last = 1u << npos++; g.null = 0; }
	else if (m->type == SEQ) { g.first = g.last = 0; g.null = 1; for (i = 0; i < m->nk; i++) { G k = glu (m->k[i]); for (p = 0; p < 16; p++) if (g.last >> p & 1) follow[p] |= k.first; if (g.null) g.first |= k.first; g.last = k.null ? g.last | k.last : k.last; g.null &= k.null; } }
	else { g.first = g.last = 0; g.null = 0; for (i = 0; i < m->nk; i++) { G k = glu (m->k[i]); g.first |= k.first; g.last |= k.last; g.null |= k.null; } }
	if (m->rep == '*' || m->rep == '+') for (p = 0; p < 16; p++) if (g.last >> p & 1) follow[p] |= g.first;
	if (m->rep == '?' || m->rep == '*') g.null = 1;
	return g;
}
static int amb (unsigned s) { int i; unsigned seen = 0; for (i = 0; i < npos; i++) if (s >> i & 1) { unsigned b = 1u << (leafs[i]->name - 'a'); if (seen & b) return 1; seen |= b; } return 0; }
static int deterministic (M *m) { int i; G g; npos = 0; g = glu (m); if (amb (g.first)) return 0; for (i = 0; i < npos; i++) if (amb (follow[i])) return 0; return 1; }

static int validate (axlDoc *d, axlDtd *t, const char *what)
{
	axlError *e = NULL; int r = axl_dtd_validate (d, t, &e); mc_trans (1);
	MC_CHECK (r ? e == NULL : e != NULL, "%s: validation %s %s an error", what, r ? "succeeded" : "failed", r ? "with" : "without");
	if (e) { MC_CHECK (ax_err (e), "%s: empty error", what); axl_error_free (e); }
	return r;
}
static axlDtd *dtd (const char *t) { axlError *e = NULL; axlDtd *d = axl_dtd_parse (t, -1, &e); MC_CHECK (d, "DTD not parsed: %s", e ? axl_error_get (e) : "(no error)"); MC_CHECK (!e, "DTD parsed with an error"); return d; }
static void models (void)
{
	int n, i, letters, L, style = 0, big, nested; M *m; SB b = {0}; axlDtd *t; int acc = 0, rej = 0;
	big = mc_choose (3); used = nleaf = 0;
	if (big == 0) { n = 1 + mc_choose (3); singles = 1; budget_rep = 5; }              /* every repetition mark on every particle */
	else if (big == 1) { n = 4; singles = 0; budget_rep = mc_thorough ? 3 : 1; }       /* four particles, few repetition marks */
	else { n = 1 + mc_choose (3); singles = 2; budget_rep = 2; style = 1 + mc_choose (2); }
	m = group (n, n == 4 ? 2 : 3); if (nleaf < 2) mc_shard (); if (!deterministic (m)) mc_skip ();
	sb_add (&b, "<!ELEMENT r "); show (&b, m, style); sb_add (&b, "><!ELEMENT a EMPTY><!ELEMENT b EMPTY><!ELEMENT c EMPTY><!ELEMENT d EMPTY><!ELEMENT e EMPTY>"); mc_desc ("%s", sb_str (&b));
	t = dtd (sb_str (&b)); letters = used + 1; L = letters <= 3 ? 5 : 4; if (big == 2) L = 3;
	for (i = 0; i < ndocs && dlen[i] <= L; i++) { int j, x, r, ok = 1; for (j = 0; j < dlen[i]; j++) if (dseq[i][j] - 'a' >= letters) { ok = 0; break; } if (!ok) continue;
		x = mat (m, dseq[i], dlen[i], 1) >> dlen[i] & 1; r = validate (docs[i], t, dseq[i]);
		MC_CHECK (r == x, "children \"%s\" %s", dseq[i], x ? "rejected" : "accepted"); if (x) acc++; else rej++;
		if (dlen[i] <= 2) MC_CHECK (validate (docs[i], t, dseq[i]) == x, "second validation of \"%s\" differs", dseq[i]); }
	mc_state (mc_hash (b.p, b.n, 3)); axl_dtd_free (t); mc_nontrivial (); mc_outcome (acc && rej ? "both verdicts" : acc ? "accepts all" : "rejects all");
	if (acc) mc_outcome ("models accepting something");
}
/* ---- EMPTY, ANY, text and mixed declarations with every content of up to 3 items ---- */
static void kinds (void)
{
	static const char *decl[] = { "EMPTY", "ANY", "(#PCDATA)", "(#PCDATA)*", "(#PCDATA|a)*", "(#PCDATA | a | b)*", "( #PCDATA |b )*", "(a|b)*", "(a)" , "(a?,b?)" };
	static const char *item[] = { "<a/>", "<b/>", "<c/>", "<u/>", "text", "<![CDATA[cd]]>" }; static const char nm[] = "abcu";
	int k = mc_choose (10), n = mc_choose (mc_thorough ? 6 : 5), i, chars = 0, els = 0, exp = 1, seq[6], r; SB b = {0}, c = {0}; axlDtd *t; axlDoc *d; char *dump, *dump2; int dn; char order[8];
	for (i = 0; i < n; i++) { seq[i] = mc_choose (6); if (seq[i] > 3) chars++; else order[els++] = nm[seq[i]]; } order[els] = 0; mc_shard ();
	sb_f (&b, "<!ELEMENT r %s><!ELEMENT a EMPTY><!ELEMENT b (#PCDATA)><!ELEMENT c EMPTY>", decl[k]); sb_add (&c, "<r>"); for (i = 0; i < n; i++) sb_add (&c, item[seq[i]]); sb_add (&c, "</r>"); mc_desc ("%s %s", sb_str (&b), sb_str (&c));
	if (k == 0) exp = n == 0; else if (k == 1) exp = 1; else if (k <= 3) exp = els == 0;
	else { if (k >= 7 && chars) mc_skip ();   /* character data between the elements of element content is not judged */
		const char *allow = k == 4 ? "a" : k == 5 || k == 7 ? "ab" : k == 6 ? "b" : "";
		if (k == 8) exp = !strcmp (order, "a"); else if (k == 9) exp = !strcmp (order, "") || !strcmp (order, "a") || !strcmp (order, "b") || !strcmp (order, "ab"); else for (i = 0; i < els; i++) if (!strchr (allow, order[i])) exp = 0; }
	t = dtd (sb_str (&b)); d = ax_parse_ok (sb_str (&c), c.n, "content"); dump = ax_dump (d, &dn);
	r = validate (d, t, "content"); MC_CHECK (r == exp, "%s", exp ? "rejected" : "accepted"); MC_CHECK (validate (d, t, "again") == exp, "second verdict differs");
	dump2 = ax_dump (d, &dn); MC_CHECK (!strcmp (dump, dump2), "validation changed the document"); axl_doc_free (d); axl_dtd_free (t); mc_nontrivial (); mc_outcome (exp ? "valid" : "invalid");
}
/* ---- several levels, recursive declarations, any root ---- */
static const char *LV[] = { NULL, "EMPTY", "ANY", "(#PCDATA)", "(a,b)?", "(a|b)*", "(b*)", "(#PCDATA|a)*", "(r?)", "(a+)" };
typedef struct T { int lab, nk; struct T *k[4]; } T;
static int tn; static T *tree (int n) { T *t = ax_alloc (sizeof *t); memset (t, 0, sizeof *t); t->lab = mc_choose (4); n--; while (n) { int k = 1 + mc_choose (n); t->k[t->nk++] = tree (k); n -= k; } return t; }
static int decls[4];
static int okt (T *t)
{
	int i, d = t->lab < 3 ? decls[t->lab] : 0; const char *s; char o[8] = "";
	if (!d) return 0; if (d == 2) return 1;
	for (i = 0; i < t->nk; i++) o[i] = "rabu"[t->k[i]->lab]; o[t->nk] = 0;
	switch (d) { case 1: case 3: if (t->nk) return 0; break; case 4: if (strcmp (o, "") && strcmp (o, "ab")) return 0; break; case 5: if (strspn (o, "ab") != strlen (o)) return 0; break; case 6: if (strspn (o, "b") != strlen (o)) return 0; break; case 7: if (strspn (o, "a") != strlen (o)) return 0; break; case 8: if (strcmp (o, "") && strcmp (o, "r")) return 0; break; case 9: if (!o[0] || strspn (o, "a") != strlen (o)) return 0; break; }
	for (i = 0; i < t->nk; i++) if (!okt (t->k[i])) return 0; (void) s; return 1;
}
static void ser (SB *b, T *t) { int i; sb_f (b, "<%c>", "rabu"[t->lab]); for (i = 0; i < t->nk; i++) ser (b, t->k[i]); sb_f (b, "</%c>", "rabu"[t->lab]); }
static void levels (void)
{
	int i, n = 1 + mc_choose (mc_thorough ? 4 : 3), x, order; T *t = tree (n); SB b = {0}, c = {0}; axlDtd *dt; axlDoc *d; ser (&b, t); d = NULL;
	decls[0] = mc_choose (10); decls[1] = mc_choose (10); mc_shard (); decls[2] = mc_choose (10); if (!decls[0] && !decls[1] && !decls[2]) mc_skip ();
	order = (decls[0] * 7 + decls[1] * 3 + decls[2]) % 2;
	for (i = 0; i < 3; i++) { int q = order ? 2 - i : i; if (decls[q]) sb_f (&c, "<!ELEMENT %c %s>\n", "rab"[q], LV[decls[q]]); }
	mc_desc ("%s %s", sb_str (&c), sb_str (&b)); x = okt (t); dt = dtd (sb_str (&c)); d = ax_parse_ok (sb_str (&b), b.n, "levels");
	MC_CHECK (validate (d, dt, "levels") == x, "%s", x ? "rejected" : "accepted"); MC_CHECK (validate (d, dt, "levels again") == x, "second verdict differs"); { int dn; RN *m = ax_model (axl_doc_get_root (d)); (void) dn; SB e = {0}; rn_show (&e, m); mc_state (mc_hash (e.p, e.n, decls[0] * 100 + decls[1] * 10 + decls[2])); }
	axl_doc_free (d); axl_dtd_free (dt); mc_nontrivial (); mc_outcome (x ? "valid tree" : "invalid tree");
}
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (3)) { case 0: models (); break; case 1: kinds (); break; default: levels (); }
}
