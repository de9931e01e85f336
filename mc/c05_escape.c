/* C05: text set on a node is read back unchanged, for every short string over the characters the escaper tells apart. */
#include "ax.h"
const char *mc_name = "c05_escape";
void mc_init (void) { axl_init (); }

static const char *tok[] = { "a", "<", "&", "]", ">", "'", "\"", "amp;", "lt;", " ", "&gt;", "\xc3\xa1", "quot;", "apos;", "\n", "gt;", ";", "&#65;", "]]>", "&amp;", "<![CDATA[", "\t", "!", "--" };
#define NTOK 24
static int isws (int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int allws (const char *s) { while (*s && isws (*s)) s++; return !*s; }
static const char *ents[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;" };
static void escaped_ok (const char *s, const char *what, const char *forbid)
{
	int i; const char *p;
	for (p = s; *p; p++) { MC_CHECK (!strchr (forbid, *p), "%s stored as %s holds a raw %c", what, Q (s), *p);
		if (*p == '&') { for (i = 0; i < 5 && strncmp (p, ents[i], strlen (ents[i])); i++); MC_CHECK (i < 5, "%s stored as %s holds a bare &", what, Q (s)); } }
}
/* an exactly sized block: with an explicit length there is no terminator to rely on */
static char *exact (const char *t, int n, int term) { char *p = malloc (n + term ? n + term : 1); memcpy (p, t, n); if (term) p[n] = 0; return p; }
static void same (const char *what, const char *got, int n, const char *t, int len)
{
	if (!len) { MC_CHECK (!got || !*got, "%s is %s, expected nothing", what, Q (got)); MC_CHECK (n == 0, "%s reports %d bytes for an empty text", what, n); return; }
	MC_CHECK (got, "%s is missing, expected %s", what, Q (t));
	MC_CHECK ((int) strlen (got) == len && !memcmp (got, t, len), "%s is %s, expected %s", what, Q (got), Q (t));
	MC_CHECK (n == len, "%s reports %d bytes, expected %d (%s)", what, n, len, Q (t));
}
static void trans (axlNode *n, const char *t, const char *what)
{
	int s = -3; char *g = axl_node_get_content_trans (n, &s); same (what, g, s, t, strlen (t)); if (g) axl_free (g);
	g = axl_node_get_content_trans (n, NULL); same (what, g, strlen (t), t, strlen (t)); if (g) axl_free (g);
}
static axlDoc *again (axlNode *n, int file)   /* dump and parse: as a node, or as a document through a file */
{
	int s; char *t; axlDoc *d, *e;
	if (!file) { t = ax_dump_node (n, &s); return ax_parse_ok (t, s, "dump"); }
	d = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, axl_node_copy (n, axl_true, axl_true)); t = ax_fmt ("%s/x", mc_scratch);
	MC_CHECK (axl_doc_dump_to_file (d, t), "dump to file failed"); axl_doc_free (d); e = axl_doc_parse_from_file (t, NULL); MC_CHECK (e, "dumped file refused"); return e;
}
/* kind 0 content, 1 CDATA, 2 attribute; len -1: up to the end */
static void one (int kind, const char *full, int len, int deep)
{
	axlNode *n = axl_node_create ("n"); char *in, *g, *t = len < 0 ? ax_dup (full) : ax_dupn (full, len); axlDoc *d; int s, add = -4, L = strlen (t), cd, i;
	const char *c; in = len < 0 ? exact (full, strlen (full), 1) : exact (full, len, 0); mc_trans (1);
	switch (kind) {
	case 0: axl_node_set_content (n, in, len); break;
	case 1: axl_node_set_cdata_content (n, in, len); break;
	case 2: axl_node_set_attribute (n, "k", in); break;
	}
	free (in);
	if (kind == 2) {
		c = axl_node_get_attribute_value (n, "k"); escaped_ok (c, "an attribute", "<\"'");
		g = axl_node_get_attribute_value_trans (n, "k"); same ("the attribute", g, strlen (t), t, L); if (g) axl_free (g);
		d = again (n, deep & 1); g = axl_node_get_attribute_value_trans (axl_doc_get_root (d), "k"); same ("the attribute parsed back", g, L, t, L); if (g) axl_free (g);
		MC_CHECK (!strcmp (axl_node_get_attribute_value (axl_doc_get_root (d), "k"), c), "the stored attribute changed over dump and parse"); axl_doc_free (d);
	} else {
		int hascd = kind == 1 && strstr (t, "]]>");
		s = -2; c = axl_node_get_content (n, &s); MC_CHECK (s == (int) strlen (c), "content size %d for %s", s, Q (c));
		if (kind == 0) { escaped_ok (c, "content", "<"); MC_CHECK (!strstr (c, "]]>"), "content stored as %s", Q (c)); }
		if (!hascd) trans (n, t, "the text");
		g = axl_node_get_content_copy (n, &s); same ("the copied content", g, s, c, strlen (c)); axl_free (g);
		g = axl_node_get_content_copy (n, NULL); same ("the copied content", g, strlen (c), c, strlen (c)); axl_free (g);
		d = again (n, deep & 1); trans (axl_doc_get_root (d), kind == 0 && allws (t) ? "" : t, "the text parsed back");
		if (!hascd && (kind || !allws (t))) { const char *b = axl_node_get_content (axl_doc_get_root (d), &s); MC_CHECK (!strcmp (b, c) && s == (int) strlen (c), "the stored text changed over dump and parse: %s, was %s", Q (b), Q (c)); }
		axl_doc_free (d);
		/* in place trimming of the stored text */
		{ const char *b = c, *e = c + strlen (c); char *x; while (*b && isws (*b)) b++; while (e > b && isws (e[-1])) e--; x = ax_dupn (b, e - b);
		  s = -2; b = axl_node_get_content_trim (n, &s); same ("the trimmed content", b, s, x, strlen (x)); b = axl_node_get_content (n, &s); same ("the content after trimming", b, s, x, strlen (x)); }
	}
	axl_node_free (n);
	/* the helpers behind */
	for (cd = 0; cd < 2; cd++) {
		char *e; axl_bool has; in = exact (t, L, 0); add = -4;
		has = cd ? axl_node_has_invalid_chars_cdata (in, L, &add) : axl_node_has_invalid_chars (in, L, &add);
		MC_CHECK (!has == !strpbrk (t, "<>&'\"") && (!has || add > 0) && (has || add == 0), "has_invalid_chars of %s says %d (+%d)", Q (t), has, add);
		MC_CHECK (!has == !(cd ? axl_node_has_invalid_chars_cdata (in, L, NULL) : axl_node_has_invalid_chars (in, L, NULL)), "has_invalid_chars depends on the size reference");
		e = cd ? axl_node_content_copy_and_escape_cdata (in, L, add) : axl_node_content_copy_and_escape (in, L, add); free (in);
		MC_CHECK ((int) strlen (e) == L + add, "escaping %s gives %s, announced %d more bytes", Q (t), Q (e), add);
		if (!cd) { escaped_ok (e, "escaped text", "<>'\""); s = L + add; g = axl_node_content_translate_defaults (e, &s); MC_CHECK (g == e, "translation returns another block"); same ("the translation", g, s, t, L); }
		axl_free (e);
	}
	/* translating a sized piece of text never looks past it */
	if (deep & 2) for (i = 1; i <= L; i++) {
		SB x = {0}; const char *p = t, *e = t + i; int k; in = malloc (i + 1); memcpy (in, t, i); in[i] = t[i]; s = i;
		while (p < e) { for (k = 0; k < 5 && !(e - p >= (int) strlen (ents[k]) && !strncmp (p, ents[k], strlen (ents[k]))); k++); if (k < 5) { sb_c (&x, "&<>\"'"[k]); p += strlen (ents[k]); } else sb_c (&x, *p++); }
		g = axl_node_content_translate_defaults (in, &s); same ("the sized translation", g, s, sb_str (&x), x.n); free (in);
	}
	mc_nontrivial ();
}
static const char *knm[] = { "content", "CDATA", "attribute" };
void mc_case (void)
{
	int part, kind, n, i, len; SB b = {0}; char *t; ax_reset (); part = mc_choose (5);
	if (part == 0) {                 /* all short token strings, whole and cut at every length */
		int max = mc_thorough ? 6 : 5, nt; kind = mc_choose (3); n = mc_choose (max + 1); nt = mc_thorough ? (n == 6 ? 11 : n == 5 ? 18 : NTOK) : (n == 5 ? 10 : n == 4 ? 18 : NTOK);
		for (i = 0; i < n; i++) { sb_add (&b, tok[mc_choose (nt)]); if (i == 1) mc_shard (); }
		if (n < 2) mc_shard ();
		t = sb_str (&b); mc_desc ("%s %s", knm[kind], Q (t)); mc_state (mc_hash (t, strlen (t), kind));
		one (kind, t, -1, n <= 3 ? 3 : 2);
		if (kind < 2 && n <= 3) { int l, L = strlen (t); for (l = 0; l <= L; l++) { one (kind, t, l, 0); } }
	} else if (part == 1) {          /* all byte strings over the most ambiguous characters */
		static const char al[] = "&]><a"; int max = mc_thorough ? 8 : 7; kind = mc_choose (3); n = mc_choose (max + 1);
		for (i = 0; i < n; i++) { sb_c (&b, al[mc_choose (n > 6 ? 4 : 5)]); if (i == 2) mc_shard (); } if (n < 3) mc_shard ();
		t = sb_str (&b); mc_desc ("%s %s", knm[kind], Q (t)); one (kind, t, -1, 0); if (kind < 2 && n) one (kind, t, n - 1, 0);
	} else if (part == 2) {          /* several pieces of text in one node: each one translated on its own */
		static const char *pc[] = { "&", "amp;", "a<", "&lt;", "]]", ">", "\"x'" }; int k[4]; axlNode *nd; axlDoc *d; SB e = {0}; n = 2 + mc_choose (mc_thorough ? 3 : 2); nd = NULL;
		for (i = 0; i < n; i++) { k[i] = mc_choose (7) * 3 + mc_choose (3); if (i == 0) mc_shard (); }
		nd = axl_node_create ("n");
		for (i = 0; i < n; i++) { const char *p = pc[k[i] / 3]; mc_desc (" %s(%s)", k[i] % 3 == 1 ? "cdata" : k[i] % 3 == 2 ? "child+content" : "content", p); mc_trans (1);
			if (k[i] % 3 == 2) axl_node_set_child (nd, axl_node_create ("c"));
			if (k[i] % 3 == 1) axl_node_set_cdata_content (nd, p, -1); else axl_node_set_content (nd, p, -1); sb_add (&e, p); }
		trans (nd, sb_str (&e), "the joined text"); d = again (nd, 0); trans (axl_doc_get_root (d), sb_str (&e), "the joined text parsed back"); axl_doc_free (d); axl_node_free (nd); mc_nontrivial ();
	} else if (part == 3) {          /* sizes: a special piece at the start, the end or around a size boundary */
		static const int sz[] = { 1, 2, 7, 10, 255, 1000, 1015, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 8180, 8185, 8188, 8189, 8190, 8191, 8192, 8193, 8194, 8200, 16383, 16384, 16385, 40000 }; static const char *sp[] = { "&", "<", "]]>", "\"", "&amp;", "\xc3\xa1" }; int S, w, q;
		kind = mc_choose (3); S = sz[mc_choose (34)]; q = mc_choose (6); mc_shard (); w = mc_choose (4); n = w == 1 ? S : w == 2 ? S / 2 : 0; 
		if (w == 3) { if (S > 9000) mc_skip (); for (i = 0; i < S; i++) sb_add (&b, sp[q]); } else { sb_add (&b, ax_rep ('x', n)); sb_add (&b, sp[q]); sb_add (&b, ax_rep ('y', S - n)); }
		mc_desc ("%s of %d bytes, %s at %s", knm[kind], S, Q (sp[q]), w == 0 ? "start" : w == 1 ? "end" : w == 2 ? "middle" : "everywhere"); one (kind, sb_str (&b), -1, 1); if (kind < 2) one (kind, sb_str (&b), b.n - 1, 0);
	} else {                         /* every byte value, alone and between others */
		int c = 1 + mc_choose (255), w; kind = mc_choose (3); w = mc_choose (4); mc_shard (); if (w & 1) sb_add (&b, "p&"); sb_c (&b, c); if (w & 2) sb_add (&b, "<q"); mc_desc ("%s %s", knm[kind], Q (sb_str (&b))); one (kind, sb_str (&b), -1, 2); if (kind < 2) for (len = 0; len <= b.n; len++) one (kind, sb_str (&b), len, 0);
	}
}
