/* C03: no input makes the parsers crash, hang, touch foreign memory or leak.  The oracle is the
 * sanitizer (invalid access), the heap balance of the case, the watchdog, and result/error agreement. */
#include "ax.h"
#include "seeds.h"
#include <axl_ns.h>
const char *mc_name = "c03_safety";
static axlDtd *vdtd;
static const char *vdtd_text = "<!ELEMENT r (a|b|c1|c2|c|x)*> <!ELEMENT a (#PCDATA|b|c)*> <!ELEMENT b (a?,c?)> <!ELEMENT c EMPTY> <!ATTLIST a k CDATA #IMPLIED j (v|w) 'v'> <!ATTLIST b k ID #REQUIRED>";
static axlDoc *vdocs[3];
void mc_init (void)
{
	axlError *e = NULL; static const char *vd[] = { "<r><a k='v'>t<b k='i'/></a><c/></r>", "<a/>", "<r k='1'>text<b/><b k='x'><a/><c/></b></r>" }; int i;
	axl_init ();
	vdtd = axl_dtd_parse (vdtd_text, -1, &e); if (!vdtd) { fprintf (stderr, "dtd: %s\n", axl_error_get (e)); exit (3); }
	for (i = 0; i < 3; i++) vdocs[i] = axl_doc_parse (vd[i], -1, NULL);
}
static axl_bool visit (axlNode *n, axlNode *p, axlDoc *d, axl_bool *removed, axlPointer a) { (*(int *) a)++; return axl_true; }

static void exercise (axlDoc *d, int nul)
{
	char *o = NULL; int n = 0, cnt = 0; axlNode *r = axl_doc_get_root (d), *c; axlError *e = NULL; axlDoc *d2;
	MC_CHECK (r, "document without root");
	MC_CHECK (axl_doc_dump (d, &o, &n), "dump failed"); MC_CHECK (nul || (int) strlen (o) == n, "dump size %d, length %d", n, (int) strlen (o));
	MC_CHECK (axl_doc_get_flat_size (d) == n, "flat size %d, dumped %d", axl_doc_get_flat_size (d), n);
	d2 = axl_doc_parse (o, n, NULL); if (d2) axl_doc_free (d2); axl_free (o); o = NULL;
	if (axl_doc_dump_pretty (d, &o, &n, 3)) axl_free (o);
	c = axl_node_copy (r, axl_true, axl_true); MC_CHECK (axl_node_are_equal (r, c), "copy differs"); axl_node_free (c);
	MC_CHECK (axl_doc_are_equal (d, d), "document differs from itself");
	axl_doc_iterate (d, DEEP_ITERATION, visit, &cnt);
	if (!axl_dtd_validate (d, vdtd, &e)) { MC_CHECK (ax_err (e), "validation failed without an error"); axl_error_free (e); } else MC_CHECK (!e, "validation succeeded with an error");
	axl_doc_get (d, "/r/a"); axl_doc_get_content_at (d, "/r/b", NULL);
	e = NULL;
	if (!axl_ns_doc_validate (d, &e)) { if (e) axl_error_free (e); }
	mc_trans (8); mc_nontrivial ();
}
static void doc_case (const char *t, int n)
{
	axlDoc *d; mc_desc ("doc %s", mc_q (t, n));
	d = ax_parse_full (t, n, NULL); mc_state (mc_hash (t, n, d != NULL)); mc_outcome (d ? "doc accepted" : "doc refused");
	if (d) { exercise (d, (int) strlen (t) != n); axl_doc_free (d); }
}
static void node_case (const char *t)
{
	axlError *e = NULL; axlNode *nd; mc_desc ("node %s", Q (t));
	nd = axl_node_parse (&e, "%s", t); mc_trans (1);
	if (nd) { int n; char *o = NULL; MC_CHECK (!e, "node returned with error"); axl_node_dump (nd, &o, &n); axl_free (o); axl_node_free (nd); mc_outcome ("node accepted"); }
	else { MC_CHECK (e, "no error"); axl_error_free (e); mc_outcome ("node refused"); }
}
static void dtd_case (const char *t, int n)
{
	axlError *e = NULL; char *x = malloc (n ? n : 1); axlDtd *d; int i;
	memcpy (x, t, n); mc_desc ("dtd %s", mc_q (t, n));
	d = axl_dtd_parse (x, n, &e); free (x); mc_trans (1); mc_state (mc_hash (t, n, d != NULL)); mc_outcome (d ? "dtd accepted" : "dtd refused");
	if (!d) { MC_CHECK (e, "DTD refused without error"); MC_CHECK (ax_err (e), "empty message or code 0"); axl_error_free (e); mc_nontrivial (); return; }
	MC_CHECK (!e, "DTD returned together with an error: %s", axl_error_get (e));
	for (i = 0; i < 3; i++) { e = NULL;
		if (!axl_dtd_validate (vdocs[i], d, &e)) { MC_CHECK (ax_err (e), "validation of document %d failed without an error", i); axl_error_free (e); } else MC_CHECK (!e, "validation succeeded with an error"); }
	MC_CHECK (axl_dtd_are_equal (d, d), "DTD differs from itself");
	axl_dtd_get_root (d); axl_dtd_get_element (d, "a"); axl_dtd_get_attr (d, "a");
	mc_trans (5); mc_nontrivial ();
	axl_dtd_free (d);
}
static const char al[] = "<>/a=\"' !-?[]&;#x\n%\x80\xc3\xff";
#define NAL ((int) sizeof al)                /* includes the NUL byte */
static const char *dseeds[] = {
	"<!ELEMENT a (b,c?)>",
	"<!ELEMENT a (b|c)*>\n<!ELEMENT b EMPTY>",
	"<!-- c --><!ELEMENT a ((b,c)+|d?)><!ELEMENT b (#PCDATA)><!ELEMENT c ANY>",
	"<!ELEMENT a (#PCDATA | b)*>",
	"<!ATTLIST a k CDATA #REQUIRED j (u|v) \"u\" l ID #IMPLIED>",
	"<!ELEMENT a (#PCDATA)>\n<!ATTLIST a\n   k CDATA #FIXED 'x'\n  m NMTOKEN #IMPLIED>",
	"<!ENTITY n \"v\">\n<!ENTITY % p 'w'>",
	"<!ENTITY s SYSTEM 'u'><!ENTITY q PUBLIC 'i' \"u\"><!ENTITY z SYSTEM 'u' NDATA gif>",
	"<!ELEMENT r (a,r?)><!ELEMENT a EMPTY>",
};
#define NDS ((int) (sizeof dseeds / sizeof *dseeds))
static const char *dtok[] = { "<!ELEMENT ", "a ", "b", "(", ")", ",", "|", "*", "?", "+", ">", "EMPTY", "ANY", "#PCDATA", "<!ATTLIST ", "CDATA ", "#REQUIRED", "#IMPLIED", "'v'", "ID ", "<!ENTITY ", "% ", "SYSTEM ", "PUBLIC ", "NDATA ", "\"w\"", "<!--", "-->", " ", "<?p q?>", "#FIXED ", "IDREF " };
#define NDT ((int) (sizeof dtok / sizeof *dtok))
static const char *ttok[] = { "<a>", "</a>", "<b k='&x;'>", "</b>", "&", "&#", "<!DOCTYPE a [", "]>", "<?xml version='1.0' encoding='", "standalone='", "'?>", "<a", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "/>", " k='", "'", "\x80", "xmlns:b='u'" };
#define NTT ((int) (sizeof ttok / sizeof *ttok))

static int mutate (SB *b, const char *t, const char **tk, int ntk)
{
	int n = strlen (t), how = mc_choose (6), i = mc_choose (n + 1), j; mc_shard ();
	switch (how) {
	case 0: sb_addn (b, t, i); break;
	case 1: if (i == n) mc_skip (); j = 1 + mc_choose (4); if (i + j > n) mc_skip (); sb_addn (b, t, i); sb_add (b, t + i + j); break;
	case 2: if (i == n) mc_skip (); sb_addn (b, t, i); sb_c (b, al[mc_choose (NAL)]); sb_add (b, t + i + 1); break;
	case 3: sb_addn (b, t, i); sb_c (b, al[mc_choose (NAL)]); sb_add (b, t + i); break;
	case 4: sb_addn (b, t, i); sb_add (b, tk[mc_choose (ntk)]); sb_add (b, t + i); break;
	case 5: if (i == n) mc_skip (); j = 1 + mc_choose (8); if (i + j > n) mc_skip (); sb_addn (b, t, i + j); sb_add (b, t + i); break;
	}
	return b->n;
}
void mc_case (void)
{
	SB b = {0}; int len, i, part; ax_reset ();
	part = mc_choose (9);
	switch (part) {
	case 0: { int s = mc_choose (NSEEDS); mutate (&b, seeds[s], ttok, NTT); doc_case (sb_str (&b), b.n); break; }
	case 1: { int s = mc_choose (NDS); mutate (&b, dseeds[s], dtok, NDT); dtd_case (sb_str (&b), b.n); break; }
	case 2: len = mc_choose (mc_thorough ? 6 : 5); for (i = 0; i < len; i++) sb_add (&b, ttok[mc_choose (NTT)]); mc_shard (); doc_case (sb_str (&b), b.n); break;
	case 3: len = mc_choose (mc_thorough ? 6 : 5); for (i = 0; i < len; i++) sb_add (&b, dtok[mc_choose (i == 0 || len < 5 ? NDT : 18)]); mc_shard (); dtd_case (sb_str (&b), b.n); break;
	case 4: /* content models: all token strings inside a declaration */
		len = mc_choose (mc_thorough ? 8 : 7); sb_add (&b, "<!ELEMENT a (");
		for (i = 0; i < len; i++) { static const char *ct[] = { "b", "(", ")", ",", "|", "*", "?", " ", "#PCDATA" }; sb_add (&b, ct[mc_choose (len > 5 ? 7 : 9)]); }
		mc_shard (); sb_add (&b, mc_choose (2) ? ")>" : ">"); dtd_case (sb_str (&b), b.n); break;
	case 5: /* attribute lists */
		len = mc_choose (mc_thorough ? 7 : 6); sb_add (&b, "<!ATTLIST a ");
		for (i = 0; i < len; i++) { static const char *ct[] = { "k ", "CDATA ", "(", "v", "|", ") ", "#REQUIRED ", "'v' ", "#FIXED ", " " }; sb_add (&b, ct[mc_choose (10)]); }
		mc_shard (); sb_add (&b, ">"); dtd_case (sb_str (&b), b.n); break;
	case 6: len = mc_choose (mc_thorough ? 6 : 5); for (i = 0; i < len; i++) sb_c (&b, al[mc_choose (NAL)]); mc_shard (); doc_case (sb_str (&b), b.n); break;
	case 7: { int s = mc_choose (NSEEDS); char *z; mutate (&b, seeds[s], ttok, NTT); z = sb_str (&b); if ((int) strlen (z) != b.n) mc_skip (); node_case (z); break; }
	case 8: len = mc_choose (mc_thorough ? 6 : 5); sb_add (&b, "<!ENTITY ");
		for (i = 0; i < len; i++) { static const char *ct[] = { "n ", "% ", "'v'", "\"w\" ", "SYSTEM ", "PUBLIC ", "NDATA ", " " }; sb_add (&b, ct[mc_choose (8)]); }
		mc_shard (); sb_add (&b, ">"); dtd_case (sb_str (&b), b.n); break;
	}
}
