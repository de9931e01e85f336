/* C06: the parse result does not depend on how the bytes arrive.  Every read the library makes goes through
   __wrap_read, which serves the bytes of a real file but ends each read where the enumerated plan says. */
#include "ax.h"
#include "seeds.h"
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
const char *mc_name = "c06_deliver";
void mc_init (void) { axl_init (); }

/* ---------------------------------------------- controlled reads */
ssize_t __real_read (int fd, void *buf, size_t n);
static struct { int on, cut[4], ncut, every, errat, err, hits, pos, reads; } plan;
ssize_t __wrap_read (int fd, void *buf, size_t n)
{
	int i; ssize_t r; long lim = n;
	if (!plan.on) return __real_read (fd, buf, n);
	plan.reads++;
	if (plan.reads > 200000) mc_fail ("reading does not stop: %d reads", plan.reads);
	if (plan.err && plan.pos >= plan.errat) { if (plan.err == EINTR ? plan.hits == 0 : 1) { plan.hits++; if (plan.hits > 1000) mc_fail ("reading goes on for ever after a read error"); errno = plan.err; return -1; } }
	else if (plan.err && plan.errat - plan.pos < lim) lim = plan.errat - plan.pos;
	if (plan.every && plan.every < lim) lim = plan.every;
	for (i = 0; i < plan.ncut; i++) if (plan.cut[i] > plan.pos && plan.cut[i] - plan.pos < lim) lim = plan.cut[i] - plan.pos;
	r = __real_read (fd, buf, lim);
	if (r > 0) plan.pos += r;
	return r;
}
static void plan_clear (void) { memset (&plan, 0, sizeof plan); }

/* ---------------------------------------------- observation */
static char *sig (axlDoc *d)
{
	SB b = { 0 }; axlList *l; int i; const char *e = axl_doc_get_encoding (d);
	sb_f (&b, "enc=%s alone=%d ", e ? e : "", !!axl_doc_get_standalone (d));
	l = axl_doc_get_pi_target_list (d);
	for (i = 0; l && i < axl_list_length (l); i++) { axlPI *p = axl_list_get_nth (l, i); sb_f (&b, "<?%s %s?>", axl_pi_get_name (p), axl_pi_get_content (p) ? axl_pi_get_content (p) : "(none)"); }
	sb_add (&b, rn_str (ax_model (axl_doc_get_root (d))));
	return sb_str (&b);
}
static char *settle (axlDoc *d, axlError *err, const char *how)
{
	char *s;
	if (d) { MC_CHECK (!err, "%s: a document and an error (%s)", how, axl_error_get (err)); s = sig (d); axl_doc_free (d); return s; }
	MC_CHECK (err, "%s: no document and no error", how); MC_CHECK (ax_err (err), "%s: an error without text or code", how);
	axl_error_free (err); return NULL;
}
static char *from_memory (const char *t, int n) { axlError *err = NULL; axlDoc *d = ax_parse_full (t, n, &err); return settle (d, err, "from memory"); }
static const char *path;
static char *from_file (void)
{
	axlError *err = NULL; axlDoc *d; int a = dup (0), b; char *s; close (a);
	plan.pos = plan.reads = plan.hits = 0; plan.on = 1; d = axl_doc_parse_from_file (path, &err); plan.on = 0; mc_trans (1);
	b = dup (0); close (b); MC_CHECK (a == b, "the file is left open after parsing (%s)", d ? "accepted" : "refused");
	s = settle (d, err, "from file"); return s;
}
static void put_file (const char *t, int n) { path = ax_fmt ("%s/doc", mc_scratch); ax_write_file (path, t, n); }
static void same (const char *how, char *m, char *f)
{
	MC_CHECK (!m == !f, "%s: %s, from memory it is %s", how, f ? "accepted" : "refused", m ? "accepted" : "refused");
	if (m) MC_CHECK (!strcmp (m, f), "%s: %s, from memory %s", how, Q (f), Q (m));
	mc_state (mc_hash (m ? m : "refused", m ? strlen (m) : 7, 1)); mc_outcome (m ? "document" : "refused"); mc_nontrivial ();
}

/* ---------------------------------------------- documents */
static const char *more[] = {
	"<r><![CDATA[a]]b]]]]><![CDATA[]]></r>",
	"<r><!----><!-- - -- x --></r>",
	"<r><?p?><?q ?><?r s ? > t?></r>",
	"<a1 b='\"' c=\"'\" d = 'x>y' e\n=\n'1'>t<b/ >u</a1\n>",
	"<a><b></b><c>x</c>y<d>z</d></a><!-- e --><?f g?>",
	"<r>&lt;&#65;&quot;&apos;</r>",
	"<r>x</q>", "<r><a></r></a>", "<r/><r/>", "<r a='1' a='2'/>", "<r><!-- </r>", "<r><![CDATA[ ]] ></r>", "<r", "<r>x</r>y", "", "<?xml version='1.0'", "<r>", "<r></r",
};
#define NMORE ((int) (sizeof more / sizeof *more))
#define NDOC (NSEEDS + NMORE)
static const char *docs (int i) { return i < NSEEDS ? seeds[i] : more[i - NSEEDS]; }

static void part_cuts (void)
{
	const char *t = docs (mc_choose (NDOC)); int n = strlen (t), i, nc = mc_choose (3); char *m; mc_shard ();
	if (n < nc + 1) mc_skip ();
	if (nc == 2 && n < (mc_thorough ? 95 : 45)) nc += mc_choose (2);
	for (i = 0; i < nc; i++) { int lo = i ? plan.cut[i - 1] + 1 : 1; if (lo >= n) mc_skip (); plan.cut[i] = lo + mc_choose (n - lo); plan.ncut = i + 1; }
	mc_desc ("%s in reads ending at %d %d %d", Q (t), plan.cut[0], plan.cut[1], plan.cut[2]);
	put_file (t, n); m = from_memory (t, n); same ("in several reads", m, from_file ());
}
static void part_every (void)
{
	const char *t = docs (mc_choose (NDOC)); int n = strlen (t), pre; char *m; plan.every = 1 + mc_choose (16); mc_shard ();
	pre = mc_choose (n + 1);          /* every prefix of the document is a document too */
	mc_desc ("the first %d bytes of %s, %d bytes at a time", pre, Q (t), plan.every);
	put_file (t, pre); m = from_memory (t, pre); same ("in small reads", m, from_file ());
}
/* the buffer boundary at every offset of the document: filler before it */
static char *filler (int kind, int len)   /* exactly len bytes (len >= 40) */
{
	switch (kind) {
	case 0: return ax_fmt ("<!--%s-->", ax_rep ('c', len - 7));
	case 1: return ax_fmt ("<?p %s?>", ax_rep ('x', len - 6));
	case 2: return ax_fmt ("<!--c-->%s", ax_rep (' ', len - 8));
	default: { SB b = { 0 }; while (b.n < len - 24) sb_add (&b, "<!--d-->"); sb_add (&b, ax_rep ('\n', len - b.n)); return sb_str (&b); }
	}
}
static void part_boundary (void)
{
	int di = mc_choose (NDOC - 4), kind = mc_choose (4), where = mc_choose (2), bound = mc_choose (mc_thorough ? 3 : 2), off, hl; const char *t = docs (di); int n = strlen (t); char *m, *doc; SB b = { 0 }; const char *h;
	mc_shard ();
	/* where 0: after the header; 1: as the first content of the root element */
	if (where == 0) { h = strstr (t, "?>"); hl = !strncmp (t, "<?xml", 5) && h ? (int) (h + 2 - t) : !strncmp (t, "\xEF\xBB\xBF", 3) ? 3 : 0; }
	else { const char *p = t; while (p && *p && !(p[0] == '<' && p[1] != '?' && p[1] != '!')) p++; h = strchr (p, '>'); if (!h || h[-1] == '/' || strstr (p, "x>y")) mc_skip (); hl = h + 1 - t; }
	if (n - hl < 1) mc_skip ();
	off = mc_choose (n - hl + 1);
	if (mc_thorough && bound == 0) { int c = mc_choose (n - hl + 4); if (c < n - hl) { plan.ncut = 1; plan.cut[0] = 8192 - off + c; } else plan.every = (int[]) { 0, 8191, 4096, 1000 } [c - (n - hl)]; }
	else plan.every = (int[]) { 0, 8191, 1000 } [mc_choose (3)];
	bound = bound == 0 ? 8192 : bound == 1 ? 16384 : 24576;
	sb_addn (&b, t, hl); sb_add (&b, filler (kind, bound - off - hl)); sb_add (&b, t + hl); doc = sb_str (&b);
	mc_desc ("%s with filler %d so that byte %d of the file is at offset %d, reads of %d, cut at %d", Q (t), kind, bound, hl + off, plan.every, plan.cut[0]);
	put_file (doc, b.n); m = from_memory (doc, b.n);
	{ char *plain = from_memory (t, n); MC_CHECK (!plain == !m, "a filler comment changes the verdict"); }
	same ("across the buffer boundary", m, from_file ());
}
/* one token longer than the buffer */
static void part_long (void)
{
	static const int len[] = { 8180, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8194, 8200, 16370, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 24576, 32767, 32768, 32769, 70000 };
	int k = mc_choose (8), li = mc_choose (sizeof len / sizeof *len), pre = mc_choose (4), cut = mc_choose (5), L = len[li]; char *x, *doc, *m, *p; int n; mc_shard ();
	x = ax_rep ('x', L); p = pre == 0 ? "" : pre == 1 ? " " : pre == 2 ? "<!--c-->" : ax_rep (' ', 5000);
	switch (k) {
	case 0: doc = ax_fmt ("%s<r>%s</r>", p, x); break;
	case 1: doc = ax_fmt ("%s<r a='1' k='%s' l='2'/>", p, x); break;
	case 2: doc = ax_fmt ("%s<r><!--%s--><b/></r>", p, x); break;
	case 3: doc = ax_fmt ("%s<r><![CDATA[%s]]>t</r>", p, x); break;
	case 4: doc = ax_fmt ("%s<r><?p %s?>t</r>", p, x); break;
	case 5: doc = ax_fmt ("%s<%s>t</%s>", p, x, x); break;
	case 6: doc = ax_fmt ("%s<r %s='v'>t</r>", p, x); break;
	default: doc = ax_fmt ("%s<r>%s<a/></r>", p, ax_rep (' ', L)); break;
	}
	n = strlen (doc);
	if (cut) { plan.every = cut == 1 ? 4096 : cut == 2 ? 1000 : cut == 3 ? 8191 : 1; if (cut == 4 && (L > 17000 || (!mc_thorough && li % 3))) mc_skip (); }
	mc_desc ("construct %d of %d bytes after %d bytes, reads of %d", k, L, (int) strlen (p), plan.every);
	put_file (doc, n); m = from_memory (doc, n); MC_CHECK (m, "refused from memory"); same ("long token", m, from_file ());
}
static void part_strings (void)
{
	const char *t = docs (mc_choose (NDOC)); int n = strlen (t), np = 1 + mc_choose (3), c[3], i; char *m, *s[3]; axlError *err = NULL; axlDoc *d; mc_shard ();
	if (np == 3 && n > 60 && !mc_thorough) mc_skip (); if (n == 0) mc_skip ();
	c[0] = c[1] = n; if (np > 1) c[0] = mc_choose (n + 1); if (np > 2) c[1] = c[0] + mc_choose (n + 1 - c[0]);
	s[0] = ax_dupn (t, c[0]); s[1] = np > 1 ? ax_dupn (t + c[0], c[1] - c[0]) : NULL; s[2] = np > 2 ? ax_dupn (t + c[1], n - c[1]) : NULL;
	mc_desc ("%s as %d strings cut at %d %d", Q (t), np, c[0], c[1]); mc_trans (1);
	d = np == 1 ? axl_doc_parse_strings (&err, s[0], NULL) : np == 2 ? axl_doc_parse_strings (&err, s[0], s[1], NULL) : axl_doc_parse_strings (&err, s[0], s[1], s[2], NULL);
	m = from_memory (t, n); same ("as separate strings", m, settle (d, err, "from strings"));
	for (i = 0; i < 3; i++) {      /* the same strings as a node: kept alone, put inside a document, without an error reference */
		axlNode *r; axlDoc *o; char *x = NULL; err = NULL; mc_trans (1);
#define PE (i == 2 ? NULL : &err)
		r = np == 1 ? axl_node_parse_strings (PE, s[0], NULL) : np == 2 ? axl_node_parse_strings (PE, s[0], s[1], NULL) : axl_node_parse_strings (PE, s[0], s[1], s[2], NULL);
		MC_CHECK (!r == !m, "the strings are %s as a node, as a document %s", r ? "accepted" : "refused", m ? "accepted" : "refused"); if (i < 2) MC_CHECK (!r == !!err, "%s node and %s error", r ? "a" : "no", err ? "an" : "no");
		if (err) { MC_CHECK (ax_err (err), "an error without text or code"); axl_error_free (err); } if (!r) continue;
		MC_CHECK (!axl_node_get_parent (r) && !axl_node_get_next (r) && !axl_node_get_previous (r), "the node has relatives"); x = rn_str (ax_model (r)); MC_CHECK (strlen (m) >= strlen (x) && !strcmp (m + strlen (m) - strlen (x), x), "the node is %s, the document is %s", Q (x), Q (m));
		if (i == 1) { o = ax_parse_ok ("<o><p/></o>", -1, "other"); axl_node_set_child (axl_node_get_first_child (axl_doc_get_root (o)), r); MC_CHECK (!strcmp (rn_str (ax_model (axl_doc_get_root (o))), ax_fmt ("<o><p>%s</p></o>", x)), "the node inside another document: %s", Q (rn_str (ax_model (axl_doc_get_root (o))))); axl_doc_free (o); }
		else axl_node_free (r);
	}
}
static void part_errors (void)
{
	const char *t = docs (mc_choose (NDOC)); int n = strlen (t), kind = mc_choose (4), at; char *m, *f; mc_shard ();
	plan.every = (int[]) { 0, 1, 7 } [mc_choose (3)];
	at = mc_choose (n + 1);
	plan.err = kind == 0 ? EINTR : kind == 1 ? EIO : kind == 2 ? EISDIR : EAGAIN; plan.errat = at;
	mc_desc ("%s, read error %d after %d bytes, reads of %d", Q (t), plan.err, at, plan.every);
	put_file (t, n); m = from_memory (t, n); f = from_file ();
	if (kind == 0) { same ("with an interrupted read", m, f); return; }
	if (plan.hits) { MC_CHECK (!f, "a read error after %d of %d bytes goes unnoticed: %s", at, n, Q (f)); mc_outcome ("read error reported"); } else mc_outcome ("error not reached");
	mc_nontrivial ();
}
static void part_files (void)
{
	int k = mc_choose (3); axlError *err = NULL; axlDoc *d; mc_shard ();
	path = ax_fmt ("%s/%s", mc_scratch, k == 0 ? "missing" : k == 1 ? "dir" : "empty");
	if (k == 1) mkdir (path, 0700); if (k == 2) ax_write_file (path, "", 0);
	mc_desc ("%s", path); MC_CHECK (!from_file (), "a %s yields a document", k == 0 ? "missing file" : k == 1 ? "directory" : "empty file"); mc_trans (1);
	if (k == 1) rmdir (path);
	{ axlDtd *t = axl_dtd_parse_from_file (path, &err); if (k == 2) { if (t) axl_dtd_free (t); else MC_CHECK (err, "no DTD, no error"); } else { MC_CHECK (!t && err, "a DTD from a %s", k ? "directory" : "missing file"); } axl_error_free (err); }
	mc_nontrivial ();
}
/* ---------------------------------------------- DTD files */
static const char *dtds[] = {
	"<!ELEMENT r (a?, b*)>\n<!ELEMENT a EMPTY><!ELEMENT b (#PCDATA)>\n<!ATTLIST b k CDATA #REQUIRED>",
	"<!-- c --><!ENTITY % e \"k CDATA #IMPLIED\"><!ELEMENT r ((a | b)+)><!ELEMENT a ANY><!ELEMENT b (#PCDATA | a)*><!ATTLIST r %e; l (x|y) 'x'>",
	"<!ELEMENT r (a, b?)><!ELEMENT a (#PCDATA)><!ATTLIST a i ID #REQUIRED><!ATTLIST b j IDREF #IMPLIED n NMTOKEN #FIXED 'q'>\n<!ELEMENT b EMPTY>",
	"<!ENTITY x 'y z'><!ENTITY s SYSTEM 'f'><!ELEMENT r EMPTY>",
	"<!ELEMENT r (a><!ELEMENT a EMPTY>", "<!ELEMENT r EMPTY> junk", "<!ATTLIST r k FOO #IMPLIED><!ELEMENT r EMPTY>", "<!ELEMENT r (a)><!ELEMENT a EMPTY><!ATTLIST a %u; k CDATA #IMPLIED>",
};
static const char *vdocs[] = { "<r/>", "<r><a/></r>", "<r><a/><b k='1'>t</b></r>", "<r><b>t</b></r>", "<r k='1' l='x'><a>t</a></r>", "<r l='z'><b><a/></b></r>", "<r><a i='q'>t</a><b j='q' n='q'/></r>", "<r><a i='q'/><b j='w'/></r>", "<r><b/><a/></r>", "<x/>" };
static char *dsig (axlDtd *d, axlError *err, const char *how)
{
	SB b = { 0 }; int i;
	if (!d) { MC_CHECK (err, "%s: no DTD and no error", how); axl_error_free (err); return NULL; }
	MC_CHECK (!err, "%s: a DTD and an error", how);
	sb_f (&b, "root=%s ", axl_dtd_get_root (d) ? axl_dtd_get_element_name (axl_dtd_get_root (d)) : "-");
	for (i = 0; i < (int) (sizeof vdocs / sizeof *vdocs); i++) { axlDoc *doc = ax_parse_ok (vdocs[i], -1, "doc"); axlError *e = NULL; sb_c (&b, axl_dtd_validate (doc, d, &e) ? '1' : '0'); if (e) axl_error_free (e); axl_doc_free (doc); }
	{ const char *v = axl_dtd_entity_value (d, "x", GENERAL_ENTITY); sb_f (&b, " x=%s", v ? v : "-"); v = axl_dtd_entity_value (d, "e", PARAMETER_ENTITY); sb_f (&b, " e=%s", v ? v : "-"); }
	axl_dtd_free (d); return sb_str (&b);
}
static void dtd_case (const char *t, int n)
{
	axlError *err = NULL; char *ex = malloc (n ? n : 1), *m, *f; axlDtd *d; int a, b; memcpy (ex, t, n); d = axl_dtd_parse (ex, n, &err); free (ex); m = dsig (d, err, "from memory");
	put_file (t, n); err = NULL; a = dup (0); close (a); plan.pos = plan.reads = plan.hits = 0; plan.on = 1; d = axl_dtd_parse_from_file (path, &err); plan.on = 0; b = dup (0); close (b); MC_CHECK (a == b, "the DTD file is left open"); mc_trans (2);
	f = dsig (d, err, "from file");
	if (plan.err && plan.err != EINTR) { if (plan.hits) MC_CHECK (!f, "a read error in a DTD goes unnoticed"); mc_nontrivial (); return; }
	same ("DTD file", m, f);
}
static void part_dtd (void)
{
	const char *t = dtds[mc_choose (sizeof dtds / sizeof *dtds)]; int n = strlen (t), k = mc_choose (5); mc_shard ();
	if (k == 0) { plan.every = 1 + mc_choose (12); mc_desc ("DTD %s, %d bytes at a time", Q (t), plan.every); dtd_case (t, n); }
	else if (k == 1 || k == 2) { plan.ncut = k; plan.cut[0] = 1 + mc_choose (n - 1); if (k == 2) { if (plan.cut[0] + 1 >= n) mc_skip (); plan.cut[1] = plan.cut[0] + 1 + mc_choose (mc_thorough ? n - plan.cut[0] - 1 : n - plan.cut[0] - 1 > 12 ? 12 : n - plan.cut[0] - 1); } mc_desc ("DTD %s in reads ending at %d %d", Q (t), plan.cut[0], plan.cut[1]); dtd_case (t, n); }
	else if (k == 3) { int off = mc_choose (n + 1), wh = mc_choose (2); SB b = { 0 }; sb_add (&b, wh ? ax_fmt ("<!--%s-->", ax_rep ('c', 8192 - off - 7)) : ax_rep (' ', 8192 - off)); sb_add (&b, t); mc_desc ("DTD %s with byte 8192 at offset %d", Q (t), off); dtd_case (sb_str (&b), b.n); }
	else { plan.err = mc_choose (2) ? EIO : EINTR; plan.errat = mc_choose (n + 1); mc_desc ("DTD %s, read error %d after %d bytes", Q (t), plan.err, plan.errat); dtd_case (t, n); }
}
void mc_case (void)
{
	plan_clear (); ax_reset ();
	switch (mc_choose (8)) {
	case 0: part_cuts (); break;
	case 1: part_every (); break;
	case 2: part_boundary (); break;
	case 3: part_long (); break;
	case 4: part_strings (); break;
	case 5: part_errors (); break;
	case 6: part_files (); break;
	default: part_dtd (); break;
	}
}
