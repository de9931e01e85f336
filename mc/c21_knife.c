/* C21: the axl-knife tool (its main () called in a child process) */
#include "ax.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <utime.h>
#include <errno.h>
const char *mc_name = "c21_knife";
extern int knife_main (int argc, char **argv);
void mc_init (void) { }

static char *f_out, *f_err, *f_in, *f_gen;
typedef struct { int rc; char *out, *err; int nout; } Run;
/* runs the tool with the arguments (NULL terminated), standard output and error going to files */
static Run run (char **av)
{
	Run r; pid_t p; int st, n = 0, o, e; while (av[n]) n++; mc_trans (1);
	fflush (stdout); fflush (stderr);
	p = fork (); if (p < 0) abort ();
	if (!p) {
		o = open (f_out, O_CREAT | O_TRUNC | O_RDWR, 0600); e = open (f_err, O_CREAT | O_TRUNC | O_RDWR, 0600); dup2 (o, 1); dup2 (e, 2); alarm (15);
		{ struct rlimit l = { 16 << 20, 16 << 20 }; setrlimit (RLIMIT_FSIZE, &l); }   /* a tool that never stops writing must not fill the disk */
		if (chdir (mc_scratch)) _exit (99);
		st = knife_main (n, av); fflush (NULL); _exit (st & 255);
	}
	while (waitpid (p, &st, 0) < 0) if (errno != EINTR) abort ();
	r.out = ax_read_file (f_out, &r.nout); r.err = ax_read_file (f_err, &n);
	MC_CHECK (WIFEXITED (st), "the tool was killed by signal %d: %s", WTERMSIG (st), Q (r.err)); r.rc = WEXITSTATUS (st);
	MC_CHECK (!strstr (r.err, "AddressSanitizer") && !strstr (r.err, "runtime error"), "memory error in the tool: %s", Q (r.err)); return r;
}
#define RUN(...) run ((char *[]) { ax_dup ("axl-knife"), __VA_ARGS__, NULL })
static void setup (const char *in)
{
	f_out = ax_fmt ("%s/stdout", mc_scratch); f_err = ax_fmt ("%s/stderr", mc_scratch); f_in = ax_fmt ("%s/%s", mc_scratch, in); f_gen = ax_fmt ("%s/gen.out", mc_scratch); remove (f_gen); }
static int isws (int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

/* ---- the header made from a DTD, read as a C compiler would ---- */
static char *header_text (const char *h, const char *name)
{
	SB s = {0}, lit = {0}; const char *p, *e; char *t, *g = ax_fmt ("__%s_H__", name), *l; int i;
	MC_CHECK (!strncmp (h, "/*", 2) && (e = strstr (h, "*/")), "the header doesn't begin with a comment"); p = e + 2;
	for (; *p; p++) { if (*p == '\\') { const char *q = p + 1; while (*q == ' ' || *q == '\t' || *q == '\r') q++; if (*q == '\n') { p = q; continue; } } sb_c (&s, *p); }   /* line splicing */
	t = sb_str (&s);
#define WS while (isws (*t)) t++
#define EXPECT(x) do { const char *x_ = (x); WS; MC_CHECK (!strncmp (t, x_, strlen (x_)), "expected '%s' in the header at %s", x_, Q (t)); t += strlen (x_); } while (0)
	EXPECT ("#ifndef "); EXPECT (g); EXPECT ("#define "); EXPECT (g); MC_CHECK (isws (*t), "guard"); EXPECT ("#define "); EXPECT (name); MC_CHECK (*t == ' ', "name"); WS; MC_CHECK (*t == '"', "no string in the header at %s", Q (t)); t++;
	for (; *t && *t != '"'; t++) {
		MC_CHECK (*t != '\n', "the string in the header is cut by a new line");
		if (*t != '\\') { sb_c (&lit, *t); continue; }
		t++; switch (*t) { case 'n': sb_c (&lit, '\n'); break; case 't': sb_c (&lit, '\t'); break; case '"': case '\\': case '\'': case '?': sb_c (&lit, *t); break; case 'r': sb_c (&lit, '\r'); break;
		default: mc_fail ("unknown escape in the header at %s", Q (t)); }
	}
	MC_CHECK (*t == '"', "string not terminated in the header"); t++; while (*t == ' ') t++; MC_CHECK (*t == '\n', "something follows the string in the header: %s", Q (t)); EXPECT ("#endif"); WS; MC_CHECK (!*t, "something follows the header: %s", Q (t));
	l = sb_str (&lit); (void) i; return l;
}
/* white space runs as one blank, none at the ends */
static char *squeeze (const char *s) { SB b = {0}; int sp = 0, any = 0; for (; *s; s++) { if (isws (*s)) { sp = 1; continue; } if (sp && any) sb_c (&b, ' '); sp = 0; any = 1; sb_c (&b, *s); } return sb_str (&b); }
static void dtd_case (const char *dtd, int n, int tofile, int deep)
{
	static const char *names[][2] = { { "d.dtd", "D_DTD" }, { "my-file.v2.dtd", "MY_FILE_V2_DTD" }, { "plain", "PLAIN" } }; int k = deep ? mc_choose (3) : 0; Run r; axlDtd *d; axlError *e = NULL; char *h, *l; int hn, ok;
	setup (names[k][0]); ax_write_file (f_in, dtd, strlen (dtd));
	d = axl_dtd_parse_from_file (f_in, &e); ok = d != NULL; if (d) axl_dtd_free (d); else axl_error_free (e);
	if (tofile) { r = RUN ("--input", f_in, "--dtd-to-c", "--output", f_gen); if (access (f_gen, F_OK)) h = ax_dup (""); else h = ax_read_file (f_gen, &hn); MC_CHECK (!r.nout, "output to a file and to the screen"); }
	else { r = RUN ("-i", f_in, "--dtd-to-c"); h = r.out; }
	if (!ok) { mc_outcome ("refused"); MC_CHECK (!*h, "an invalid DTD was translated: %s", Q (h)); MC_CHECK (strstr (r.err, "E: "), "an invalid DTD wasn't reported"); return; }
	MC_CHECK (r.rc == 0, "exit code %d", r.rc); mc_nontrivial ();
	l = header_text (h, names[k][1]); MC_CHECK (!strcmp (squeeze (l), squeeze (dtd)), "the header holds %s", Q (squeeze (l)));
	e = NULL; d = axl_dtd_parse (l, -1, &e); MC_CHECK (d, "the text of the header isn't a DTD: %s", e ? axl_error_get (e) : "?"); axl_dtd_free (d);
	mc_state (mc_hash (l, strlen (l), 0));
}
/* ---- the html: markup removed and entities translated ---- */
static char *visible (const char *h, const char *cls)
{
	SB b = {0}; const char *p = h, *e, *pre = cls ? ax_fmt ("<pre class='%s'>\n", cls) : "<pre>\n"; int n = strlen (h);
	MC_CHECK (!strncmp (h, pre, strlen (pre)), "the html begins with %s", Q (ax_dupn (h, n < 30 ? n : 30))); p += strlen (pre);
	MC_CHECK (n > 7 && !strcmp (h + n - 7, "</pre>\n"), "the html doesn't end with </pre>"); e = h + n - 7; { int open = 0;
	while (p < e) {
		if (!strncmp (p, "<span class=\"", 13)) { p += 13; while (*p >= 'a' && *p <= 'z') p++; MC_CHECK (!strncmp (p, "\">", 2), "bad tag in the html at %s", Q (ax_dupn (p, 20))); p += 2; open++; continue; }
		if (!strncmp (p, "</span>", 7)) { p += 7; MC_CHECK (open-- > 0, "html not balanced"); continue; }
		MC_CHECK (*p != '<', "unknown tag in the html at %s", Q (ax_dupn (p, 20)));
		if (*p == '&') { static const char *en[][2] = { { "&lt;", "<" }, { "&gt;", ">" }, { "&amp;", "&" }, { "&quot;", "\"" }, { "&apos;", "'" } }; int k; for (k = 0; k < 5; k++) if (!strncmp (p, en[k][0], strlen (en[k][0]))) break; MC_CHECK (k < 5, "bare & in the html at %s", Q (ax_dupn (p, 20))); sb_add (&b, en[k][1]); p += strlen (en[k][0]); continue; }
		sb_c (&b, *p++);
	}
	MC_CHECK (!open, "html not balanced"); }
	return sb_str (&b);
}
/* the tree with texts and comments without white space at their ends, blank texts and instructions left out */
static char *strip (const char *s) { int n; while (isws (*s)) s++; n = strlen (s); while (n && isws (s[n - 1])) n--; return ax_dupn (s, n); }
static RN *loose (RN *m)
{
	RN *r = rn_elem (m->name), *c; RA *a; SB b = {0};
	for (a = m->attrs; a; a = a->next) rn_set (r, a->k, a->v);
	for (c = m->first; ; c = c->next) {
		if (c && c->kind == R_TEXT) { sb_add (&b, c->text); continue; }
		if (c && c->kind == R_PI) continue;
		if (b.n) { char *t = strip (sb_str (&b)); memset (&b, 0, sizeof b); if (*t) rn_add (r, rn_new (R_TEXT, NULL, t)); }
		if (!c) break;
		if (c->kind == R_ELEM) rn_add (r, loose (c)); else rn_add (r, rn_new (c->kind, NULL, c->kind == R_COMMENT ? strip (c->text) : c->text));
	}
	return r;
}
static void html_case (const char *xml, int opt)
{
	axlDoc *d; axlError *e = NULL; Run r; char *v, *h; RN *m, *x; int n;
	setup ("x.xml"); ax_write_file (f_in, xml, strlen (xml)); d = axl_doc_parse_from_file (f_in, &e);
	switch (opt) {
	case 0: r = RUN ("--input", f_in, "--htmlize"); h = r.out; break;
	case 1: r = RUN ("-e", "-r", "-i", f_in); h = r.out; break;
	case 2: r = RUN ("-i", f_in, "-e", "-p", "xml-class", "-o", f_gen); h = access (f_gen, F_OK) ? ax_dup ("") : ax_read_file (f_gen, &n); MC_CHECK (!r.nout, "output to a file and to the screen"); break;
	default: r = RUN ("-i", f_in, "-c"); MC_CHECK (!r.nout, "output while checking"); MC_CHECK (!strstr (r.err, "document is OK") == !d && !strstr (r.err, "E: ") == !!d, "the document is %s and the tool says %s", d ? "right" : "wrong", Q (r.err)); MC_CHECK (r.rc == 0, "exit code %d", r.rc); mc_nontrivial (); mc_outcome (d ? "ok" : "wrong"); if (d) axl_doc_free (d); else axl_error_free (e); return;
	}
	if (!d) { mc_outcome ("refused"); axl_error_free (e); MC_CHECK (!*h, "a wrong document was translated"); MC_CHECK (strstr (r.err, "E: "), "a wrong document wasn't reported"); return; }
	mc_nontrivial (); MC_CHECK (r.rc == 0, "exit code %d", r.rc);
	m = loose (ax_model (axl_doc_get_root (d))); axl_doc_free (d);
	v = visible (h, opt == 2 ? "xml-class" : NULL); d = axl_doc_parse (v, -1, &e); MC_CHECK (d, "the text shown isn't the document but %s: %s", Q (v), e ? axl_error_get (e) : "?");
	x = loose (ax_model (axl_doc_get_root (d))); axl_doc_free (d); MC_CHECK (rn_equal (m, x), "the text shown is %s, the document is %s", Q (rn_str (x)), Q (rn_str (m))); mc_state (rn_hash (m));
}
static void stamp (const char *f, int t) { struct utimbuf u; u.actime = u.modtime = 1000000 + t; utime (f, &u); }
void mc_case (void)
{
	int part, i, k, n; SB b = {0}; ax_reset (); axl_init (); part = mc_choose (7);
	if (part == 0) {                 /* DTDs: every sequence of pieces */
		static const char *pc[] = { "<!ELEMENT r (a|b)*>", "<!ELEMENT a EMPTY>", "<!ELEMENT b (#PCDATA)>", "<!ATTLIST r k CDATA \"it's\">", "<!ENTITY e 'a \"q\"'>", "<!-- c \" \\ -->", "<!-- a\n\tb -->", "\n", "\r\n", "\t", "<!-- \\n ' */ // %s ??/ -->" };
		int len = mc_choose (4 + mc_thorough) + 1; for (i = 0; i < len; i++) { sb_add (&b, pc[mc_choose (11)]); if (i == (len > 1)) mc_shard (); }
		k = len < 3 ? mc_choose (2) : 0; mc_desc ("dtd %s%s", Q (sb_str (&b)), k ? " to a file" : ""); dtd_case (sb_str (&b), -1, k, len < 3);
	} else if (part == 1) {          /* every short text inside a comment and a value */
		static const char *al[] = { "\"", "\\", "'", "\n", "\t", "a", "%", "?", "/", "*", " ", "\xc3\xa9" }; int w = mc_choose (3), mx = 2 + mc_thorough; SB t = {0};
		for (i = 0; i < mx + 1; i++) { k = mc_choose (13); if (i == 1 || (!i && k == 12)) mc_shard (); if (k == 12) break; sb_add (&t, al[k]); }
		switch (w) { case 0: sb_f (&b, "<!ELEMENT r EMPTY>\n<!--%s-->\n", sb_str (&t)); break; case 1: sb_f (&b, "<!ELEMENT r EMPTY><!ATTLIST r k CDATA '%s'>", sb_str (&t)); break; default: sb_f (&b, "<!ELEMENT r EMPTY>\n<!ENTITY e \"%s\" >", sb_str (&t)); }
		mc_desc ("dtd %s", Q (sb_str (&b))); dtd_case (sb_str (&b), -1, 0, 0);
	} else if (part == 2) {          /* sizes */
		static const int cnt[] = { 0, 1, 2, 10, 80, 200, 1000, 3000, 4095, 8100, 8190, 8191, 8192, 8193, 16384, 40000 }; int w = mc_choose (4); n = cnt[mc_choose (16)]; mc_shard ();
		sb_add (&b, "<!ELEMENT r EMPTY>\n"); switch (w) { case 0: sb_f (&b, "<!-- %s -->\n", ax_rep ('x', n)); break; case 1: if (n > 9000) n = 9000; for (i = 0; i < n / 10; i++) sb_f (&b, "<!ELEMENT e%d EMPTY>\n", i); break; case 2: for (i = 0; i < n; i++) sb_c (&b, '\n'); sb_add (&b, "<!ELEMENT z ANY>"); break; default: sb_f (&b, "<!-- %s\n\"\\ -->", ax_rep (' ', n)); }
		mc_desc ("dtd shape %d size %d", w, n); dtd_case (sb_str (&b), -1, mc_choose (2), 0);
	} else if (part == 3) {          /* documents */
		static const char *pc[] = { "<a>", "</a>", "<b k='v'>", "</b>", "<a/>", "<b k=\"it's\" l='\"'/>", "x", "y &lt; &amp;amp;", "<![CDATA[<&]]>", "<!-- c < & -->", " ", "<?p q?>", "<b a='1' b='2' c='&lt;&amp;>' d='4'/>", "<b a='1' b='2' c='3'>", ">", "<![CDATA[]]>" };
		int len = mc_choose (mc_thorough ? 5 : 4), bal = 0, prev = -1; sb_add (&b, mc_choose (2) ? "<r>" : "<r q='1'>"); if (!len) mc_shard ();
		for (i = 0; i < len; i++) { k = mc_choose (16); if (i == (len > 1)) mc_shard (); if (len > 3 && bal < 0) mc_skip (); bal += k == 0 || k == 2 || k == 13 ? 1 : k == 1 || k == 3 ? -1 : 0; sb_add (&b, pc[k]); prev = k; }
		if (len > 3 && bal) mc_skip (); (void) prev; sb_add (&b, "</r>"); k = mc_choose (4); mc_desc ("%s of %s", k == 3 ? "check" : "html", Q (sb_str (&b))); html_case (sb_str (&b), k);
	} else if (part == 4) {          /* output only when newer */
		int mode = mc_choose (2), out = mc_choose (4), nw = mc_choose (2); Run r; char *o; mc_shard (); /* output: missing, older, same, newer than the input */
		mc_desc ("mode %d output %d ifnewer %d", mode, out, nw); setup (mode ? "d.dtd" : "x.xml"); ax_write_file (f_in, mode ? "<!ELEMENT r EMPTY>" : "<r/>", mode ? 18 : 4); stamp (f_in, 100); if (out) { ax_write_file (f_gen, "old", 3); stamp (f_gen, 99 + out - 1); }
		r = nw ? RUN ("-i", f_in, mode ? "--dtd-to-c" : "--htmlize", "-o", f_gen, "--ifnewer") : RUN ("-i", f_in, mode ? "--dtd-to-c" : "--htmlize", "-o", f_gen);
		MC_CHECK (r.rc == 0 && !r.nout, "exit code %d", r.rc); o = access (f_gen, F_OK) ? ax_dup ("") : ax_read_file (f_gen, &n);
		if (nw && out >= 2) MC_CHECK (!strcmp (o, "old"), "the output was written again"); else MC_CHECK (strcmp (o, "old") && strlen (o) > 3, "the output wasn't written: %s", Q (o)); mc_nontrivial ();
	} else if (part == 5) {          /* the output can't be written, the input can't be read */
		int mode = mc_choose (2), w = mc_choose (4), nw = mc_choose (2), style = mc_choose (2); Run r; char *bad, *was; mc_shard (); mc_desc ("mode %d impossible file %d ifnewer %d style %d", mode, w, nw, style); setup (mode ? "d.dtd" : "x.xml"); ax_write_file (f_in, mode ? "<!ELEMENT r EMPTY>" : "<r/>", mode ? 18 : 4);
		bad = w == 0 ? ax_fmt ("%s/none/out", mc_scratch) : w == 1 ? mc_scratch : w == 2 ? f_gen : f_gen; if (w >= 2) { ax_write_file (f_gen, "old", 3); stamp (f_gen, 1); f_in = w == 2 ? (char *) mc_scratch : ax_fmt ("%s/none/in", mc_scratch); }
		{ char *m = ax_dup (mode ? (style ? "-d" : "--dtd-to-c") : style ? "-e" : "--htmlize"); if (style && mode) m = ax_dup ("--dtd-to-c"); r = nw ? RUN (m, "--ifnewer", "-o", bad, "-i", f_in) : RUN ("-i", f_in, m, "-o", bad); }
		MC_CHECK (strstr (r.err, "E: ") || (nw && !*r.err), "no message: %s", Q (r.err)); MC_CHECK (!strstr (r.out, "#endif") && !strstr (r.out, "</pre>"), "the text went to the screen"); if (w >= 2) { was = ax_read_file (f_gen, &n); MC_CHECK (!strcmp (was, "old"), "the output was overwritten with %s", Q (was)); remove (f_gen); } mc_outcome ("impossible file"); mc_nontrivial ();
	} else {                         /* combinations of options */
		static const char *op[] = { "--htmlize", "--dtd-to-c", "--check-xml", "--ifnewer" }; int set = mc_choose (16), in = mc_choose (3), out = mc_choose (2), xml = mc_choose (2); char *av[12]; Run r; int ok; mc_shard (); n = 0; av[n++] = ax_dup ("axl-knife");
		setup ("in"); ax_write_file (f_in, xml ? "<r/>" : "<!ELEMENT r EMPTY>", xml ? 4 : 18); if (in == 2) remove (f_in);
		for (i = 0; i < 4; i++) if (set >> i & 1) av[n++] = ax_dup (op[i]); if (in) { av[n++] = ax_dup ("-i"); av[n++] = f_in; } if (out) { av[n++] = ax_dup ("-o"); av[n++] = f_gen; } av[n] = NULL;
		mc_desc ("options %s%s%s%s%s%s on %s", set & 1 ? "htmlize " : "", set & 2 ? "dtd-to-c " : "", set & 4 ? "check " : "", set & 8 ? "ifnewer " : "", in == 0 ? "" : in == 1 ? "input " : "missing-input ", out ? "output" : "", xml ? "xml" : "dtd");
		r = run (av); mc_nontrivial (); ok = !((set & 7) && !in) && !((set & 8) && (!in || !out)) && (set & 3) != 3; n = 0; { char *o = out && !access (f_gen, F_OK) ? ax_read_file (f_gen, &n) : ""; int text = *o || ((set & 3) && strstr (r.out, "#endif")) || strstr (r.out, "</pre>");
		if (!ok) { if (n == 1) ; MC_CHECK (r.rc != 0 && !text, "options that don't go together were accepted (exit code %d)", r.rc); MC_CHECK (r.nout, "no message"); }
		else { int good = in == 1 && ((set & 3) == 2 ? !xml : xml); MC_CHECK (r.rc == 0, "exit code %d", r.rc); MC_CHECK (text == ((set & 3) && good), "%s generated", text ? "output" : "nothing"); if (set & 7) MC_CHECK (!good == !!strstr (r.err, "E: "), "messages: %s", Q (r.err)); } }
	}
	axl_end ();
}
