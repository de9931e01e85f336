/* C17: with encoding support on, every byte of every supported encoding, every short byte string, every placement
   across read and buffer boundaries; reference tables come from Python's codecs (iso_tables.h). */
#include "ax.h"
#include <axl_babel.h>
#include "iso_tables.h"
#include "seeds.h"
#include <errno.h>
#include <unistd.h>
const char *mc_name = "c17_enc";
void mc_init (void) { axl_init (); }

ssize_t __real_read (int fd, void *buf, size_t n);
static struct { int on, cut, every, errat, err, hits, pos, reads; } plan;
ssize_t __wrap_read (int fd, void *buf, size_t n)
{
	ssize_t r; long lim = n;
	if (!plan.on) return __real_read (fd, buf, n);
	if (++plan.reads > 100000) mc_fail ("reading does not stop");
	if (plan.err && plan.pos >= plan.errat) { plan.hits++; errno = plan.err; return -1; }
	if (plan.err && plan.errat - plan.pos < lim) lim = plan.errat - plan.pos;
	if (plan.every && plan.every < lim) lim = plan.every;
	if (plan.cut > plan.pos && plan.cut - plan.pos < lim) lim = plan.cut - plan.pos;
	r = __real_read (fd, buf, lim); if (r > 0) plan.pos += r; return r;
}
static void on (void) { axlError *e = NULL; MC_CHECK (axl_babel_init (&e) && !e, "init"); }
static char *sig (axlDoc *d) { SB b = { 0 }; axlList *l = axl_doc_get_pi_target_list (d); int i; for (i = 0; l && i < axl_list_length (l); i++) { axlPI *p = axl_list_get_nth (l, i); sb_f (&b, "<?%s %s?>", axl_pi_get_name (p), axl_pi_get_content (p) ? axl_pi_get_content (p) : "(none)"); } sb_add (&b, rn_str (ax_model (axl_doc_get_root (d)))); return sb_str (&b); }
static char *run (const char *t, int n, int file, const char *wantenc)
{
	axlError *err = NULL; axlDoc *d; char *s; mc_trans (1);
	if (!file) d = ax_parse_full (t, n, &err);
	else { char *p = ax_fmt ("%s/doc", mc_scratch); int a, b; ax_write_file (p, t, n); a = dup (0); close (a); plan.pos = plan.reads = plan.hits = 0; plan.on = 1; d = axl_doc_parse_from_file (p, &err); plan.on = 0; b = dup (0); close (b); MC_CHECK (a == b, "file left open"); }
	if (!d) { MC_CHECK (ax_err (err), "refused without an error"); axl_error_free (err); return NULL; }
	MC_CHECK (!err, "a document and an error"); if (wantenc) MC_CHECK (axl_doc_get_encoding (d) && !strcmp (axl_doc_get_encoding (d), wantenc), "encoding of the document in memory is %s", Q (axl_doc_get_encoding (d)));
	s = sig (d);
	if (wantenc && n < 3000 && !strstr (s, "<!--") && strncmp (s, "<?", 2)) { int l; char *dump = ax_dump (d, &l), *again; axl_doc_free (d); again = NULL; { axlDoc *d2 = ax_parse_full (dump, l, &err); if (d2) { again = sig (d2); axl_doc_free (d2); } else axl_error_free (err); } MC_CHECK (again && !strcmp (again, s), "dumped and parsed again: %s, was %s", Q (again), Q (s)); mc_trans (2); }
	else axl_doc_free (d);
	return s;
}
static void utf8 (SB *b, int c) { if (c < 0x80) sb_c (b, c); else if (c < 0x800) { sb_c (b, 0xc0 | c >> 6); sb_c (b, 0x80 | (c & 63)); } else { sb_c (b, 0xe0 | c >> 12); sb_c (b, 0x80 | ((c >> 6) & 63)); sb_c (b, 0x80 | (c & 63)); } }
static char *tr (int e, const char *s, int *def) { SB b = { 0 }; *def = 1; for (; *s; s++) { int c = iso_cp[e][(unsigned char) *s]; if (!c) *def = 0; utf8 (&b, c); } sb_add (&b, ""); return sb_str (&b); }
static const char *deliver (int *file)      /* read plan */
{
	int k = mc_choose (6); static const int ev[] = { 0, 0, 1, 2, 3, 7 }; *file = k > 0; plan.every = ev[k]; return ax_fmt ("%s/%d", k ? "file" : "mem", plan.every);
}
static char *hdr (int e, int spell) { const char *f = (char *[]) { "ISO-8859-%d", "iso-8859-%d", "iso8859-%d", "Iso_8859-%d" } [spell]; return ax_fmt ("<?xml version='1.0' encoding='%s'?>", ax_fmt (f, iso_part[e])); }

/* the tree of an iso document must be that of its translation, parsed without encoding support */
static void iso_case (int e, const char *head, const char *body, int file)
{
	int def; char *u = tr (e, body, &def), *want, *got, *t = ax_fmt ("%s%s", head, body);
	axl_babel_finish (); want = run (u, strlen (u), 0, NULL); on (); got = run (t, strlen (t), file, "utf-8");
	if (!def) { if (got) mc_outcome ("undefined byte accepted"); MC_CHECK (!got, "a byte ISO 8859-%d does not define is read as %s", iso_part[e], Q (got)); mc_outcome ("undefined byte refused"); }
	else { MC_CHECK (want, "the UTF-8 translation is refused"); MC_CHECK (got, "refused: %s", Q (body)); MC_CHECK (!strcmp (want, got), "tree %s, of the translation %s", Q (got), Q (want)); }
	mc_state (mc_hash (u, strlen (u), e)); mc_nontrivial ();
}
static void part_bytes (void)
{
	int e = mc_choose (10), b = 1 + mc_choose (255), where = mc_choose (8), file; char *body; const char *dl; mc_shard ();
	if (b < 32 && b != 9 && b != 10 && b != 13) mc_skip ();
	if ((where == 1 || where == 2) && (b == '<' || b == '&' || b == '\'')) mc_skip ();
	if (b < 0x80 && (where == 0 || where >= 5) && (b == '<' || b == '&')) mc_skip ();
	if ((where == 6 || where == 7) && b < 0xc0) mc_skip ();
	dl = deliver (&file);
	switch (where) {
	case 0: body = ax_fmt ("<r>x%cy</r>", b); break;
	case 1: body = ax_fmt ("<r a='x%cy' b='%c'/>", b, b); break;
	case 2: body = ax_fmt ("<r a='%c'>t</r>", b); break;
	case 3: body = ax_fmt ("<r><![CDATA[x%cy]]></r>", b); break;
	case 4: body = ax_fmt ("<r><!--x%cy--></r>", b); break;
	case 5: body = ax_fmt ("<r><a/>x%c%c%c%cy<b/></r>", b, b, b, b); break;
	case 6: body = ax_fmt ("<r%c a%c='v'><p%c/></r%c>", b, b, b, b); break;
	default: body = ax_fmt ("<?p x%c?><r><?q%c x%c?></r>", b, b, b); break;
	}
	mc_desc ("part %d, byte %02x: %s %s", iso_part[e], b, Q (body), dl);
	iso_case (e, hdr (e, b & 3), body, file);
}
static void part_two (void)      /* all pairs of bytes from the upper half that have different sizes, and mixes */
{
	int e = mc_choose (10), file, n = 1 + mc_choose (mc_thorough ? 6 : 5), i; static const unsigned char al[] = { 'a', 0xa4, 0xe9, 0xbd, 0x85 }; char t[8]; const char *dl; mc_shard ();
	for (i = 0; i < n; i++) t[i] = al[mc_choose (n > 4 ? 3 : 5)]; t[n] = 0; dl = deliver (&file);
	mc_desc ("part %d: %s %s", iso_part[e], mc_q (t, n), dl);
	iso_case (e, hdr (e, n & 3), ax_fmt ("<r k='%s'>%s<a/></r>", t, t), file);
}
/* the decoded text is longer than its source: every growth of the buffers */
static void part_grow (void)
{
	static const int len[] = { 10, 100, 1000, 2000, 2725, 2730, 2731, 2732, 4000, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, 8100, 8140, 8150, 8160, 8180, 8185, 8190, 8191, 8192, 8193, 8194, 8200, 12000, 16300, 16384, 16390, 20000, 33000 };
	int e = mc_choose (10), li = mc_choose (sizeof len / sizeof *len), kind = mc_choose (4), where = mc_choose (4), file, L = len[li], i; char *x = ax_rep ('x', L), *body; static const int ev[] = { 0, 0, 1000, 8191 }; int k = mc_choose (4); mc_shard ();
	if (!mc_thorough && e != 0 && e != 9 && e != 6) mc_skip ();
	file = k > 0; plan.every = ev[k];
	/* every / every other / first / last quarter of the bytes take two or three bytes in UTF-8 (0xa4 is the euro sign in part 15 and 7) */
	for (i = 0; i < L; i++) if (kind == 0 || (kind == 1 && i % 2) || (kind == 2 && i < L / 4) || (kind == 3 && i > L - L / 4)) x[i] = e == 5 ? 0xc7 : 0xa4;
	body = where == 0 ? ax_fmt ("<r>%s<a/></r>", x) : where == 1 ? ax_fmt ("<r k='%s' l='m'/>", x) : where == 2 ? ax_fmt ("<r><![CDATA[%s]]>t</r>", x) : ax_fmt ("<r><!--%s--><a b='c'>d</a></r>", x);
	mc_desc ("part %d: %d bytes of pattern %d in construct %d, %s/%d", iso_part[e], L, kind, where, file ? "file" : "mem", plan.every);
	iso_case (e, hdr (e, 1), body, file);
}
/* buffer boundary (of the source and of the decoded text) at every offset of a small document, UTF-8 and iso */
static void part_boundary (void)
{
	static const char *ib = "<r k='\xe9\xa4x'>\xe9 \xa4\xa4<a \xe9='\xa4'/>]\xe9]></r>", *ub = "<r k='\xc3\xa9\xe2\x82\xac'>\xf0\x9f\x98\x80 \xe2\x82\xac<a \xc3\xa9='\xf0\x90\x8d\x88'/>\xc3\xa9\xe2\x82\xac</r>";
	int u = mc_choose (3), dec = mc_choose (2), b = mc_choose (2) ? 16384 : 8192, off, n, i, f = mc_choose (2), k; char *head, *fill, *body, *got, *want; int flen; mc_shard ();
	if (u && dec) mc_skip ();
	n = strlen (u ? ub : ib); off = mc_choose (n + 2); k = mc_choose (mc_thorough ? 5 : 3); plan.every = (int[]) { 0, 1000, 8191, 4097, 8190 } [k];
	head = u == 0 ? hdr (9, 0) : u == 1 ? "<?xml version='1.0' encoding='utf-8'?>" : "\xEF\xBB\xBF";
	flen = b - off - strlen (head); if (u == 0 && dec && f) flen = strlen (head) + (b - off - strlen (head)) / 2;    /* filler of two-byte characters */
	fill = ax_rep (f && u == 0 && dec ? 0xe9 : ' ', flen); if (f && u == 0 && dec) { memcpy (fill, "<!--", 4); memcpy (fill + flen - 3, "-->", 3); }
	body = ax_fmt ("%s%s", fill, u ? ub : ib); mc_desc ("kind %d decoded %d filler %d: byte %d at offset %d, reads of %d", u, dec, f, b, off, plan.every);
	if (!u) iso_case (9, head, body, 1);
	else { char *t = ax_fmt ("%s%s", head, body); if (f) plan.cut = strlen (head) + flen + mc_choose (n); on (); want = run (t, strlen (t), 0, "utf-8"); got = run (t, strlen (t), 1, "utf-8"); MC_CHECK (want && got && !strcmp (want, got), "from file %s, from memory %s", Q (got), Q (want)); mc_nontrivial (); }
}
/* ---------------------------------------------- UTF-8 validity */
static int valid (const unsigned char *s, int n, int *bad, int *grey)      /* strict up to surrogates, overlong forms and code points above 10FFFF, which are not judged */
{
	int i = 0, j, l; *grey = 0;
	while (i < n) {
		*bad = i;
		if (s[i] < 0x80) { i++; continue; }
		l = s[i] >= 0xc0 && s[i] <= 0xdf ? 2 : s[i] >= 0xe0 && s[i] <= 0xef ? 3 : s[i] >= 0xf0 && s[i] <= 0xf7 ? 4 : 0;
		if (!l || i + l > n) return 0;
		for (j = 1; j < l; j++) if ((s[i + j] & 0xc0) != 0x80) return 0;
		if (s[i] < 0xc2 || (s[i] == 0xe0 && s[i + 1] < 0xa0) || (s[i] == 0xed && s[i + 1] >= 0xa0) || (s[i] == 0xf0 && s[i + 1] < 0x90) || s[i] > 0xf4 || (s[i] == 0xf4 && s[i + 1] >= 0x90)) *grey = 1;
		i += l;
	}
	return 1;
}
static const unsigned char cls[] = { 'a', 0x7f, 0x80, 0xbf, 0xc2, 0xdf, 0xe1, 0xef, 0xf1, 0xf4, 0xf8, 0xff, 0xc0, 0xe0, 0xed, 0xf0, 0xf7, 0x8f };
static void part_check (void)      /* the exported checker */
{
	int n = mc_choose (mc_thorough ? 6 : 5), i, bad = 0, grey, v, r, idx = -7; unsigned char *s = malloc (n ? n : 1); mc_shard ();
	for (i = 0; i < n; i++) s[i] = cls[mc_choose (n > 4 ? 12 : 18)];
	mc_desc ("%s", mc_q ((char *) s, n)); v = valid (s, n, &bad, &grey); r = axl_babel_check_utf8_content ((char *) s, n, &idx); mc_trans (2);
	if (!(v && grey)) { MC_CHECK (!r == !v, "checked as %s, it is %s", r ? "valid" : "invalid", v ? "valid" : "invalid"); }
	if (!r && !v && !grey) MC_CHECK (idx == bad, "invalid content reported at %d, starts at %d", idx, bad);
	{ char *z = malloc (n + 1); memcpy (z, s, n); z[n] = 0; MC_CHECK (!axl_babel_check_utf8_content (z, -1, NULL) == !r, "size given or not makes a difference"); free (z); }
	free (s); mc_state (v * 2 + grey); mc_nontrivial ();
}
static void part_single (void)
{
	int b = mc_choose (256), c = (mc_shard (), mc_choose (256)), bad, grey, v, r, idx = -7; unsigned char *s = malloc (2); s[0] = b; s[1] = c; mc_desc ("%02x %02x", b, c);
	v = valid (s, 2, &bad, &grey); r = axl_babel_check_utf8_content ((char *) s, 2, &idx); if (!grey) { MC_CHECK (!r == !v, "checked as %s", r ? "valid" : "invalid"); if (!r) MC_CHECK (idx == bad, "reported at %d, starts at %d", idx, bad); }
	v = valid (s, 1, &bad, &grey); r = axl_babel_check_utf8_content ((char *) s, 1, &idx); MC_CHECK (!r == !v, "one byte checked as %s", r ? "valid" : "invalid"); free (s); mc_trans (2); mc_nontrivial ();
}
static void part_utf8doc (void)
{
	int h = mc_choose (4), n = mc_choose (mc_thorough ? 5 : 4), i, bad = 0, grey, file, where = mc_choose (4); unsigned char s[8]; const char *dl, *head; char *t, *got, *want; mc_shard ();
	for (i = 0; i < n; i++) s[i] = cls[mc_choose (n > 3 ? 8 : 12)]; s[n] = 0; if (n == 3 && (where || (h && h != 2)) && !mc_thorough) mc_skip (); if (where == 3 && n > (mc_thorough ? 2 : 1)) mc_skip (); dl = deliver (&file); if (where == 3 && !file) mc_skip ();
	head = (char *[]) { "<?xml version='1.0' encoding='utf-8'?>", "<?xml version='1.0' encoding='UTF8' ?>", "\xEF\xBB\xBF", "\xEF\xBB\xBF<?xml version='1.0' encoding='utf-8'?>" } [h];
	t = where == 0 ? ax_fmt ("%s<r>x%s</r>", head, s) : where == 1 ? ax_fmt ("%s<r k='%s'><a/></r>", head, s) : where == 2 ? ax_fmt ("%s<r><!--%s-->t</r>", head, s) : ax_fmt ("%s%s<r>t%s</r>", head, ax_rep (' ', 8192 - strlen (head) - 4 - mc_choose (n + 2)), s);
	mc_desc ("%s %s", Q (where == 3 ? (char *) s : t), dl); on ();
	got = run (t, strlen (t), file, "utf-8");
	if (!valid (s, n, &bad, &grey)) { MC_CHECK (!got, "invalid UTF-8 accepted: %s", Q (got)); mc_outcome ("invalid refused"); }
	else if (!grey) { axl_babel_finish (); want = run (t, strlen (t), 0, NULL); MC_CHECK (want && got && !strcmp (want, got), "valid UTF-8: %s, without encoding support %s", Q (got), Q (want)); mc_outcome ("valid accepted"); }
	mc_nontrivial ();
}
/* invalid content anywhere in a long file, also after the root element */
static void part_late (void)
{
	int at = mc_choose (40), ep = mc_choose (2), b = mc_choose (2) ? 8192 : 16384; char *t, *pad; mc_shard (); plan.every = (int[]) { 0, 1, 1000 } [mc_choose (2 + mc_thorough)];
	if (plan.every == 1 && b > 8192) mc_skip ();
	pad = ax_rep (' ', b - 60 + at * 3);
	t = ep ? ax_fmt ("<?xml version='1.0' encoding='utf-8'?><r>t</r>%s\xff", pad) : ax_fmt ("<?xml version='1.0' encoding='utf-8'?><r>t%s\xc3</r>", pad); mc_desc ("invalid byte %s after %d bytes, reads of %d", ep ? "after the root element" : "in text", (int) strlen (pad), plan.every); on ();
	MC_CHECK (!run (t, strlen (t), 1, NULL), "accepted"); MC_CHECK (!run (t, strlen (t), 0, NULL), "accepted from memory"); mc_nontrivial ();
}
/* ---------------------------------------------- detection, other encodings, switching off */
static void part_detect (void)
{
	static const char *pre[] = { "", "\xEF\xBB\xBF", "\xEF\xBB", "\xEF", "\xFF\xFE", "\xFE\xFF", "\xFF\xFE\0\0", " ", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='utf-16'?>", "<?xml version='1.0' encoding='koi8-r'?>", "<?xml version='1.0' encoding=''?>", "<?xml version='1.0' encoding='us-ascii'?>", "<?xml version='1.0' encoding='iso-8859-10'?>" };
	static const char *bod[] = { "", "<", "<a", "<a>", "<a/>", "<a></a>", "<a>t</a >", "a", "<<a/>", "<>", "<a>\xc3\xa9</a>" };
	int p = mc_choose (14), b = mc_choose (11), file; const char *dl = deliver (&file); char *t, *g, *w; mc_shard (); t = ax_fmt ("%s%s", pre[p], bod[b]); mc_desc ("%s %s", Q (t), dl);
	axl_babel_finish (); w = run (t, strlen (t), 0, NULL); on (); g = run (t, strlen (t), file, NULL);
	if (!w && p != 4 && p != 6) MC_CHECK (!g, "refused without encoding support, accepted with it: %s", Q (g));
	if (w && p != 7) MC_CHECK (g && !strcmp (w, g), "%s, without encoding support %s", Q (g), Q (w));
	mc_nontrivial ();
}
static void part_seeds (void)      /* everything that is UTF-8 parses as without encoding support, however it arrives */
{
	const char *t = seeds[mc_choose (NSEEDS)]; int n = strlen (t), m = mc_choose (3), k; char *g, *w; mc_shard (); k = mc_choose (n); n = m == 1 ? k : n; if (m == 0) plan.every = k + 1; else plan.cut = k;
	if (m == 1) plan.every = 3;
	mc_desc ("%s first %d bytes, every %d cut %d", Q (t), n, plan.every, plan.cut); axl_babel_finish (); w = run (t, n, 0, NULL); on (); g = run (t, n, m != 2 || 1, NULL);
	MC_CHECK (!w == !g && (!w || !strcmp (w, g)), "%s, without encoding support %s", Q (g), Q (w)); mc_nontrivial ();
}
static void part_switch (void)
{
	int e = mc_choose (10), seq = mc_choose (16), i, x = 0; char *raw, *t, *g; mc_shard (); t = ax_fmt ("%s<r>\xe1\xe2</r>", hdr (e, 1)); mc_desc ("switching pattern %d part %d", seq, iso_part[e]); axl_babel_finish (); raw = run (t, strlen (t), 0, NULL); MC_CHECK (raw, "refused");
	for (i = 0; i < 4; i++) { int want = seq >> i & 1; if (want) on (); else axl_babel_finish (); g = run (t, strlen (t), i & 1, NULL); MC_CHECK (g, "refused at step %d", i); MC_CHECK (!strcmp (g, raw) == !want, "step %d: encoding support %s but got %s", i, want ? "on" : "off", Q (g)); }
	mc_nontrivial ();
}
static void part_errors (void)
{
	int iso = mc_choose (2), at, n; char *t = ax_fmt ("%s<r k='\xe9'>t<a/>\xe9</r>", iso ? hdr (0, 0) : "<?xml version='1.0' encoding='utf-8'?>"), *g; mc_shard (); if (!iso) t = "<?xml version='1.0' encoding='utf-8'?><r k='\xc3\xa9'>t\xc3\xa9</r>"; n = strlen (t); at = mc_choose (n + 1); plan.every = mc_choose (3); plan.err = EIO; plan.errat = at;
	mc_desc ("%s: read error after %d bytes", Q (t), at); on (); g = run (t, n, 1, NULL); if (plan.hits) MC_CHECK (!g, "a read error goes unnoticed"); mc_nontrivial ();
}

/* a file that ends, or whose reading fails, in the middle of a character */
static void part_truncated (void)
{
	static const char *ch[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }, *form[] = { "<r>x%s</r>", "<r k='%s'/>", "<r><!--%s--></r>", "<r><![CDATA[%s]]></r>", "<%s/>", "<r/><!--%s-->", "<r><?p %s?></r>" };
	int c = mc_choose (3), f = mc_choose (7), h = mc_choose (3), big = mc_choose (3), n, k, cl = strlen (ch[c]), err, at; char *body, *t, *w, *g; const char *head = (const char *[]) { "<?xml version='1.0' encoding='utf-8'?>", "\xEF\xBB\xBF", "\xEF\xBB\xBF<?xml version='1.0' encoding='utf-8'?>" } [h]; mc_shard ();
	body = ax_fmt (form[f], ch[c]); at = strstr (body, ch[c]) - body; plan.every = (int[]) { 0, 1, 2, 3, 5 } [mc_choose (5)]; err = mc_choose (3);
	if (big) { int l = 8192 * big - strlen (head) - at - mc_choose (cl + 1); t = ax_fmt ("%s%s%s", head, ax_rep (' ', l), body); if (plan.every == 1 || plan.every == 2) mc_skip (); } else t = ax_fmt ("%s%s", head, body);
	n = strlen (t); k = n - mc_choose (strlen (body) + 1); if (err) { plan.err = err == 1 ? EIO : EINTR; plan.errat = k; if (err == 2) plan.err = 0; }
	mc_desc ("%s after %d bytes, %s after %d, reads of %d", Q (body), n - (int) strlen (body), err == 1 ? "read error" : err == 2 ? "cut between two reads" : "end of file", k, plan.every);
	if (err == 2) { plan.cut = k; plan.errat = 0; } on (); w = run (t, err ? n : k, 0, NULL); MC_CHECK (err || k == n ? w != NULL : !w || f == 5, "from memory: %s", Q (w)); g = run (t, err ? n : k, 1, NULL);
	if (err == 1) { if (plan.hits) MC_CHECK (!g, "a read error goes unnoticed"); } else MC_CHECK (!w == !g && (!w || !strcmp (w, g)), "%s, from memory %s", Q (g), Q (w));
	mc_outcome (err == 1 ? "read error" : g ? "whole document" : "truncated"); mc_nontrivial ();
}
void mc_case (void)
{
	memset (&plan, 0, sizeof plan); ax_reset (); axl_babel_finish ();
	switch (mc_choose (13)) {
	case 0: part_bytes (); break; case 1: part_two (); break; case 2: part_grow (); break; case 3: part_boundary (); break; case 4: part_check (); break; case 5: part_single (); break;
	case 6: part_utf8doc (); break; case 7: part_late (); break; case 8: part_detect (); break; case 9: part_seeds (); break; case 10: part_switch (); break; case 11: part_truncated (); break; default: part_errors ();
	}
	axl_babel_finish ();
}
