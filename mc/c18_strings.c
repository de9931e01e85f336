/* C18: the public string helpers against straightforward re-implementations. */
#include "ax.h"
#include <axl_stream.h>
const char *mc_name = "c18_strings";
void mc_init (void) { axl_init (); }

/* every string of length <= max over an alphabet */
static char *word (const char *al, int max) { int k = strlen (al), n = 0, c; char *s = ax_alloc (max + 1); while (n < max && (c = mc_choose (k + 1))) s[n++] = al[c - 1]; return s; }
/* exactly sized heap copy: reads or writes outside are seen */
static char *hp (const char *s) { int n = strlen (s) + 1; char *p = malloc (n); memcpy (p, s, n); return p; }
static char *hpn (const char *s, int n) { char *p = malloc (n ? n : 1); memcpy (p, s, n); return p; }
static int isw (char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static void same (const char *what, const char *got, const char *exp) { MC_CHECK (got && !strcmp (got, exp), "%s gives %s, expected %s", what, Q (got), Q (exp)); }

static void trim (void)
{
	char *s = word (" \na\t", mc_thorough ? 8 : 6), *h, *e, *b; int v = mc_choose (3), t = -7, l; mc_shard (); mc_desc ("trim %s", Q (s));
	h = hp (s); for (b = s; isw (*b); b++); e = ax_dup (b); l = strlen (e); while (l && isw (e[l - 1])) e[--l] = 0;
	if (v == 0) { axl_stream_trim (h); } else if (v == 1) { axl_stream_trim_with_size (h, &t); MC_CHECK (t == (int) strlen (s) - l, "%d bytes reported trimmed, expected %d", t, (int) strlen (s) - l); } else axl_stream_trim_with_size (h, NULL);
	same ("trim", h, e); free (h); mc_nontrivial ();
}
static void ws (void)
{
	int c = mc_choose (256); char b[2]; mc_shard (); b[0] = c; b[1] = 0; mc_desc ("is_white_space %d", c);
	if (c) MC_CHECK (!axl_stream_is_white_space (b) == !isw (c), "is_white_space(%d) is %d", c, axl_stream_is_white_space (b)); mc_nontrivial ();
}
static void rem (void)
{
	char *s = word ("ab", mc_thorough ? 10 : 8), *v = word ("ab", 3), *h, *r; int first = mc_choose (2); SB o = {0}; mc_shard (); if (!*v) mc_skip (); mc_desc ("remove %s from %s first=%d", Q (v), Q (s), first);
	for (r = s; *r;) { if (!strncmp (r, v, strlen (v))) { r += strlen (v); if (first) { sb_add (&o, r); break; } } else sb_c (&o, *r++); }
	h = hp (s); axl_stream_remove (h, v, first); same ("remove", h, sb_str (&o)); free (h); mc_nontrivial ();
}
static void replace (void)
{
	/* binary data: the alphabet includes NUL */
	static const char al[] = { 'a', 'b', 0 }; char s[16], v[4], w[4]; int n = 0, m = 0, k = 0, c, i, r, max = mc_thorough ? 8 : 6, neg, repl = 0; char *h, *hv, *hw; SB o = {0};
	while (n < max && (c = mc_choose (4))) s[n++] = al[c - 1];
	while (m < 3 && (c = mc_choose (4))) v[m++] = al[c - 1];
	c = mc_choose (4); k = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : 3; memcpy (w, c == 3 ? "xay" : c == 2 ? "a\0" : "b", k);
	mc_shard ();
	neg = !memchr (s, 0, n) && !memchr (v, 0, m) && !memchr (w, 0, k);
	mc_desc ("replace %s by %s in %s", mc_q (v, m), mc_q (w, k), mc_q (s, n));
	for (i = 0; i < n;) { if (m && i + m <= n && !memcmp (s + i, v, m)) { sb_addn (&o, w, k); i += m; repl = 1; } else sb_c (&o, s[i++]); }
	for (; neg >= 0; neg--) {
		if (neg) { h = hp (ax_dupn (s, n)); hv = hp (ax_dupn (v, m)); hw = hp (ax_dupn (w, k)); r = axl_stream_replace (&h, -1, hv, -1, hw, -1); }
		else { h = hpn (s, n); hv = hpn (v, m); hw = hpn (w, k); r = axl_stream_replace (&h, n, hv, m, hw, k); }
		mc_trans (1);
		MC_CHECK (r == o.n && !memcmp (h, sb_str (&o), r), "replace gives %s (size %d), expected %s (size %d)", r <= o.n ? mc_q (h, r) : "?", r, mc_q (sb_str (&o), o.n), o.n);
		if (repl) MC_CHECK (h[r] == 0, "result not terminated");
		free (h); free (hv); free (hw); }
	mc_nontrivial ();
}
static void split_check (char **g, char **e, int n)
{
	int i; MC_CHECK (g, "split gave nothing"); for (i = 0; i < n; i++) { MC_CHECK (g[i], "split gave %d pieces, expected %d", i, n); same ("piece", g[i], e[i]); } MC_CHECK (!g[n], "split gave more than %d pieces (%s)", n, Q (g[n]));
	MC_CHECK (axl_stream_strv_num (g) == n, "strv_num %d, expected %d", axl_stream_strv_num (g), n);
}
static void split (void)
{
	static const char *sets[][3] = { { "," }, { ",," }, { ",", ";" }, { ";", "," }, { ",;", "," }, { ",", ",;" }, { ",;", ";", "a" }, { "a,", ",a" }, { ";;", ";", ",;a" } };
	char *s = word ("a,;", mc_thorough ? 8 : 7), *e[16], *r, *h, **g, *j; int k = mc_choose (9), ns = 0, n = 0, i, m; SB cur = {0}; const char **st = sets[k]; mc_shard (); while (ns < 3 && st[ns]) ns++;
	if (!*s) mc_skip ();
	mc_desc ("split %s by %s %s %s", Q (s), st[0], ns > 1 ? st[1] : "", ns > 2 ? st[2] : "");
	for (r = s;; ) { for (i = 0; i < ns && strncmp (r, st[i], strlen (st[i])); i++); if (*r && i == ns) { sb_c (&cur, *r++); continue; } e[n++] = ax_dup (sb_str (&cur)); cur.n = 0; cur.p[0] = 0; if (!*r) break; r += strlen (st[i]); }
	h = hp (s); g = ns == 1 ? axl_stream_split (h, 1, st[0]) : ns == 2 ? axl_stream_split (h, 2, st[0], st[1]) : axl_stream_split (h, 3, st[0], st[1], st[2]);
	MC_CHECK (!strcmp (h, s), "split modified its input"); free (h); mc_trans (1);
	split_check (g, e, n);
	/* joining gives the text back (single separator) */
	{ const char *sep[] = { "", ",", "--" }; for (i = 0; i < 3; i++) { SB o = {0}; for (m = 0; m < n; m++) { if (m) sb_add (&o, sep[i]); sb_add (&o, e[m]); } j = axl_stream_join (g, sep[i]); same ("join", j, sb_str (&o)); axl_free (j); } 
	  if (ns == 1) { j = axl_stream_join (g, st[0]); same ("join", j, s); axl_free (j); } }
	/* cleaning drops exactly the empty pieces */
	axl_stream_clean_split (g); for (i = m = 0; i < n; i++) if (*e[i]) e[m++] = e[i];
	split_check (g, e, m); axl_stream_freev (g); mc_nontrivial ();
}
static void cmp (void)
{
	int v = mc_choose (3); char *a = word ("aAbZ[", 3), *b = word ("aAbz{", 3), *ha, *hb; int n = mc_choose (6) - 1, la = strlen (a), lb = strlen (b), e; mc_shard (); mc_desc ("compare %s %s size %d", Q (a), Q (b), n); ha = hp (a); hb = hp (b); mc_trans (2);
	if (v == 0) { e = !strcmp (a, b); MC_CHECK (!axl_cmp (ha, hb) == !e, "axl_cmp is %d", !e); MC_CHECK (!axl_cmp (ha, NULL) && !axl_cmp (NULL, hb), "equal to NULL");
		e = !strcasecmp (a, b); MC_CHECK (!axl_casecmp (ha, hb) == !e, "axl_casecmp is %d", !e); MC_CHECK (!axl_casecmp (ha, NULL) && !axl_casecmp (NULL, hb), "equal to NULL"); }
	else if (v == 1) { /* sized: within the first string at least, as every caller does */
		e = n > 0 && !strncmp (a, b, n) && la >= n && lb >= n;
		if (n > 0 && (la >= n || lb >= n)) MC_CHECK (!axl_stream_cmp (ha, hb, n) == !e, "axl_stream_cmp is %d", !e);
		if (n <= 0) MC_CHECK (!axl_stream_cmp (ha, hb, n), "axl_stream_cmp with size %d", n);
		if (n > 0 && (la >= n || lb >= n)) MC_CHECK (!axl_memcmp (ha, hb, n) == !e, "axl_memcmp is %d", !e);
		e = n > 0 && !strncasecmp (a, b, n) && la >= n && lb >= n;
		if (n > 0 && la >= n && lb >= n) MC_CHECK (!axl_stream_casecmp (ha, hb, n) == !e, "axl_stream_casecmp is %d", !e); }
	else { /* sized comparisons of unterminated data */
		char *pa, *pb; if (n <= 0 || n > la || n > lb) mc_skip (); pa = hpn (a, n); pb = hpn (b, n);
		MC_CHECK (!axl_stream_cmp (pa, pb, n) == !!memcmp (a, b, n), "axl_stream_cmp"); MC_CHECK (!axl_memcmp (pa, pb, n) == !!memcmp (a, b, n), "axl_memcmp"); MC_CHECK (!axl_stream_casecmp (pa, pb, n) == !!strncasecmp (a, b, n), "axl_stream_casecmp"); free (pa); free (pb); }
	MC_CHECK (!strcmp (ha, a) && !strcmp (hb, b), "comparison modified its input"); free (ha); free (hb); mc_nontrivial ();
}
static void bytes (void)     /* every byte value: comparisons and case changes */
{
	int c = mc_choose (256), d; char a[4] = "x?y", *p, *q; mc_shard (); a[1] = c; mc_desc ("byte %d", c); if (!c) mc_skip ();
	for (d = 1; d < 256; d++) { char b[4] = "x?y"; b[1] = d; MC_CHECK (!axl_cmp (a, b) == (c != d), "axl_cmp %d %d", c, d); MC_CHECK (!axl_memcmp (a, b, 3) == (c != d), "axl_memcmp %d %d", c, d); MC_CHECK (!axl_stream_cmp (a, b, 3) == (c != d), "axl_stream_cmp %d %d", c, d);
		if (c < 128 && d < 128) { int e = !strcasecmp (a, b); MC_CHECK (!axl_casecmp (a, b) == !e, "axl_casecmp %d %d", c, d); MC_CHECK (!axl_stream_casecmp (a, b, 3) == !e, "axl_stream_casecmp %d %d", c, d); } mc_trans (1); }
	if (c < 128) { char u[4] = "X?Y", l[4] = "x?y"; u[1] = c >= 'a' && c <= 'z' ? c - 32 : c; l[1] = c >= 'A' && c <= 'Z' ? c + 32 : c;
		p = axl_stream_to_upper_copy (a); same ("to_upper_copy", p, u); q = axl_stream_to_lower_copy (p); { char x[4]; strcpy (x, u); x[0] = 'x'; x[2] = 'y'; x[1] = l[1]; if (c >= 'A' && c <= 'Z') x[1] = c + 32; if (c >= 'a' && c <= 'z') x[1] = c; same ("to_lower_copy", q, x); }
		axl_free (p); MC_CHECK (axl_stream_to_upper (q) == q, "to_upper returned another string"); same ("to_upper", q, u); MC_CHECK (axl_stream_to_lower (q) == q, "to_lower returned another string"); same ("to_lower", q, l); axl_free (q); MC_CHECK (a[1] == (char) c, "copy modified its input"); }
	mc_nontrivial ();
}
static void dups (void)
{
	char *a = word ("ab ", 5), *b = word ("ab", 3), *h = NULL, *g = NULL, *r; int i, n; mc_shard (); mc_desc ("dup/concat %s %s", Q (a), Q (b)); n = strlen (a); h = hp (a); g = hp (b);
	r = axl_stream_strdup (h); same ("strdup", r, a); MC_CHECK (r != h, "not a copy"); axl_free (r);
	for (i = 1; i <= n; i++) { char *u = hpn (a, i); r = axl_stream_strdup_n (u, i); same ("strdup_n", r, ax_dupn (a, i)); axl_free (r); free (u); }
	r = axl_stream_concat (h, g); same ("concat", r, ax_fmt ("%s%s", a, b)); axl_free (r);
	r = axl_stream_concat (h, NULL); same ("concat NULL", r, a); axl_free (r); r = axl_stream_concat (NULL, g); same ("concat NULL", r, b); axl_free (r); MC_CHECK (!axl_stream_concat (NULL, NULL), "concat of nothing");
	MC_CHECK (!strcmp (h, a) && !strcmp (g, b), "input modified"); free (h); free (g); mc_nontrivial ();
}
static void prints (void)
{
	static const int lens[] = { 0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 127, 255, 256, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 20000 };
	static const int vals[] = { 0, 1, -1, 9, -10, 2147483647, -2147483647 - 1 };
	char *s = ax_rep ('x', lens[mc_choose (22)]), *e, *r; int v = vals[mc_choose (7)], f = mc_choose (4), n, k, sz; mc_shard (); mc_desc ("printf len=%d %d format %d", (int) strlen (s), v, f);
#define P(fn, ...) (f == 0 ? fn (__VA_ARGS__ "%s", s) : f == 1 ? fn (__VA_ARGS__ "%d<%s>%5.2f%%", v, s, v / 3.0) : f == 2 ? fn (__VA_ARGS__ "%s|%s|%-6d|%c", s, s, v, 'c') : fn (__VA_ARGS__ "%ld %x %s", (long) v, v, s))
#define C ,
	e = f == 0 ? ax_fmt ("%s", s) : f == 1 ? ax_fmt ("%d<%s>%5.2f%%", v, s, v / 3.0) : f == 2 ? ax_fmt ("%s|%s|%-6d|%c", s, s, v, 'c') : ax_fmt ("%ld %x %s", (long) v, v, s); n = strlen (e);
	r = P (axl_stream_strdup_printf,); same ("strdup_printf", r, e); axl_free (r);
	k = P (axl_stream_printf_len,); MC_CHECK (k == n + 1, "printf_len %d, expected %d", k, n + 1);
	sz = -3; r = f == 0 ? axl_stream_strdup_printf_len ("%s", &sz, s) : f == 1 ? axl_stream_strdup_printf_len ("%d<%s>%5.2f%%", &sz, v, s, v / 3.0) : f == 2 ? axl_stream_strdup_printf_len ("%s|%s|%-6d|%c", &sz, s, s, v, 'c') : axl_stream_strdup_printf_len ("%ld %x %s", &sz, (long) v, v, s);
	same ("strdup_printf_len", r, e); MC_CHECK (sz == n, "reported size %d, expected %d", sz, n); axl_free (r);
	{ int bs[] = { 1, 2, 5, n / 2 + 1, n, n + 1, n + 2, n + 20 }, i, rs; for (i = 0; i < 8; i++) { char *b; int cap = bs[i]; if (cap < 1) continue; b = malloc (cap); rs = -5; k = P (axl_stream_printf_buffer, b C cap C &rs C);
		{ int w = n < cap ? n : cap - 1; MC_CHECK (k == w, "printf_buffer of %d bytes returned %d, expected %d", cap, k, w); MC_CHECK (b[w] == 0 && !memcmp (b, e, w), "printf_buffer content wrong"); MC_CHECK (rs == n, "real size %d, expected %d", rs, n); } free (b); mc_trans (1); } }
	{ axlError *er = NULL; axlStream *st; char *h = hp (e); P (axl_error_report, &er C v C); MC_CHECK (er && !axl_error_was_ok (er) && axl_error_get_code (er) == v, "error reported with code %d, got %d", v, axl_error_get_code (er)); same ("error_report", axl_error_get (er), e); axl_error_free (er);
	  er = NULL; axl_error_new (v, h, NULL, &er); memset (h, 'q', n); free (h); MC_CHECK (er && !axl_error_was_ok (er) && axl_error_get_code (er) == v, "error made with code %d, got %d", v, axl_error_get_code (er)); same ("error_new", axl_error_get (er), e); axl_error_free (er); MC_CHECK (axl_error_was_ok (NULL), "no error isn't ok");
	  er = NULL; st = axl_stream_new ("<a><b/></a>", -1, NULL, -1, NULL); axl_stream_inspect (st, "<a>", 3); axl_error_new (v, e, st, &er); MC_CHECK (er && axl_error_get_code (er) == v && strstr (axl_error_get (er), e), "the error lost its message or code"); axl_error_free (er); axl_error_new (v, e, st, NULL); P (axl_error_report, NULL C v C); axl_stream_free (st); mc_trans (5); }
	mc_nontrivial ();
}
void mc_case (void)
{
	ax_reset ();
	switch (mc_choose (9)) { case 0: trim (); break; case 1: ws (); break; case 2: rem (); break; case 3: replace (); break; case 4: split (); break; case 5: cmp (); break; case 6: bytes (); break; case 7: dups (); break; default: prints (); }
}
