/* Independent recogniser of documents over raw bytes.
 * rec_doc() returns REC_BAD when the text is malformed in one of the claimed ways, REC_OK when it is
 * well-formed, REC_ANY when the library's verdict is not claimed (XML fine print it does not
 * implement: bare '&', '<' or missing blanks in attribute lists, odd names, '--' in comments, ...). */
#ifndef REC_H
#define REC_H
#include <string.h>
enum { REC_BAD, REC_OK, REC_ANY };
typedef struct { const char *p, *e; int any; const char *why; } Rec;
static int rec_ws (int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int rec_isname (int c) { return c > 127 || c < 0 || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == ':' || c == '-' || c == '.'; }
static int rec_markup (int c) { return c == 0 || strchr ("<>&/='\" \t\r\n", c) != NULL; }
static int rec_at (Rec *r, const char *s) { size_t n = strlen (s); return (size_t) (r->e - r->p) >= n && !memcmp (r->p, s, n); }
static int rec_eat (Rec *r, const char *s) { if (!rec_at (r, s)) return 0; r->p += strlen (s); return 1; }
static const char *rec_find (Rec *r, const char *s) { return memmem (r->p, r->e - r->p, s, strlen (s)); }
static void rec_skip (Rec *r) { while (r->p < r->e && rec_ws (*r->p)) r->p++; }
static int rec_bad (Rec *r, const char *w) { r->why = w; return 0; }
/* a name: stops at markup; only characters of the safe set are claimed */
static int rec_name (Rec *r, const char **s, int *n)
{
	*s = r->p;
	while (r->p < r->e && !rec_markup (*r->p)) { if (!rec_isname (*r->p)) r->any = 1; r->p++; }
	*n = r->p - *s;
	if (*n && ((**s >= '0' && **s <= '9') || **s == '-' || **s == '.')) r->any = 1;
	return *n > 0;
}
static int rec_comment (Rec *r)
{
	const char *q; r->p += 4; q = rec_find (r, "-->");
	if (!q) return rec_bad (r, "unterminated comment");
	if (memmem (r->p, q - r->p, "--", 2) || (q > r->p && q[-1] == '-')) r->any = 1;
	r->p = q + 3; return 1;
}
static int rec_pi (Rec *r)
{
	const char *q, *t; r->p += 2; q = rec_find (r, "?>");
	if (!q) return rec_bad (r, "unterminated instruction");
	for (t = r->p; t < q && !rec_ws (*t); t++) if (!rec_isname (*t)) r->any = 1;
	if (t == r->p) r->any = 1;                       /* no target */
	else if (t - r->p == 3 && !strncasecmp (r->p, "xml", 3)) return rec_bad (r, "reserved instruction target");
	r->p = q + 2; return 1;
}
/* opening tag after '<'; returns 1 open, 2 empty, 0 bad */
static int rec_tag (Rec *r, const char **nm, int *nn, int *space)
{
	struct { const char *s; int n; } at[64]; int na = 0, i;
	*space = -1;
	if (!rec_name (r, nm, nn)) return rec_bad (r, "no element name");
	if (**nm == '!' || **nm == '?') return rec_bad (r, "not an element");
	while (1) {
		const char *s, *v, *b = r->p; int n, q; rec_skip (r);
		if (r->p >= r->e) return rec_bad (r, "unterminated tag");
		if (rec_eat (r, "/>")) return 2;
		if (*r->p == '>') { r->p++; return 1; }
		if (!rec_name (r, &s, &n)) return rec_bad (r, "markup inside a tag");
		if (b == s) r->any = 1;                  /* no blank before the attribute */
		rec_skip (r);
		if (r->p >= r->e || *r->p != '=') return rec_bad (r, "attribute without value");
		r->p++; rec_skip (r);
		if (r->p >= r->e || (*r->p != '"' && *r->p != '\'')) return rec_bad (r, "unquoted attribute value");
		q = *r->p++; v = r->p;
		while (r->p < r->e && *r->p != q) { if (*r->p == '<') r->any = 1; if (*r->p == '&') r->any = 1; r->p++; }
		if (r->p >= r->e) return rec_bad (r, "unterminated attribute value");
		for (i = 0; i < na; i++) if (at[i].n == n && !memcmp (at[i].s, s, n)) return rec_bad (r, "duplicate attribute");
		if (na < 64) { at[na].s = s; at[na++].n = n; }
		if (n == 9 && !memcmp (s, "xml:space", 9)) {
			if (r->p - v == 8 && !memcmp (v, "preserve", 8)) *space = 1;
			else if (r->p - v == 7 && !memcmp (v, "default", 7)) *space = 0;
			else return rec_bad (r, "xml:space value");
		}
		r->p++;
	}
}
static int rec_pseudo (Rec *r, const char *name, int kind)   /* kind 0 version 1 encoding 2 standalone; 1 present, 0 absent, -1 bad, -2 any */
{
	const char *b = r->p, *v; int q;
	rec_skip (r);
	if (!rec_at (r, name)) { r->p = b; return 0; }
	r->p += strlen (name);
	if (rec_ws (r->p < r->e ? *r->p : 0)) return -2;
	if (!rec_eat (r, "=")) return -1;
	if (rec_ws (r->p < r->e ? *r->p : 0)) return -2;
	if (r->p >= r->e || (*r->p != '"' && *r->p != '\'')) return -1;
	q = *r->p++; v = r->p;
	while (r->p < r->e && *r->p != '"' && *r->p != '\'') r->p++;
	if (r->p >= r->e) return -1;
	if (*r->p != q) return -2;
	if (kind == 0 && !(r->p - v == 3 && !memcmp (v, "1.0", 3))) return -1;
	if (kind == 2 && !(r->p - v == 3 && !memcmp (v, "yes", 3)) && !(r->p - v == 2 && !memcmp (v, "no", 2))) return -2;
	if (kind == 1 && r->p == v) return -2;
	r->p++; return 1;
}
static int rec_misc (Rec *r)
{
	while (1) {
		rec_skip (r);
		if (rec_at (r, "<!--")) { if (!rec_comment (r)) return 0; }
		else if (rec_at (r, "<?")) { if (!rec_pi (r)) return 0; }
		else return 1;
	}
}
static int rec_run (Rec *r)
{
	struct { const char *s; int n; } st[128]; int d = 0, k, sp;
	rec_eat (r, "\xEF\xBB\xBF");
	if (rec_at (r, "<?xml") && r->p + 5 < r->e && rec_ws (r->p[5])) {
		r->p += 5;
		if ((k = rec_pseudo (r, "version", 0)) == 0 || k == -1) return rec_bad (r, "version"); if (k == -2) { r->any = 2; return 1; }
		if ((k = rec_pseudo (r, "encoding", 1)) == -1) return rec_bad (r, "encoding"); if (k == -2) { r->any = 2; return 1; }
		if ((k = rec_pseudo (r, "standalone", 2)) == -1) return rec_bad (r, "standalone"); if (k == -2) { r->any = 2; return 1; }
		rec_skip (r);
		if (!rec_eat (r, "?>")) return rec_bad (r, "unterminated declaration");
	}
	if (!rec_misc (r)) return 0;
	if (rec_at (r, "<!DOCTYPE")) { const char *q = rec_find (r, ">");
		if (!q) return rec_bad (r, "unterminated doctype");
		if (memchr (r->p, '[', q - r->p) || memchr (r->p + 1, '<', q - r->p - 1) || memchr (r->p, '\'', q - r->p) || memchr (r->p, '"', q - r->p) || !rec_ws (r->p[9])) r->any = 1;
		r->p = q + 1; if (!rec_misc (r)) return 0; }
	if (!rec_eat (r, "<")) return rec_bad (r, "no root element");
	do {
		if (d == 0) { const char *s; int n;
			k = rec_tag (r, &s, &n, &sp); if (!k) return 0;
			if (k == 2) break;
			st[d].s = s; st[d++].n = n; continue; }
		if (r->p >= r->e) return rec_bad (r, "element not closed");
		if (*r->p != '<') { if (*r->p == '&') r->any = 1; if (*r->p == 0) { r->any = 2; return 1; } r->p++; continue; }
		if (rec_at (r, "<!--")) { if (!rec_comment (r)) return 0; }
		else if (rec_at (r, "<?")) { if (!rec_pi (r)) return 0; }
		else if (rec_at (r, "<![CDATA[")) { const char *q; r->p += 9; q = rec_find (r, "]]>"); if (!q) return rec_bad (r, "unterminated CDATA"); r->p = q + 3; }
		else if (rec_eat (r, "</")) { const char *s = r->p, *q = rec_find (r, ">"), *t;
			if (!q) return rec_bad (r, "unterminated closing tag");
			for (t = q; t > s && rec_ws (t[-1]); t--);
			if (t - s != st[d - 1].n || memcmp (s, st[d - 1].s, t - s)) return rec_bad (r, "closing tag does not match");
			d--; r->p = q + 1; }
		else { const char *s; int n; r->p++;
			k = rec_tag (r, &s, &n, &sp); if (!k) return 0;
			if (k == 1) { if (d >= 128) { r->any = 2; return 1; } st[d].s = s; st[d++].n = n; } }
	} while (d > 0);
	if (!rec_misc (r)) return 0;
	if (r->p < r->e && *r->p == 0) { r->any = 1; return 1; }
	if (r->p < r->e) return rec_bad (r, "content after the root element");
	return 1;
}
static int rec_doc (const char *t, int n, const char **why)
{
	Rec r; int ok;
	memset (&r, 0, sizeof r); r.p = t; r.e = t + n;
	if (memchr (t, 0, n)) { if (why) *why = "NUL"; return REC_ANY; }
	ok = rec_run (&r); if (why) *why = r.why;
	if (r.any == 2) return REC_ANY;
	if (!ok) return REC_BAD;
	return r.any ? REC_ANY : REC_OK;
}
#endif
