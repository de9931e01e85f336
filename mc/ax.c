#include "ax.h"
#include <sys/mman.h>

static char *ar; static size_t arn; static const size_t arcap = (size_t) 1 << 30;
void ax_reset (void) { arn = 0; }
void *ax_alloc (size_t n)
{
	if (!ar) { ar = mmap (NULL, arcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (ar == MAP_FAILED) abort (); }
	n = (n + 15) & ~(size_t) 15;
	if (arn + n > arcap) { fprintf (stderr, "arena exhausted\n"); _exit (3); }
	void *p = ar + arn; arn += n; memset (p, 0, n); return p;
}
char *ax_dupn (const char *s, int n) { char *p = ax_alloc (n + 1); memcpy (p, s, n); p[n] = 0; return p; }
char *ax_dup (const char *s) { return s ? ax_dupn (s, strlen (s)) : NULL; }
char *ax_rep (char c, int n) { char *p = ax_alloc (n + 1); memset (p, c, n); p[n] = 0; return p; }
char *ax_fmt (const char *f, ...)
{
	va_list a; int n; char *p; va_start (a, f); n = vsnprintf (NULL, 0, f, a); va_end (a);
	p = ax_alloc (n + 1); va_start (a, f); vsnprintf (p, n + 1, f, a); va_end (a); return p;
}
void sb_addn (SB *b, const char *s, int n)
{
	if (b->n + n + 1 > b->cap) { int nc = b->cap ? b->cap * 2 : 256; while (nc < b->n + n + 1) nc *= 2;
		char *p = ax_alloc (nc); if (b->n) memcpy (p, b->p, b->n); b->p = p; b->cap = nc; }
	memcpy (b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
void sb_add (SB *b, const char *s) { sb_addn (b, s, strlen (s)); }
void sb_c (SB *b, char c) { sb_addn (b, &c, 1); }
void sb_f (SB *b, const char *f, ...)
{
	va_list a; int n; char *p; va_start (a, f); n = vsnprintf (NULL, 0, f, a); va_end (a);
	p = ax_alloc (n + 1); va_start (a, f); vsnprintf (p, n + 1, f, a); va_end (a); sb_addn (b, p, n);
}
char *sb_str (SB *b) { if (!b->p) sb_add (b, ""); return b->p; }

RN *rn_new (int kind, const char *name, const char *text) { RN *n = ax_alloc (sizeof *n); n->kind = kind; n->name = ax_dup (name); n->text = ax_dup (text); return n; }
RN *rn_elem (const char *name) { return rn_new (R_ELEM, name, NULL); }
void rn_add (RN *p, RN *c) { c->parent = p; c->prev = p->last; c->next = NULL; if (p->last) p->last->next = c; else p->first = c; p->last = c; }
void rn_after (RN *r, RN *c) { RN *p = r->parent; c->parent = p; c->prev = r; c->next = r->next; if (r->next) r->next->prev = c; else p->last = c; r->next = c; }
void rn_unlink (RN *c)
{
	RN *p = c->parent; if (!p) return;
	if (c->prev) c->prev->next = c->next; else p->first = c->next;
	if (c->next) c->next->prev = c->prev; else p->last = c->prev;
	c->parent = c->next = c->prev = NULL;
}
RA *rn_attr (RN *n, const char *k) { RA *a; for (a = n->attrs; a; a = a->next) if (!strcmp (a->k, k)) return a; return NULL; }
void rn_set (RN *n, const char *k, const char *v)
{
	RA *a = rn_attr (n, k), **p; if (a) { a->v = ax_dup (v); return; }
	a = ax_alloc (sizeof *a); a->k = ax_dup (k); a->v = ax_dup (v); for (p = &n->attrs; *p; p = &(*p)->next); *p = a;
}
void rn_unset (RN *n, const char *k) { RA **p; for (p = &n->attrs; *p; p = &(*p)->next) if (!strcmp ((*p)->k, k)) { *p = (*p)->next; return; } }
int rn_nattrs (RN *n) { RA *a; int c = 0; for (a = n->attrs; a; a = a->next) c++; return c; }
int rn_nelems (RN *n) { RN *c; int k = 0; for (c = n->first; c; c = c->next) k += c->kind == R_ELEM; return k; }
RN *rn_elem_next (RN *n) { for (n = n->next; n && n->kind != R_ELEM; n = n->next); return n; }
RN *rn_elem_prev (RN *n) { for (n = n->prev; n && n->kind != R_ELEM; n = n->prev); return n; }
RN *rn_first_elem (RN *n) { for (n = n->first; n && n->kind != R_ELEM; n = n->next); return n; }
RN *rn_last_elem (RN *n) { for (n = n->last; n && n->kind != R_ELEM; n = n->prev); return n; }
RN *rn_copy (RN *n, int attrs, int childs)
{
	RN *c = rn_new (n->kind, n->name, n->text), *k; RA *a;
	if (attrs) for (a = n->attrs; a; a = a->next) rn_set (c, a->k, a->v);
	if (childs) for (k = n->first; k; k = k->next) rn_add (c, rn_copy (k, 1, 1));
	return c;
}
static int seq (const char *a, const char *b) { return a == b || (a && b && !strcmp (a, b)); }
int rn_equal (RN *a, RN *b)
{
	RA *x; RN *c, *d;
	if (a->kind != b->kind || !seq (a->name, b->name) || !seq (a->text, b->text) || rn_nattrs (a) != rn_nattrs (b)) return 0;
	for (x = a->attrs; x; x = x->next) { RA *y = rn_attr (b, x->k); if (!y || strcmp (x->v, y->v)) return 0; }
	for (c = a->first, d = b->first; c && d; c = c->next, d = d->next) if (!rn_equal (c, d)) return 0;
	return !c && !d;
}
uint64_t rn_hash (RN *n)
{
	uint64_t h = mc_hash (&n->kind, sizeof n->kind, 5), s = 0; RA *a; RN *c;
	if (n->name) h = mc_hash (n->name, strlen (n->name), h);
	if (n->text) h = mc_hash (n->text, strlen (n->text), h ^ 3);
	for (a = n->attrs; a; a = a->next) s += mc_hash (a->v, strlen (a->v), mc_hash (a->k, strlen (a->k), 9));
	h = mc_hash (&s, 8, h);
	for (c = n->first; c; c = c->next) { uint64_t k = rn_hash (c); h = mc_hash (&k, 8, h); }
	return h;
}
void rn_show (SB *b, RN *n)
{
	RA *a; RN *c;
	switch (n->kind) {
	case R_TEXT: sb_add (b, n->text); return;
	case R_CDATA: sb_f (b, "<![CDATA[%s]]>", n->text); return;
	case R_COMMENT: sb_f (b, "<!--%s-->", n->text); return;
	case R_PI: if (n->text) sb_f (b, "<?%s %s?>", n->name, n->text); else sb_f (b, "<?%s?>", n->name); return;
	}
	sb_f (b, "<%s", n->name);
	for (a = n->attrs; a; a = a->next) { char q = strchr (a->v, '"') ? '\'' : '"'; sb_f (b, " %s=%c%s%c", a->k, q, a->v, q); }
	if (!n->first) { sb_add (b, "/>"); return; }
	sb_c (b, '>'); for (c = n->first; c; c = c->next) rn_show (b, c); sb_f (b, "</%s>", n->name);
}
char *rn_str (RN *n) { SB b = {0}; if (!n) return "(none)"; rn_show (&b, n); return sb_str (&b); }

static const int itype[] = { ITEM_NODE, ITEM_CONTENT, ITEM_CDATA, ITEM_COMMENT, ITEM_PI };
static const char *kname[] = { "element", "text", "CDATA", "comment", "PI" };
static const char *trimdup (const char *s) { int n; while (*s == ' ') s++; n = strlen (s); while (n && s[n - 1] == ' ') n--; return ax_dupn (s, n); }

static int cnt_fe; static RN *fe_m; static int fe_bad;
static axl_bool fe_cb (const char *k, const char *v, axlPointer a, axlPointer b)
{
	RA *x = rn_attr (fe_m, k); cnt_fe++; if (a != (axlPointer) 0x11 || b != (axlPointer) 0x22 || !x || strcmp (x->v, v)) fe_bad = 1; return axl_false;
}

void ax_check (axlNode *node, RN *m, axlDoc *doc, int flags, const char *ctx)
{
	RN *c; RA *a; axlItem *it, *prev = NULL; int i, n, sz, nt = 0, na; axlNode *x; axlAttrCursor *cur; const char *firsttext = NULL; int ftk = 0;
	MC_CHECK (node, "%s: node missing where %s expected", ctx, Q (rn_str (m)));
	MC_CHECK (axl_node_get_name (node) && !strcmp (axl_node_get_name (node), m->name), "%s: node name %s, expected %s", ctx, Q (axl_node_get_name (node)), Q (m->name));
	if (flags & AXF_BIND) m->impl = node;
	/* attributes */
	na = rn_nattrs (m);
	MC_CHECK (axl_node_num_attributes (node) == na, "%s: <%s> has %d attributes, expected %d", ctx, m->name, axl_node_num_attributes (node), na);
	MC_CHECK (!axl_node_has_attributes (node) == !na, "%s: <%s> has_attributes=%d, expected %d attributes", ctx, m->name, axl_node_has_attributes (node), na);
	for (a = m->attrs; a; a = a->next) {
		const char *v = axl_node_get_attribute_value (node, a->k);
		MC_CHECK (axl_node_has_attribute (node, a->k), "%s: attribute %s of <%s> missing", ctx, Q (a->k), m->name);
		MC_CHECK (v && !strcmp (v, a->v), "%s: attribute %s of <%s> is %s, expected %s", ctx, Q (a->k), m->name, Q (v), Q (a->v));
		MC_CHECK (axl_node_has_attribute_value (node, a->k, a->v), "%s: has_attribute_value false for %s", ctx, Q (a->k));
	}
	MC_CHECK (!axl_node_has_attribute (node, "no-such-attr") && !axl_node_get_attribute_value (node, "no-such-attr"), "%s: phantom attribute on <%s>", ctx, m->name);
	cur = axl_node_attr_cursor_new (node);
	if (cur) {
		axl_node_attr_cursor_first (cur); n = 0; unsigned char seen[512] = {0};
		while (axl_node_attr_cursor_has_item (cur)) {
			const char *k = axl_node_attr_cursor_get_key (cur), *v = axl_node_attr_cursor_get_value (cur); int idx = 0;
			for (a = m->attrs; a && strcmp (a->k, k); a = a->next) idx++;
			MC_CHECK (a && !strcmp (a->v, v), "%s: attribute cursor of <%s> shows %s=%s", ctx, m->name, Q (k), Q (v));
			if (idx < 512) { MC_CHECK (!seen[idx], "%s: attribute cursor of <%s> shows %s twice", ctx, m->name, Q (k)); seen[idx] = 1; }
			n++; MC_CHECK (n <= na, "%s: attribute cursor of <%s> shows more than %d attributes", ctx, m->name, na);
			MC_CHECK (!axl_node_attr_cursor_has_next (cur) == (n == na), "%s: attribute cursor has_next wrong after %d of %d attributes", ctx, n, na);
			axl_node_attr_cursor_next (cur);
		}
		MC_CHECK (n == na, "%s: attribute cursor of <%s> shows %d attributes, expected %d", ctx, m->name, n, na);
		axl_node_attr_cursor_free (cur);
	} else MC_CHECK (na == 0, "%s: no attribute cursor for <%s>", ctx, m->name);
	fe_m = m; cnt_fe = 0; fe_bad = 0;
	axl_node_attr_foreach (node, fe_cb, (axlPointer) 0x11, (axlPointer) 0x22);
	MC_CHECK (!fe_bad && cnt_fe == na, "%s: attribute foreach of <%s> showed %d (bad=%d), expected %d", ctx, m->name, cnt_fe, fe_bad, na);
	/* items in order, both directions */
	it = axl_item_get_first_child (node); i = 0;
	for (c = m->first; c; c = c->next, i++) {
		MC_CHECK (it, "%s: item %d (%s) of <%s> missing; expected %s", ctx, i, kname[c->kind], m->name, Q (rn_str (m)));
		MC_CHECK ((int) axl_item_get_type (it) == itype[c->kind], "%s: item %d of <%s> has type %d, expected %s", ctx, i, m->name, axl_item_get_type (it), kname[c->kind]);
		MC_CHECK (axl_item_get_parent (it) == node, "%s: item %d of <%s> has the wrong parent", ctx, i, m->name);
		MC_CHECK (axl_item_get_previous (it) == prev, "%s: item %d of <%s> has the wrong previous item", ctx, i, m->name);
		if (doc && !(flags & AXF_NODOC) && !c->nd) MC_CHECK (axl_item_get_doc (it) == doc, "%s: item %d of <%s> has the wrong document", ctx, i, m->name);
		switch (c->kind) {
		case R_ELEM:
			x = axl_item_get_data (it);
			MC_CHECK (axl_item_node_holder (x) == it, "%s: holder of child %d of <%s> wrong", ctx, i, m->name);
			MC_CHECK (axl_item_node_next (x) == axl_item_get_next (it) && axl_item_node_previous (x) == prev, "%s: item links of child %d of <%s> wrong", ctx, i, m->name);
			break;
		case R_TEXT: case R_CDATA: case R_COMMENT: {
			char *t; const char *e = c->text; sz = -5; t = axl_item_get_content (it, &sz);
			MC_CHECK (t, "%s: item %d of <%s> has no content", ctx, i, m->name);
			if (c->kind == R_COMMENT && (flags & AXF_TRIM)) { t = (char *) trimdup (t); e = trimdup (e); sz = strlen (t); }
			MC_CHECK (!strcmp (t, e) && sz == (int) strlen (e), "%s: %s item %d of <%s> is %s (size %d), expected %s", ctx, kname[c->kind], i, m->name, Q (t), sz, Q (e));
			if (c->kind != R_COMMENT) { if (!nt) { firsttext = c->text; ftk = c->kind; } nt++; }
			break; }
		case R_PI: {
			axlPI *pi = axl_item_get_data (it);
			MC_CHECK (pi && !strcmp (axl_pi_get_name (pi), c->name), "%s: PI item %d of <%s> has target %s, expected %s", ctx, i, m->name, Q (axl_pi_get_name (pi)), Q (c->name));
			{ const char *pc = axl_pi_get_content (pi);
			MC_CHECK ((!pc || !*pc) ? (!c->text || !*c->text) : (c->text && !strcmp (pc, c->text)), "%s: PI %s has content %s, expected %s", ctx, Q (c->name), Q (pc), Q (c->text)); }
			break; }
		}
		prev = it; it = axl_item_get_next (it);
	}
	MC_CHECK (!it, "%s: <%s> has more than the expected %d items; expected %s", ctx, m->name, i, Q (rn_str (m)));
	MC_CHECK (axl_item_get_last_child (node) == prev, "%s: last item of <%s> wrong", ctx, m->name);
	/* text views */
	MC_CHECK (!axl_node_is_empty (node) == !!nt, "%s: <%s> is_empty=%d with %d text items", ctx, m->name, axl_node_is_empty (node), nt);
	sz = -9;
	{ const char *t = axl_node_get_content (node, &sz); (void) ftk;
	  MC_CHECK (t && !strcmp (t, nt ? firsttext : "") && sz == (int) strlen (nt ? firsttext : ""), "%s: content of <%s> is %s (size %d), expected %s", ctx, m->name, Q (t), sz, Q (nt ? firsttext : "")); }
	/* element views */
	n = rn_nelems (m);
	MC_CHECK (axl_node_get_child_num (node) == n, "%s: <%s> child count %d, expected %d", ctx, m->name, axl_node_get_child_num (node), n);
	MC_CHECK (!axl_node_have_childs (node) == !n, "%s: <%s> have_childs wrong", ctx, m->name);
	x = axl_node_get_first_child (node);
	axlNode *px = NULL; i = 0;
	for (c = rn_first_elem (m); c; c = rn_elem_next (c), i++) {
		MC_CHECK (x, "%s: child element %d of <%s> not reachable through siblings", ctx, i, m->name);
		if (n <= 40 || i < 3 || i > n - 3) MC_CHECK (axl_node_get_child_nth (node, i) == x, "%s: child_nth(%d) of <%s> wrong", ctx, i, m->name);
		MC_CHECK (axl_node_get_parent (x) == node, "%s: parent of child %d of <%s> wrong", ctx, i, m->name);
		MC_CHECK (axl_node_get_previous (x) == px, "%s: previous sibling of child %d of <%s> wrong", ctx, i, m->name);
		if (doc && !(flags & AXF_NODOC) && !c->nd) MC_CHECK (axl_node_get_doc (x) == doc, "%s: document of child %d of <%s> wrong", ctx, i, m->name);
		ax_check (x, c, doc, flags, ctx);
		px = x; x = axl_node_get_next (x);
	}
	MC_CHECK (!x, "%s: <%s> has extra sibling elements", ctx, m->name);
	MC_CHECK (axl_node_get_last_child (node) == px, "%s: last child of <%s> wrong", ctx, m->name);
	MC_CHECK (!axl_node_get_child_nth (node, n), "%s: child_nth past the end of <%s> found something", ctx, m->name);
}

RN *ax_model (axlNode *node)
{
	RN *m = rn_elem (axl_node_get_name (node)); axlItem *it; axlAttrCursor *cur = axl_node_attr_cursor_new (node);
	if (cur) { axl_node_attr_cursor_first (cur);
		while (axl_node_attr_cursor_has_item (cur)) { rn_set (m, axl_node_attr_cursor_get_key (cur), axl_node_attr_cursor_get_value (cur)); axl_node_attr_cursor_next (cur); }
		axl_node_attr_cursor_free (cur); }
	for (it = axl_item_get_first_child (node); it; it = axl_item_get_next (it)) {
		int t = axl_item_get_type (it), sz;
		if (t == ITEM_NODE) rn_add (m, ax_model (axl_item_get_data (it)));
		else if (t == ITEM_PI) { axlPI *p = axl_item_get_data (it); const char *pc = axl_pi_get_content (p); rn_add (m, rn_new (R_PI, axl_pi_get_name (p), pc && *pc ? pc : NULL)); }
		else rn_add (m, rn_new (t == ITEM_CONTENT ? R_TEXT : t == ITEM_CDATA ? R_CDATA : R_COMMENT, NULL, axl_item_get_content (it, &sz)));
	}
	return m;
}

axlDoc *ax_parse_full (const char *t, int n, axlError **perr)
{
	axlError *err = NULL; char *exact; axlDoc *d;
	/* give the parser an exactly sized heap block so that reads past the end are seen */
	exact = malloc (n ? n : 1); memcpy (exact, t, n);
	d = axl_doc_parse (exact, n, &err);
	free (exact);
	mc_trans (1);
	if (d) MC_CHECK (!err, "a document was returned together with an error: %s", axl_error_get (err));
	else {
		MC_CHECK (err, "parsing failed without reporting an error");
		MC_CHECK (!axl_error_was_ok (err), "parsing failed but the error object says ok");
		MC_CHECK (axl_error_get (err) && *axl_error_get (err), "parsing failed with an empty message"); MC_CHECK (axl_error_get_code (err), "parsing failed with error code 0");
	}
	if (perr) *perr = err; else if (err) axl_error_free (err);
	return d;
}
axlDoc *ax_parse_ok (const char *t, int n, const char *ctx)
{
	axlError *err = NULL; axlDoc *d = ax_parse_full (t, n < 0 ? (int) strlen (t) : n, &err);
	MC_CHECK (d, "%s: well-formed document refused: %s", ctx, axl_error_get (err));
	return d;
}
char *ax_dump (axlDoc *doc, int *n)
{
	char *c = NULL, *r; int s = -7, fs = axl_doc_get_flat_size (doc);
	MC_CHECK (axl_doc_dump (doc, &c, &s), "document dump failed"); mc_trans (1);
	MC_CHECK (c && s == (int) strlen (c), "document dump reports size %d for %d bytes", s, c ? (int) strlen (c) : -1);
	MC_CHECK (fs == s, "announced flat size %d differs from the dumped size %d", fs, s);
	r = ax_dupn (c, s); axl_free (c); if (n) *n = s; return r;
}
char *ax_dump_node (axlNode *node, int *n)
{
	char *c = NULL, *r; int s = -7, fs = axl_node_get_flat_size (node, axl_false, 0, 0);
	MC_CHECK (axl_node_dump (node, &c, &s), "node dump failed"); mc_trans (1);
	MC_CHECK (c && s == (int) strlen (c), "node dump reports size %d for %d bytes", s, c ? (int) strlen (c) : -1);
	MC_CHECK (fs == s, "announced node flat size %d differs from the dumped size %d", fs, s);
	r = ax_dupn (c, s); axl_free (c); if (n) *n = s; return r;
}
void ax_write_file (const char *path, const char *t, int n) { FILE *f = fopen (path, "wb"); if (!f) { perror (path); _exit (3); } fwrite (t, 1, n, f); fclose (f); }
char *ax_read_file (const char *path, int *n)
{
	FILE *f = fopen (path, "rb"); SB b = {0}; char buf[4096]; size_t r; if (!f) return NULL;
	while ((r = fread (buf, 1, sizeof buf, f)) > 0) sb_addn (&b, buf, r); fclose (f); if (n) *n = b.n; return sb_str (&b);
}
