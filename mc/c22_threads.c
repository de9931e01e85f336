/* C22: several threads, each with its own objects or reading shared ones.
 *
 * The library is compiled with the compiler's thread instrumentation, and this file is the runtime: every
 * memory access of the library (and of the string functions it calls) arrives here before it happens.  Two
 * "threads" are coroutines.  One execution records what each touched; if no byte written by one is touched by
 * the other, every interleaving of the two is equivalent to that execution (all steps commute), and it is the
 * only one to run.  Otherwise the code locations that touched such bytes become scheduling points (before and
 * after the access) and all interleavings over them are run, up to a number of preemptions; new conflicts found
 * on the way are added until there are none.  In every execution each thread must get what it gets alone. */
#include "ax.h"
#include <axl_ns.h>
#include <axl_babel.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
const char *mc_name = "c22_threads";
typedef unsigned long U;
extern void __sanitizer_start_switch_fiber (void **save, const void *bottom, size_t size);
extern void __sanitizer_finish_switch_fiber (void *save, const void **bottom, size_t *size);
extern int __sanitizer_install_malloc_and_free_hooks (void (*m) (const volatile void *, size_t), void (*f) (const volatile void *));

/* ---- threads ---- */
#define STK (2 << 20)
static ucontext_t ctx[3]; static char *stk[2]; static int cur = -1, done[2]; static void *fake[3]; static const void *main_bot; static size_t main_sz;
static char *res[2]; typedef char *(*Prog) (int who); static Prog prog[2][2]; static int sched[65536], arity[65536], nsched, fixed, budget, used, choosing, pend_after[2]; static long npoints;
static volatile int hook_guard;
static void go (int to)
{
	int from = cur < 0 ? 2 : cur;
	cur = to;
	__sanitizer_start_switch_fiber (from < 2 && done[from] ? NULL : &fake[from], to < 0 ? main_bot : stk[to], to < 0 ? main_sz : STK);
	swapcontext (&ctx[from], &ctx[to < 0 ? 2 : to]);
	__sanitizer_finish_switch_fiber (fake[from], NULL, NULL);
}
static void body (int who)
{
	SB b = {0}; int i; const void *bt; size_t sz;
	__sanitizer_finish_switch_fiber (NULL, &bt, &sz); if (!main_bot) { main_bot = bt; main_sz = sz; }
	for (i = 0; i < 2; i++) if (prog[who][i]) { char *r = prog[who][i] (who); sb_add (&b, r); sb_add (&b, "|"); }
	res[who] = sb_str (&b); done[who] = 1;
	go (done[!who] ? -1 : !who);
	abort ();
}
static int pick (int n)          /* a choice of the schedule */
{
	int c; if (nsched >= 65535) return 0;
	c = nsched < fixed ? sched[nsched] : 0; sched[nsched] = c; arity[nsched] = n; nsched++; return c;
}

/* ---- memory accesses ---- */
typedef struct { U g; unsigned gen; unsigned char r[2], w[2], owner; U rp[2][2], wp[2][2]; } Cell;
#define NC (1 << 20)
static Cell *cells; static unsigned gen; static int recording;
static U race[4096], place[4096]; static int nrace, nplace; extern char __executable_start[], _end[];
static Cell *cell (U g, int make)
{
	U k = (g * 0x9E3779B97F4A7C15ul >> 20) & (NC - 1);
	for (;; k = (k + 1) & (NC - 1)) { Cell *c = cells + k; if (c->gen != gen) { if (!make) return NULL; memset (c, 0, sizeof *c); c->gen = gen; c->g = g; return c; } if (c->g == g) return c; }
}
static int is_race (U pc) { int i; for (i = 0; i < nrace; i++) if (race[i] == pc) return 1; return 0; }
static void add_race (U pc) { if (pc && !is_race (pc) && nrace < 4096) race[nrace++] = pc; }
static void point (void)
{
	if (used >= budget || done[!cur]) return;
	npoints++; if (pick (2)) { used++; go (!cur); }
}
/* may the other thread use this memory? places known to conflict in the program's image; memory of this thread only once the other one has used it */
static int is_shared (U a, U n)
{
	U g; int i; Cell *c;
	for (g = a >> 3; g <= (a + n - 1) >> 3; g++) {
		if (g << 3 >= (U) __executable_start && g << 3 < (U) _end) { for (i = 0; i < nplace; i++) if (place[i] == g) return 1; continue; }
		c = cell (g, 0); if (c && (c->r[!cur] || c->w[!cur])) return 1;
		if (a >= (U) stk[cur] && a < (U) stk[cur] + STK) continue; if (!c || c->owner != cur + 1) return 1; }
	return 0;
}
static void access_ (U a, U n, int wr, U pc)
{
	int me, o; U g;
	if (!recording || cur < 0 || hook_guard || !n) return;
	if (choosing) { if (pend_after[cur]) { pend_after[cur] = 0; point (); } if (nrace && is_race (pc) && is_shared (a, n)) { point (); pend_after[cur] = 1; } }
	hook_guard = 1; me = cur; o = !me;
	for (g = a >> 3; g <= (a + n - 1) >> 3; g++) {
		unsigned m = 255; Cell *c; if (g == a >> 3) m &= 255u << (a & 7); if (g == (a + n - 1) >> 3) m &= 255u >> (7 - ((a + n - 1) & 7));
		c = cell (g, 1);
		if ((c->w[o] & m) || (wr && (c->r[o] & m))) { int i; add_race (pc); for (i = 0; i < nplace && place[i] != g; i++) ; if (i == nplace && nplace < 4096) place[nplace++] = g; for (i = 0; i < 2; i++) { add_race (c->wp[o][i]); if (wr) add_race (c->rp[o][i]); } }
		if (wr) { c->w[me] |= m; if (c->wp[me][0] != pc) { c->wp[me][1] = c->wp[me][0]; c->wp[me][0] = pc; } } else { c->r[me] |= m; if (c->rp[me][0] != pc) { c->rp[me][1] = c->rp[me][0]; c->rp[me][0] = pc; } }
	}
	hook_guard = 0;
}
static void on_malloc (const volatile void *p, size_t n) { U g; Cell *c; if (!recording || cur < 0 || n > 1 << 22 || hook_guard) return; hook_guard = 1; for (g = (U) p >> 3; g <= ((U) p + n) >> 3; g++) if ((c = cell (g, n <= 1 << 16))) { memset (c->r, 0, 2); memset (c->w, 0, 2); c->owner = cur + 1; } hook_guard = 0; }
static void on_free (const volatile void *p) { }
#define PC ((U) __builtin_return_address (0))
#define H(n) void __tsan_read##n (void *p) { access_ ((U) p, n, 0, PC); } void __tsan_write##n (void *p) { access_ ((U) p, n, 1, PC); }
H (1) H (2) H (4) H (8) H (16)
#define HU(n) void __tsan_unaligned_read##n (void *p) { access_ ((U) p, n, 0, PC); } void __tsan_unaligned_write##n (void *p) { access_ ((U) p, n, 1, PC); } void __tsan_volatile_read##n (void *p) { access_ ((U) p, n, 0, PC); } void __tsan_volatile_write##n (void *p) { access_ ((U) p, n, 1, PC); }
HU (2) HU (4) HU (8) HU (16)
void __tsan_volatile_read1 (void *p) { access_ ((U) p, 1, 0, PC); } void __tsan_volatile_write1 (void *p) { access_ ((U) p, 1, 1, PC); }
void __tsan_read_range (void *p, U n) { access_ ((U) p, n, 0, PC); } void __tsan_write_range (void *p, U n) { access_ ((U) p, n, 1, PC); }
void __tsan_func_entry (void *p) { } void __tsan_func_exit (void) { } void __tsan_init (void) { }
/* the C library's functions: their reads and writes */
#define RD(p, n) access_ ((U) (p), (n), 0, PC)
#define WR(p, n) access_ ((U) (p), (n), 1, PC)
size_t __real_strlen (const char *); size_t __wrap_strlen (const char *s) { size_t n = __real_strlen (s); RD (s, n + 1); return __real_strlen (s); }
void *__real_memcpy (void *, const void *, size_t); void *__wrap_memcpy (void *d, const void *s, size_t n) { RD (s, n); WR (d, n); return __real_memcpy (d, s, n); }
void *__real_memmove (void *, const void *, size_t); void *__wrap_memmove (void *d, const void *s, size_t n) { RD (s, n); WR (d, n); return __real_memmove (d, s, n); }
void *__real_memset (void *, int, size_t); void *__wrap_memset (void *d, int c, size_t n) { WR (d, n); return __real_memset (d, c, n); }
int __real_memcmp (const void *, const void *, size_t); int __wrap_memcmp (const void *a, const void *b, size_t n) { RD (a, n); RD (b, n); return __real_memcmp (a, b, n); }
int __real_strcmp (const char *, const char *); int __wrap_strcmp (const char *a, const char *b) { RD (a, __real_strlen (a) + 1); RD (b, __real_strlen (b) + 1); return __real_strcmp (a, b); }
static size_t nlen (const char *s, size_t n) { const char *e = memchr (s, 0, n); return e ? e - s + 1 : n; }
int __real_strncmp (const char *, const char *, size_t); int __wrap_strncmp (const char *a, const char *b, size_t n) { RD (a, nlen (a, n)); RD (b, nlen (b, n)); return __real_strncmp (a, b, n); }
int __real_strcasecmp (const char *, const char *); int __wrap_strcasecmp (const char *a, const char *b) { RD (a, __real_strlen (a) + 1); RD (b, __real_strlen (b) + 1); return __real_strcasecmp (a, b); }
int __real_strncasecmp (const char *, const char *, size_t); int __wrap_strncasecmp (const char *a, const char *b, size_t n) { RD (a, nlen (a, n)); RD (b, nlen (b, n)); return __real_strncasecmp (a, b, n); }
char *__real_strchr (const char *, int); char *__wrap_strchr (const char *a, int c) { RD (a, __real_strlen (a) + 1); return __real_strchr (a, c); }
char *__real_strstr (const char *, const char *); char *__wrap_strstr (const char *a, const char *b) { RD (a, __real_strlen (a) + 1); RD (b, __real_strlen (b) + 1); return __real_strstr (a, b); }
char *__real_strcpy (char *, const char *); char *__wrap_strcpy (char *d, const char *s) { RD (s, __real_strlen (s) + 1); WR (d, __real_strlen (s) + 1); return __real_strcpy (d, s); }
char *__real_strcat (char *, const char *); char *__wrap_strcat (char *d, const char *s) { RD (s, __real_strlen (s) + 1); WR (d, __real_strlen (d) + __real_strlen (s) + 1); return __real_strcat (d, s); }
char *__real_strncpy (char *, const char *, size_t); char *__wrap_strncpy (char *d, const char *s, size_t n) { RD (s, nlen (s, n)); WR (d, n); return __real_strncpy (d, s, n); }
size_t __real_strcspn (const char *, const char *); size_t __wrap_strcspn (const char *a, const char *b) { RD (a, __real_strlen (a) + 1); return __real_strcspn (a, b); }
char *__real_strtok (char *, const char *); static char tok_state; char *__wrap_strtok (char *a, const char *b) { WR (&tok_state, 1); return __real_strtok (a, b); }
char *__real_strerror (int); static char err_state; char *__wrap_strerror (int e) { WR (&err_state, 1); return __real_strerror (e); }
ssize_t __real_read (int, void *, size_t); ssize_t __wrap_read (int f, void *b, size_t n) { WR (b, n); return __real_read (f, b, n); }
static void fmt_reads (const char *f, va_list ap, U pc)       /* strings given to a printf like function */
{
	va_list a; va_copy (a, ap); access_ ((U) f, __real_strlen (f) + 1, 0, pc);
	for (; *f; f++) {
		int l = 0, prec = -1; if (*f != '%') continue; f++; while (*f && __real_strchr ("-+ #0", *f)) f++;
		if (*f == '*') { va_arg (a, int); f++; } else while (*f >= '0' && *f <= '9') f++;
		if (*f == '.') { f++; if (*f == '*') { prec = va_arg (a, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; } }
		while (*f && __real_strchr ("hlLzjt", *f)) { l += *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' ? 1 : 0; f++; }
		switch (*f) {
		case 's': { const char *s = va_arg (a, const char *); if (s) access_ ((U) s, prec >= 0 ? nlen (s, prec) : __real_strlen (s) + 1, 0, pc); break; }
		case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': va_arg (a, double); break;
		case '%': break; case 0: f--; break;
		case 'p': va_arg (a, void *); break;
		default: if (l) va_arg (a, long); else va_arg (a, int);
		}
	}
	va_end (a);
}
int __real_vsnprintf (char *, size_t, const char *, va_list); int __wrap_vsnprintf (char *d, size_t n, const char *f, va_list a)
{ int r; va_list b; U pc = PC; if (recording && cur >= 0) { fmt_reads (f, a, pc); va_copy (b, a); r = __real_vsnprintf (NULL, 0, f, b); va_end (b); if (n && r >= 0) access_ ((U) d, r + 1 < (int) n ? r + 1 : n, 1, pc); } return __real_vsnprintf (d, n, f, a); }
int __real_vsprintf (char *, const char *, va_list); int __wrap_vsprintf (char *d, const char *f, va_list a)
{ int r; va_list b; U pc = PC; if (recording && cur >= 0) { fmt_reads (f, a, pc); va_copy (b, a); r = __real_vsnprintf (NULL, 0, f, b); va_end (b); access_ ((U) d, r + 1, 1, pc); } return __real_vsprintf (d, f, a); }
int __real_vasprintf (char **, const char *, va_list); int __wrap_vasprintf (char **d, const char *f, va_list a) { U pc = PC; int r; if (recording && cur >= 0) { fmt_reads (f, a, pc); } r = __real_vasprintf (d, f, a); access_ ((U) d, sizeof *d, 1, pc); return r; }
int __wrap_snprintf (char *d, size_t n, const char *f, ...)
{ va_list a, b; int r; U pc = PC; va_start (a, f); if (recording && cur >= 0) { fmt_reads (f, a, pc); va_copy (b, a); r = __real_vsnprintf (NULL, 0, f, b); va_end (b); if (n && r >= 0) access_ ((U) d, r + 1 < (int) n ? r + 1 : n, 1, pc); } r = __real_vsnprintf (d, n, f, a); va_end (a); return r; }
int __wrap_sprintf (char *d, const char *f, ...)
{ va_list a, b; int r; U pc = PC; va_start (a, f); if (recording && cur >= 0) { fmt_reads (f, a, pc); va_copy (b, a); r = __real_vsnprintf (NULL, 0, f, b); va_end (b); access_ ((U) d, r + 1, 1, pc); } r = __real_vsprintf (d, f, a); va_end (a); return r; }

/* ---- programs: every thread has its own data ---- */
static const char *T[2][8] = { { "alpha", "one", "first text", "k1", "longer value of the first thread", "a", "x1", "1" }, { "bee", "two", "2nd", "key2", "v", "bb", "y2", "22" } };
static char *own (char *s) { char *r = s ? ax_dup (s) : "(null)"; axl_free (s); return r; }
static void show (SB *b, axlNode *n)
{
	axlItem *i; axlAttrCursor *c = axl_node_attr_cursor_new (n); int size;
	sb_f (b, "<%s", axl_node_get_name (n));
	for (; axl_node_attr_cursor_has_item (c); axl_node_attr_cursor_next (c)) sb_f (b, " %s=%s", axl_node_attr_cursor_get_key (c), axl_node_attr_cursor_get_value (c));
	axl_node_attr_cursor_free (c); sb_c (b, '>');
	for (i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) switch (axl_item_get_type (i)) {
		case ITEM_NODE: show (b, axl_item_get_data (i)); break;
		case ITEM_PI: sb_f (b, "?%s %s?", axl_pi_get_name (axl_item_get_data (i)), axl_pi_get_content (axl_item_get_data (i))); break;
		default: sb_f (b, "[%d %s]", axl_item_get_type (i) == ITEM_CONTENT_FROM_FACTORY ? ITEM_CONTENT : axl_item_get_type (i), axl_item_get_content (i, &size)); }
	sb_add (b, "</>");
}
static char *dumped (axlDoc *d) { char *c = NULL; int n; if (!axl_doc_dump (d, &c, &n)) return "no dump"; return own (c); }
static char *err_str (axlError **e) { char *r; if (!*e) return "no error"; r = ax_fmt ("E%d %s", axl_error_get_code (*e), axl_error_get (*e)); axl_error_free (*e); *e = NULL; return r; }
static char *doc_text (int w) { return ax_fmt ("<?xml version='1.0'?>\n<!-- %s -->\n<?%s %s?>\n<%s %s='%s' n=\"%s &lt; %s\">%s &amp; %s<b><c/>%s<!-- c %s --><c k='%s'/></b><![CDATA[<%s>]]><?p %s?><e> %s </e></%s>", T[w][0], T[w][1], T[w][2], T[w][0], T[w][3], T[w][4], T[w][1], T[w][2], T[w][4], T[w][5], T[w][2], T[w][6], T[w][7], T[w][0], T[w][1], T[w][2], T[w][0]); }
static axlDoc *mydoc (int w) { return axl_doc_parse (doc_text (w), -1, NULL); }
static char *p_parse (int w) { axlError *e = NULL; axlDoc *d = axl_doc_parse (doc_text (w), -1, &e); SB b = {0}; if (!d) return err_str (&e); show (&b, axl_doc_get_root (d)); axl_doc_free (d); return sb_str (&b); }
static char *p_dump (int w) { axlDoc *d = mydoc (w); char *r = dumped (d), *c = NULL; int n; axl_doc_dump_pretty (d, &c, &n, 3); r = ax_fmt ("%s %s %d %d", r, own (c), n, axl_doc_get_flat_size (d)); axl_doc_free (d); return r; }
static char *p_bad (int w)
{
	static const char *f[] = { "<%s><%s></%s>", "<%s k=%s></%s>", "<%s>&%s</%s>", "<!%s %s %s>", "<%s/>%s%s", "<%s", "<%s></%s >x%s<", "<%s><!-- %s %s", "<%s><![CDATA[ %s%s" }; int i; SB b = {0};
	for (i = 0; i < 9; i++) { axlError *e = NULL; axlDoc *d = axl_doc_parse (ax_fmt (f[i], T[w][0], T[w][1], T[w][2]), -1, &e); sb_add (&b, err_str (&e)); if (d) axl_doc_free (d); }
	return sb_str (&b);
}
static char *p_file (int w)
{
	char *f = ax_fmt ("%s/t%d.xml", mc_scratch, w), *g = ax_fmt ("%s/o%d.xml", mc_scratch, w), *t = doc_text (w), *r; axlError *e = NULL; axlDoc *d; int n; SB b = {0};
	ax_write_file (f, t, strlen (t)); d = axl_doc_parse_from_file (f, &e); if (!d) return err_str (&e); show (&b, axl_doc_get_root (d)); axl_doc_dump_to_file (d, g); sb_add (&b, ax_read_file (g, &n)); axl_doc_dump_pretty_to_file (d, g, 2); sb_add (&b, ax_read_file (g, &n)); axl_doc_free (d);
	d = axl_doc_parse_from_file (ax_fmt ("%s/none%d", mc_scratch, w), &e); r = err_str (&e); if (d) axl_doc_free (d); sb_add (&b, ax_fmt ("%d", (int) (strlen (r) > 5))); return sb_str (&b);
}
static char *p_build (int w)
{
	axlDoc *d = axl_doc_create ("1.0", w ? NULL : "utf-8", w); axlNode *r = axl_node_create (T[w][0]), *c, *k; int i; char *x; axl_doc_set_root (d, r);
	for (i = 0; i < 3 + w; i++) { c = axl_node_create (T[w][i]); axl_node_set_attribute (c, T[w][5], T[w][4]); axl_node_set_attribute (c, T[w][6], T[w][2]); axl_node_set_content (c, ax_fmt ("<%s&%s>", T[w][2], T[w][i]), -1); axl_node_set_child (r, c); if (i == 1) { axl_node_set_comment (c, (char *) T[w][1], -1); axl_node_set_cdata_content (c, T[w][2], -1); } }
	k = axl_node_copy (r, axl_true, axl_true); axl_node_set_child (r, k); c = axl_node_get_first_child (r); axl_node_remove_attribute (c, T[w][5]); axl_node_remove (c, axl_true); axl_doc_add_pi_target (d, (char *) T[w][1], (char *) T[w][2]); x = dumped (d); axl_doc_free (d); return x;
}
static char *dtd_text (int w) { return ax_fmt ("<!ELEMENT %s (a,(b|c)*,%s?)><!ELEMENT a (#PCDATA)><!ELEMENT b EMPTY><!ELEMENT c ANY><!ELEMENT %s (#PCDATA|a)*><!ATTLIST a k CDATA #REQUIRED t (%s|z) '%s' i ID #IMPLIED r IDREF #IMPLIED><!ENTITY %s \"%s\"><!ENTITY %% pe \"%s\">", T[w][0], T[w][1], T[w][1], T[w][5], T[w][5], T[w][3], T[w][4], T[w][2]); }
static char *valid_docs (int w, int i)
{
	switch (i) { case 0: return ax_fmt ("<%s><a k='1' i='i1'>%s</a><b/><c/><b/><%s>x<a k='2' r='i1'/></%s></%s>", T[w][0], T[w][2], T[w][1], T[w][1], T[w][0]); case 1: return ax_fmt ("<%s><b/></%s>", T[w][0], T[w][0]); case 2: return ax_fmt ("<%s><a/></%s>", T[w][0], T[w][0]); case 3: return ax_fmt ("<%s><a k='1' t='%s'/><z/></%s>", T[w][0], T[w][6], T[w][0]);
	case 4: return ax_fmt ("<%s><a k='' r='%s'/></%s>", T[w][0], T[w][0], T[w][0]); default: return ax_fmt ("<%s k='1'/>", T[w][2 + 3]); }
}
static void validate_all (SB *b, int w, axlDtd *t)
{
	int i; for (i = 0; i < 6; i++) { axlError *e = NULL; axlDoc *d = axl_doc_parse (valid_docs (w, i), -1, &e); if (!d) { sb_add (b, err_str (&e)); continue; } if (axl_dtd_validate (d, t, &e)) sb_add (b, "valid "); else sb_add (b, err_str (&e)); axl_doc_free (d); }
}
static void read_dtd (SB *b, int w, axlDtd *t)
{
	axlDtdElement *el = axl_dtd_get_element (t, T[w][0]); axlDtdAttribute *at = axl_dtd_get_attr (t, "a"); sb_f (b, "%d %s %s %d ", el != NULL, el ? axl_dtd_get_element_name (el) : "", axl_dtd_get_element_name (axl_dtd_get_root (t)), el ? axl_dtd_item_list_count (axl_dtd_get_item_list (el)) : 0); sb_f (b, "%d %d %d", at != NULL, axl_dtd_get_attr_contraints (t, "a"), axl_dtd_entity_exists (t, T[w][3], GENERAL_ENTITY)); sb_add (b, axl_dtd_entity_value (t, T[w][3], GENERAL_ENTITY) ? axl_dtd_entity_value (t, T[w][3], GENERAL_ENTITY) : "none"); sb_add (b, axl_dtd_entity_value (t, "pe", PARAMETER_ENTITY) ? axl_dtd_entity_value (t, "pe", PARAMETER_ENTITY) : "none");
}
static char *p_dtd (int w) { axlError *e = NULL; axlDtd *t = axl_dtd_parse (dtd_text (w), -1, &e); SB b = {0}; if (!t) return err_str (&e); validate_all (&b, w, t); read_dtd (&b, w, t); axl_dtd_free (t); return sb_str (&b); }
static char *p_baddtd (int w)
{
	static const char *f[] = { "<!ELEMENT %s (%s", "<!ELEMENT %s (%s|>", "<!ATTLIST %s %s", "<!ENTITY %s %s>", "<!ELEMEN %s %s>", "<!-- %s %s", "<!ELEMENT %s (a,%s|c)>", "<!ENTITY %% %s '%s'> %%no;" }; int i; SB b = {0};
	for (i = 0; i < 8; i++) { axlError *e = NULL; axlDtd *t = axl_dtd_parse (ax_fmt (f[i], T[w][0], T[w][1]), -1, &e); sb_add (&b, err_str (&e)); if (t) axl_dtd_free (t); } return sb_str (&b);
}
static char *ns_text (int w) { return ax_fmt ("<p:%s xmlns:p='urn:%s' xmlns='urn:%s'><%s/><p:x k='1' p:j='2'/><q:x xmlns:q='urn:%s'><q:y/></q:x></p:%s>", T[w][0], T[w][1], T[w][2], T[w][5], T[w][3], T[w][0]); }
static void read_ns (SB *b, int w, axlDoc *d)
{
	axlNode *r = axl_doc_get_root (d), *n; sb_f (b, "%d%d", axl_ns_node_cmp (r, ax_fmt ("urn:%s", T[w][1]), T[w][0]), axl_ns_node_cmp (r, "urn:no", T[w][0])); n = axl_ns_node_find_called (r, ax_fmt ("urn:%s", T[w][3]), "y"); sb_f (b, "%s ", n ? axl_node_get_name (n) : "none"); n = axl_ns_node_get_child_called (r, ax_fmt ("urn:%s", T[w][2]), T[w][5]); sb_f (b, "%s ", n ? axl_node_get_name (n) : "none"); if (n) { n = axl_ns_node_get_next_called (n, ax_fmt ("urn:%s", T[w][3]), "x"); sb_f (b, "%s ", n ? axl_node_get_name (n) : "none"); }
}
static char *p_ns (int w)
{
	axlError *e = NULL; axlDoc *d = axl_doc_parse (ns_text (w), -1, &e); SB b = {0}; if (!d) return err_str (&e); sb_f (&b, "%d", axl_ns_doc_validate (d, &e)); read_ns (&b, w, d); axl_doc_free (d);
	d = axl_doc_parse (ax_fmt ("<%s><z:%s/></%s>", T[w][0], T[w][1], T[w][0]), -1, &e); sb_f (&b, "%d", axl_ns_doc_validate (d, &e)); sb_add (&b, err_str (&e)); axl_doc_free (d); return sb_str (&b);
}
static char *p_babel (int w)
{
	axlError *e = NULL; SB b = {0}; int i; static const char *en[2][2] = { { "iso-8859-1", "iso-8859-15" }, { "iso-8859-5", "iso-8859-7" } };
	for (i = 0; i < 4; i++) { char *t = ax_fmt ("<?xml version='1.0' encoding='%s'?><%s k='\xe9\xa4%s'>%s\xe1\xe2</%s>", en[w][i & 1], T[w][0], T[w][1], T[w][4], T[w][0]), *f = ax_fmt ("%s/b%d.xml", mc_scratch, w); axlDoc *d; if (i & 2) { ax_write_file (f, t, strlen (t)); d = axl_doc_parse_from_file (f, &e); } else d = axl_doc_parse (t, -1, &e); if (!d) sb_add (&b, err_str (&e)); else { show (&b, axl_doc_get_root (d)); sb_add (&b, axl_doc_get_encoding (d)); axl_doc_free (d); } }
	{ axlDoc *d = axl_doc_parse (ax_fmt ("<?xml version='1.0' encoding='utf-8'?><%s>%s\xc3\xa9\xff</%s>", T[w][0], T[w][4], T[w][0]), -1, &e); sb_add (&b, err_str (&e)); if (d) axl_doc_free (d); d = axl_doc_parse (ax_fmt ("<?xml version='1.0' encoding='no-%s'?><r/>", T[w][0]), -1, &e); sb_add (&b, err_str (&e)); if (d) axl_doc_free (d); }
	return sb_str (&b);
}
static void read_list (SB *b, int w, axlList *l);
static int same (axlPointer e, axlPointer d) { return !strcmp (e, d); }
static axlList *mklist (int w, int n) { axlList *l = axl_list_new (axl_list_order_string, axl_free); int i; for (i = 0; i < n; i++) axl_list_add (l, axl_strdup (T[w][(i * 5 + 2) % 8])); return l; }
static void read_list (SB *b, int w, axlList *l)
{
	int i, n = axl_list_length (l); axlListCursor *c; char *x; sb_f (b, "%d %d ", n, axl_list_is_empty (l)); for (i = 0; i < n; i++) sb_f (b, "%s,", (char *) axl_list_get_nth (l, w ? n - 1 - i : i));
	sb_f (b, "%s %s %d%d", (char *) axl_list_get_first (l), (char *) axl_list_get_last (l), axl_list_exists (l, (axlPointer) T[w][0]), axl_list_exists (l, "nothing")); for (i = 0; i < 8; i++) { x = axl_list_lookup (l, same, (axlPointer) T[w][i]); sb_add (b, x ? x : "-"); }
	c = axl_list_cursor_new (l); if (w) for (axl_list_cursor_last (c); axl_list_cursor_has_item (c); axl_list_cursor_previous (c)) sb_add (b, axl_list_cursor_get (c)); else for (axl_list_cursor_first (c); axl_list_cursor_has_item (c); axl_list_cursor_next (c)) sb_add (b, axl_list_cursor_get (c)); axl_list_cursor_free (c);
}
static axlPointer dupf (axlPointer p) { return axl_strdup (p); }
static char *p_list (int w)
{
	axlList *l = mklist (w, 8), *m; SB b = {0}; read_list (&b, w, l); axl_list_remove (l, (axlPointer) T[w][0]); axl_list_remove_at (l, 2); axl_list_prepend (l, axl_strdup (T[w][4])); m = axl_list_copy (l, dupf); axl_list_remove_first (l); axl_list_add_at (l, axl_strdup ("at"), 3); read_list (&b, w, l); read_list (&b, !w, m); axl_list_free (l); axl_list_free (m); return sb_str (&b);
}
static axl_bool each (axlPointer k, axlPointer v, axlPointer u) { sb_f (u, "%s=%s;", (char *) k, (char *) v); return axl_false; }
static axlHash *mkhash (int w, int n) { axlHash *h = axl_hash_new (axl_hash_string, axl_hash_equal_string); int i; for (i = 0; i < n; i++) axl_hash_insert_full (h, axl_strdup (ax_fmt ("%s%d", T[w][i % 8], i)), axl_free, axl_strdup (T[w][(i + 3) % 8]), axl_free); return h; }
static void read_hash (SB *b, int w, axlHash *h)
{
	int i; axlHashCursor *c; sb_f (b, "%d ", axl_hash_items (h)); for (i = 0; i < 20; i++) { char *k = ax_fmt ("%s%d", T[w][i % 8], i), *v = axl_hash_get (h, k); sb_f (b, "%s%d ", v ? v : "-", axl_hash_exists (h, k)); } axl_hash_foreach (h, each, b);
	c = axl_hash_cursor_new (h); for (axl_hash_cursor_first (c); axl_hash_cursor_has_item (c); axl_hash_cursor_next (c)) sb_f (b, "%s:%s ", (char *) axl_hash_cursor_get_key (c), (char *) axl_hash_cursor_get_value (c)); axl_hash_cursor_free (c);
}
static char *p_hash (int w) { axlHash *h = mkhash (w, 15); SB b = {0}; axl_hash_remove (h, ax_fmt ("%s%d", T[w][1], 1)); axl_hash_insert_full (h, axl_strdup (ax_fmt ("%s%d", T[w][2], 2)), axl_free, axl_strdup ("new"), axl_free); axl_hash_delete (h, "none"); read_hash (&b, w, h); axl_hash_free (h); return sb_str (&b); }
static axl_bool seach (axlPointer d, axlPointer u, axlPointer v) { sb_add (u, d); return axl_false; }
static char *p_stack (int w)
{
	axlStack *s = axl_stack_new (axl_free); axlBinaryStack *t = axl_binary_stack_new (); SB b = {0}; int i; for (i = 0; i < 12; i++) { axl_stack_push (s, axl_strdup (T[w][i % 8])); axl_binary_stack_push (t, (i + w) % 3 == 0); } axl_stack_foreach (s, seach, &b, NULL); for (i = 0; i < 5; i++) { char *x = axl_stack_pop (s); sb_f (&b, "%s%d", x, axl_binary_stack_pop (t)); axl_free (x); } sb_f (&b, "%s %d %d", (char *) axl_stack_peek (s), axl_stack_size (s), axl_binary_stack_size (t)); axl_stack_free (s); axl_binary_stack_free (t); return sb_str (&b);
}
static char *p_pool (int w)
{
	axlFactory *f = axl_factory_create (24 + 8 * w); axlStrFactory *s = axl_string_factory_create (); char *p[40]; int i; SB b = {0}; for (i = 0; i < 40; i++) { char *q = axl_string_factory_alloc (s, 20 + i * 7); sprintf (q, "%s %d", T[w][i % 8], i); p[i] = axl_factory_get (f); memset (p[i], 'a' + w, 24); p[i][23] = 0; sb_add (&b, q); if (i % 5 == 4) axl_factory_release_spare (f, p[i - 1]); } for (i = 0; i < 40; i++) if (i % 5 != 3) sb_add (&b, p[i]); axl_factory_free (f); axl_string_factory_free (s); return sb_str (&b);
}
static char *p_strings (int w)
{
	char **v = axl_split (ax_fmt ("%s,%s;%s", T[w][0], T[w][2], T[w][4]), 2, ",", ";"), *s, *j; SB b = {0}; int n, i, real; char buf[40]; for (i = 0; v[i]; i++) sb_f (&b, "(%s)", v[i]); j = axl_join (v, T[w][5]); sb_add (&b, j); axl_freev (v); axl_free (j);
	s = axl_strdup_printf ("%s %d %s", T[w][2], w * 77 + 5, T[w][4]); axl_replace (s, "e", T[w][6]); sb_add (&b, s); axl_stream_to_upper (s); sb_add (&b, s); axl_stream_remove (s, "R", axl_false); axl_stream_trim (s); sb_add (&b, s); axl_free (s); s = axl_concat (T[w][0], T[w][1]); sb_add (&b, s); axl_free (s); s = axl_stream_strdup_printf_len ("%s-%s", &n, T[w][1], T[w][2]); sb_f (&b, "%s%d", s, n); axl_free (s);
	n = axl_stream_printf_buffer (buf, 39, &real, "%s/%s", T[w][0], T[w][5]); sb_f (&b, "%s %d %d", buf, n, real); s = axl_stream_to_lower_copy (T[w][2]); sb_add (&b, s); axl_free (s); sb_f (&b, "%d%d%d", axl_casecmp (T[w][0], "ALPHA"), axl_cmp (T[w][1], "two"), axl_stream_printf_len ("%s %s", T[w][2], T[w][4])); return sb_str (&b);
}
static char *p_annot (int w)
{
	axlDoc *d = mydoc (w); axlNode *r = axl_doc_get_root (d), *c = axl_node_get_first_child (r); SB b = {0}; axl_node_annotate_string (r, T[w][0], T[w][2]); axl_node_annotate_int (c, T[w][1], 40 + w); axl_node_annotate_double (c, T[w][3], 1.5 + w); axl_node_annotate_string (c, T[w][0], T[w][4]); sb_f (&b, "%s %s %d %g", axl_node_annotate_get_string (r, T[w][0], axl_false), axl_node_annotate_get_string (c, T[w][0], axl_true), axl_node_annotate_get_int (c, T[w][1], axl_false), axl_node_annotate_get_double (c, T[w][3], axl_true)); axl_doc_free (d); return sb_str (&b);
}
static char *p_edit (int w)
{
	axlDoc *d = mydoc (w); axlNode *r = axl_doc_get_root (d), *c = axl_node_get_child_called (r, "b"), *n = axl_node_parse (NULL, "<%s><k>%s</k></%s>", T[w][1], T[w][2], T[w][1]); SB b = {0}; axl_node_replace (axl_node_get_child_called (r, "e"), n, axl_true); axl_node_deattach (c); axl_node_set_child_after (n, c); axl_node_transfer_childs (c, n); axl_node_set_name (c, T[w][6]); axl_item_remove (axl_item_get_first_child (r), axl_true); axl_node_set_content (axl_node_get_child_called (n, "k"), T[w][4], -1); axl_node_set_attribute (n, T[w][3], T[w][4]); show (&b, r); axl_doc_free (d); return sb_str (&b);
}
static axl_bool it (axlNode *n, axlNode *p, axlDoc *d, axl_bool *was, axlPointer u) { sb_f (u, "%s<%s ", axl_node_get_name (n), p ? axl_node_get_name (p) : ""); return axl_true; }
static void read_doc (SB *b, int w, axlDoc *d)
{
	axlNode *r = axl_doc_get_root (d), *n; int size; axlList *l; sb_f (b, "%s %d ", axl_node_get_name (r), axl_node_get_child_num (r)); axl_doc_iterate (d, w ? WIDE_ITERATION : DEEP_ITERATION, it, b); n = axl_doc_get (d, ax_fmt ("/%s/b/c", axl_node_get_name (r))); sb_f (b, "%s ", n ? axl_node_get_name (n) : "none"); n = axl_node_find_called (r, "e"); sb_f (b, "%s", n ? axl_node_get_content (n, &size) : "none"); sb_f (b, " %d", n ? size : 0);
	sb_add (b, own (axl_node_get_content_copy (r, &size))); sb_add (b, own (axl_node_get_content_trans (r, &size))); sb_add (b, own (axl_node_get_attribute_value_copy (r, "n"))); sb_add (b, own (axl_node_get_attribute_value_trans (r, "n"))); sb_f (b, "%d %d", axl_node_has_attribute (r, T[w][3]), axl_node_num_attributes (r));
	l = axl_doc_get_list (d, ax_fmt ("/%s/b/c", axl_node_get_name (r))); sb_f (b, "%d", l ? axl_list_length (l) : -1); if (l) axl_list_free (l); l = axl_node_get_childs (r); sb_f (b, "%d", axl_list_length (l)); axl_list_free (l); n = axl_node_get_last_child (r); while (n) { sb_add (b, axl_node_get_name (n)); n = axl_node_get_previous (n); }
	sb_f (b, "%d", axl_doc_has_pi_target (d, (char *) T[w][1])); sb_add (b, axl_doc_get_pi_target_content (d, (char *) T[w][1]) ? axl_doc_get_pi_target_content (d, (char *) T[w][1]) : "nopi"); sb_f (b, "%d%s", axl_node_has_pi_target (r, "p"), axl_node_get_pi_target_content (r, "p")); show (b, r); sb_add (b, dumped (d)); sb_f (b, "%d", axl_doc_get_flat_size_pretty (d, 2));
}
static void eacha (const char *k, const char *v, axlPointer a, axlPointer b) { sb_f (a, "%s=%s", k, v); }
static void read_more (SB *b, int w, axlDoc *d)      /* further views of a document */
{
	axlNode *r = axl_doc_get_root (d), *n = axl_node_get_first_child (r), *c; char *x = NULL; int s = 0; axlError *e = NULL; axlItem *i, *j; axlList *l;
	axl_node_attr_foreach (r, (axlNodeAttrForeachFunc) eacha, b, NULL); axl_doc_dump_pretty (d, &x, &s, 1 + w); sb_add (b, own (x)); x = NULL; axl_node_dump (n, &x, &s); sb_add (b, own (x)); sb_f (b, "%d%d", axl_doc_are_equal_trimmed (d, d), axl_node_are_equal (n, r)); sb_f (b, "%d", axl_doc_are_equal_full (d, d, w, &e)); sb_add (b, err_str (&e));
	for (i = axl_item_get_last_child (r); i; i = axl_item_get_previous (i)) sb_f (b, "%d%d", axl_item_get_type (i), axl_item_get_parent (i) == r); i = axl_item_get_first_child (r); j = axl_item_copy (i, NULL); sb_f (b, "%d", axl_item_are_equal (i, j, w)); axl_item_free (j, axl_true);
	c = axl_node_get_child_nth (r, w); sb_add (b, c ? axl_node_get_name (c) : "none"); c = axl_node_get_next_called (n, "e"); sb_add (b, c ? axl_node_get_name (c) : "none"); sb_f (b, "%d%d%d", c ? axl_node_is_empty (c) : 5, axl_node_have_childs (n), axl_node_get_parent (n) == r); sb_f (b, "%s%d", axl_doc_get_encoding (d) ? axl_doc_get_encoding (d) : "", axl_doc_get_standalone (d));
	l = axl_doc_get_pi_target_list (d); sb_f (b, "%d", l ? axl_list_length (l) : 0); sb_f (b, "%s", axl_node_annotate_get_string (n, "note", axl_true)); sb_f (b, "%d", axl_node_annotate_get_int (n, "number", axl_false)); axl_doc_iterate (d, w ? DEEP_ITERATION : WIDE_ITERATION, it, b);
}
static char *s_more (int w) ;
static char *p_read (int w) { axlDoc *d = mydoc (w); SB b = {0}; read_doc (&b, w, d); axl_doc_free (d); return sb_str (&b); }
static char *p_escape (int w)
{
	SB b = {0}; int add = 0, n; char *t = ax_fmt ("<%s & \"%s\" '%s'>", T[w][0], T[w][2], T[w][4]), *e, *u; sb_f (&b, "%d", axl_node_has_invalid_chars (t, -1, &add)); e = axl_node_content_copy_and_escape (t, strlen (t), add); sb_add (&b, e); n = strlen (e); u = axl_node_content_translate_defaults (e, &n); sb_add (&b, u); axl_free (e); return sb_str (&b);
}
static char *p_stream (int w)
{
	axlError *e = NULL; axlStream *s = axl_stream_new (ax_fmt ("%s %s;%s<", T[w][2], T[w][4], T[w][0]), -1, NULL, -1, &e); SB b = {0}; int m; char *x; sb_f (&b, "%d%d", axl_stream_peek (s, T[w][2], -1), axl_stream_inspect (s, "zz", 2)); x = axl_stream_get_until (s, NULL, &m, axl_true, 2, " ", ";"); sb_f (&b, "%s%d ", x, m); axl_stream_consume_white_spaces (s); x = axl_stream_get_until (s, NULL, &m, axl_false, 2, ";", "<"); sb_f (&b, "%s%d ", x, m); sb_f (&b, "%s", axl_stream_get_following (s, 3)); sb_f (&b, "%s", axl_stream_get_near_to (s, 3)); axl_stream_push (s, T[w][1], strlen (T[w][1])); x = axl_stream_get_until (s, NULL, &m, axl_false, 1, "<"); sb_f (&b, "%s%d ", x, m); axl_stream_free (s); return sb_str (&b);
}
static char *p_equal (int w)
{
	axlDoc *d = mydoc (w), *c = axl_doc_parse (doc_text (w), -1, NULL), *x = mydoc (!w); axlError *e = NULL; SB b = {0}; sb_f (&b, "%d%d", axl_doc_are_equal (d, c), axl_doc_are_equal (d, x)); axl_doc_are_equal_full (d, x, axl_false, &e); sb_add (&b, err_str (&e)); axl_node_set_attribute (axl_doc_get_root (c), "new", T[w][1]); sb_f (&b, "%d", axl_doc_are_equal_full (d, c, axl_true, &e)); sb_add (&b, err_str (&e)); axl_doc_free (d); axl_doc_free (c); axl_doc_free (x); return sb_str (&b);
}
static char *p_big (int w)
{
	SB t = {0}, b = {0}; int i; axlDoc *d; axlError *e = NULL; sb_add (&t, "<r>"); for (i = 0; i < 60; i++) sb_f (&t, "<%s k%d='%s'>%s %d</%s>", T[w][i % 2], i, T[w][4], T[w][2], i, T[w][i % 2]); sb_add (&t, "</r>"); d = axl_doc_parse (sb_str (&t), -1, &e); if (!d) return err_str (&e); show (&b, axl_doc_get_root (d)); axl_doc_free (d); return sb_str (&b);
}
static char *p_deep (int w)
{
	SB t = {0}, b = {0}; int i, n = 20 + 15 * w; axlDoc *d; axlError *e = NULL; for (i = 0; i < n; i++) sb_f (&t, "<%s%d>", T[w][0], i % 3); for (i = n - 1; i >= 0; i--) sb_f (&t, "</%s%d>", T[w][0], i % 3); d = axl_doc_parse (sb_str (&t), -1, &e); if (!d) return err_str (&e); show (&b, axl_doc_get_root (d)); sb_add (&b, dumped (d)); axl_doc_free (d); return sb_str (&b);
}
static char *try_dtd (const char *t, const char *x)
{
	axlError *e = NULL; axlDtd *d = axl_dtd_parse (t, -1, &e); axlDoc *c; char *r; if (!d) return err_str (&e); c = axl_doc_parse (x, -1, &e); if (!c) { axl_dtd_free (d); return err_str (&e); }
	r = axl_dtd_validate (c, d, &e) ? "valid " : err_str (&e); axl_doc_free (c); axl_dtd_free (d); return r;
}
static char *p_invalid (int w)
{
	const char *n = T[w][0], *m = T[w][3]; SB b = {0}; char *d = ax_fmt ("<!ELEMENT %s ((a,b+)|(c?,%s))><!ELEMENT a (#PCDATA)><!ELEMENT b EMPTY><!ELEMENT c (a|b|(c,a))+><!ELEMENT %s (a*,(b,(c|a)?)+,a)><!ATTLIST %s i ID #IMPLIED r IDREF #IMPLIED f CDATA #FIXED '%s' e (%s|one) 'one'><!ATTLIST b q CDATA #REQUIRED>", n, m, m, n, T[w][4], T[w][6]);
	static const char *x[] = { "<%s><a/><b q='1'/></%s>", "<%s %s='1'><a/><b q='1'/></%s>", "<%s e='%s'><a/><b q='1'/></%s>", "<%s f='%s'><a/><b q='1'/></%s>", "<%s r='%s'><a/><b q='1'/></%s>", "<%s><a/><b %s='1'/></%s>", "<%s><a><%s/></a><b q='1'/></%s>", "<%s><a/><b q='1'>%s</b></%s>", "<%s><a/></%s>", "<%s><c/></%s>", "<%s><a/><b q='1'/><a/></%s>", "<%s><c><c><b q=''/></c><a/></c><b/></%s>", "<%s>text %s</%s>", "<%s i='x' r='x'><a/><b q='2'/></%s>", "<%s><a/><b/></%s>" };
	int i; for (i = 0; i < 15; i++) { int two = strstr (strstr (x[i], "%s") + 2, "%s") != NULL && strstr (strstr (strstr (x[i], "%s") + 2, "%s") + 2, "%s") != NULL; sb_add (&b, try_dtd (d, two ? ax_fmt (x[i], n, T[w][1], n) : ax_fmt (x[i], n, n))); }
	sb_add (&b, try_dtd (d, ax_fmt ("<%s><c><a/></c><%s><a/><b q='1'/><c><a/></c><b q=''/><a/></%s></%s>", n, m, m, n))); sb_add (&b, try_dtd (d, ax_fmt ("<%s><%s><b q='1'/><b q='2'/></%s></%s>", n, m, m, n))); sb_add (&b, try_dtd (d, ax_fmt ("<%s/>", T[w][1]))); sb_add (&b, try_dtd (d, ax_fmt ("<%s i='a'><c><c i='b'/></c><%s/></%s>", n, m, n)));
	return sb_str (&b);
}
static char *p_dtds (int w)
{
	static const char *x[] = { "<!ELEMENT %s (%s?,(x|y)+,z*)>", "<!ELEMENT %s EMPTY><!ELEMENT %s ANY>", "<!ATTLIST %s %s NMTOKEN #REQUIRED>", "<!ATTLIST %s %s CDATA 'v'>", "<!ATTLIST %s %s (a|b) #FIXED 'a'>", "<!ATTLIST %s %s ID #IMPLIED other ID #IMPLIED>", "<!ATTLIST %s %s (a|b>", "<!ENTITY %s SYSTEM '%s'>", "<!ENTITY %s PUBLIC '%s' 'u'>", "<!ENTITY %s SYSTEM '%s' NDATA n>", "<!ELEMENT %s (#PCDATA|%s)*>", "<!ELEMENT %s (a)><!ELEMENT %s (b)><!ELEMENT a EMPTY>", "<!ELEMENT %s %s>", "<!ELEMENT %s (a,,%s)>", "<?pi %s?><!-- %s --><!ELEMENT a EMPTY>", "<!ENTITY %% %s 'CDATA'><!ATTLIST a %s %%one; #IMPLIED>", "<!ELEMENT %s (a,(b|(c,%s)))><!ATTLIST a b CDATA #IMPLIED>" };
	int i, j, k; SB b = {0}; axlDtd *t[17]; axlError *e = NULL; char *f = ax_fmt ("%s/d%d.dtd", mc_scratch, w), *d = dtd_text (w); axlDtdElement *el;
	for (i = 0; i < 17; i++) { e = NULL; t[i] = axl_dtd_parse (ax_fmt (x[i], T[w][0], T[w][1]), -1, &e); if (!t[i]) sb_add (&b, err_str (&e)); }
	for (i = 0; i < 17; i++) for (j = 0; j < 17; j++) if (t[i] && t[j]) sb_f (&b, "%d", axl_dtd_are_equal (t[i], t[j]));
	for (i = 0; i < 17; i++) if (t[i]) { el = axl_dtd_get_root (t[i]); if (el) { axlDtdElementList *il = axl_dtd_get_item_list (el); sb_f (&b, "%s%d", axl_dtd_get_element_name (el), axl_dtd_element_is_toplevel (t[i], el)); for (k = 0; il && k < axl_dtd_item_list_count (il); k++) { axlDtdElementListNode *nn = axl_dtd_item_list_get_node (il, k); sb_f (&b, "%d%s", axl_dtd_item_node_get_repeat (nn), axl_dtd_item_node_get_type (nn) == AXL_ELEMENT_NODE ? axl_dtd_item_node_get_value (nn) : "()"); } } axl_dtd_free (t[i]); }
	ax_write_file (f, d, strlen (d)); t[0] = axl_dtd_parse_from_file (f, &e); if (!t[0]) return err_str (&e); t[1] = axl_dtd_parse (dtd_text (w), -1, NULL); sb_f (&b, "%d", axl_dtd_are_equal (t[0], t[1])); axl_dtd_free (t[0]); axl_dtd_free (t[1]); return sb_str (&b);
}
static char *p_head (int w)
{
	static const char *x[] = { "<?xml version='1.0' standalone='yes'?><%s/>", "<?xml version='1.1'?><%s/>", "<?xml version='1.0' encoding=%s?><r/>", "<?xml version='1.0' standalone='%s'?><r/>", "<?xml %s?><r/>", "<?xml version='1.0' ?><!DOCTYPE %s SYSTEM 'x.dtd'><%s/>", "<!DOCTYPE %s><%s/>", "<?xml version='1.0'", "<?xml version='1.0'?>%s", "<%s %s='a' %s='b'/>", "<%s %s></a>", "<?%s?><r/>", "<r><?%s %s?></r>", "<r><?%s", "<%s a='x", "</%s>", "<r></r><%s/>", "<%s a='&lt;&#65;&no;'/>", "<r>&#%s;&quot;&apos;</r>", " <%s/>", "<%s b = \"1\"c='2'/>" };
	int i; SB b = {0}; for (i = 0; i < 21; i++) { axlError *e = NULL; axlDoc *d = axl_doc_parse (ax_fmt (x[i], T[w][0], T[w][1], T[w][1]), -1, &e); if (d) { sb_f (&b, "%d%s", axl_doc_get_standalone (d), axl_doc_get_encoding (d) ? axl_doc_get_encoding (d) : "-"); show (&b, axl_doc_get_root (d)); sb_add (&b, dumped (d)); axl_doc_free (d); } else sb_add (&b, err_str (&e)); } return sb_str (&b);
}
static char *p_attrs (int w)
{
	axlDoc *d = axl_doc_create (NULL, NULL, axl_false); axlNode *n = axl_node_create_ref (axl_strdup (T[w][0])); SB b = {0}; int i; axlAttrCursor *c; axl_doc_set_root (d, n);
	for (i = 0; i < 24; i++) { if (i % 3 == 0) axl_node_set_attribute_ref (n, axl_strdup (ax_fmt ("%s%d", T[w][3], i)), axl_strdup (T[w][i % 8])); else axl_node_set_attribute (n, ax_fmt ("%s%d", T[w][3], i), ax_fmt ("  %s ", T[w][i % 8])); if (i == 4 || i == 20) { show (&b, n); axl_node_remove_attribute (n, ax_fmt ("%s%d", T[w][3], i / 2)); axl_node_remove_attribute (n, "none"); axl_node_set_attribute (n, ax_fmt ("%s1", T[w][3]), "again"); show (&b, n); } }
	for (i = 0; i < 24; i++) { char *k = ax_fmt ("%s%d", T[w][3], i); const char *v = axl_node_get_attribute_value_trimmed (n, k); sb_f (&b, "%s%d%d", v ? v : "-", axl_node_has_attribute (n, k), axl_node_has_attribute_value (n, k, T[w][i % 8])); } axl_node_attr_foreach (n, (axlNodeAttrForeachFunc) eacha, &b, NULL);
	c = axl_node_attr_cursor_new (n); while (axl_node_attr_cursor_has_next (c)) { axl_node_attr_cursor_next (c); sb_add (&b, axl_node_attr_cursor_get_key (c)); } axl_node_attr_cursor_first (c); sb_add (&b, axl_node_attr_cursor_get_value (c)); axl_node_attr_cursor_free (c); sb_add (&b, dumped (d)); axl_doc_free (d); return sb_str (&b);
}
static char *p_content (int w)
{
	SB b = {0}; int s, i; static const char *x[] = { "<r> %s <a/> %s </r>", "<r><![CDATA[ %s ]]></r>", "<r>%s&lt;%s<![CDATA[<%s>]]></r>", "<r><a/>%s</r>", "<r/>", "<r>   </r>", "<r><!-- %s -->%s</r>" };
	for (i = 0; i < 7; i++) { axlDoc *d = axl_doc_parse (ax_fmt (x[i], T[w][2], T[w][4], T[w][0]), -1, NULL); axlNode *r = axl_doc_get_root (d); const char *c = axl_node_get_content (r, &s); sb_f (&b, "%s %d %d", c ? c : "-", c ? s : 0, axl_node_is_empty (r)); sb_add (&b, own (axl_node_get_content_copy (r, &s))); sb_add (&b, own (axl_node_get_content_trans (r, &s))); c = axl_node_get_content_trim (r, &s); sb_add (&b, c ? c : "-");
		axl_node_set_content (r, T[w][2], -1); axl_node_set_content_ref (r, axl_strdup (T[w][1]), -1); axl_node_set_cdata_content (r, ax_fmt ("<]]%s>", T[w][4]), -1); show (&b, r); axl_node_set_is_empty (r, w ^ (i & 1)); show (&b, r); axl_node_set_name_ref (r, axl_strdup (T[w][6])); sb_add (&b, dumped (d)); axl_doc_free (d); }
	return sb_str (&b);
}
static char *p_items (int w)
{
	axlDoc *d = mydoc (w); axlNode *r = axl_doc_get_root (d), *n = axl_node_get_child_called (r, "b"); SB b = {0}; axlItem *i; axlList *l; char *f = ax_fmt ("%s/n%d.xml", mc_scratch, w); int z; axlNode *k; axlPI *pi;
	pi = axl_pi_create ((char *) T[w][1], (char *) T[w][2]); i = axl_item_new (ITEM_PI, pi); sb_f (&b, "%s", axl_pi_get_content (axl_item_get_data (i))); axl_item_free (i, axl_true); axl_pi_free (pi); axl_item_set_after (axl_item_get_first_child (r), ITEM_NODE, axl_node_create (T[w][1])); i = axl_item_new_ref (ITEM_NODE, axl_node_create (T[w][5])); axl_item_replace (axl_item_get_last_child (r), i, axl_true); axl_item_transfer_childs_after (n, i); show (&b, r); sb_f (&b, "%d%d", axl_item_get_doc (i) == d, axl_node_get_doc (n) == d);
	n = axl_node_get_first_child (r); for (k = axl_node_get_last_child (r); k; k = axl_node_get_previous_called (k, "c")) sb_add (&b, axl_node_get_name (k)); axl_node_add_pi_target (r, (char *) T[w][0], (char *) T[w][4]); l = axl_node_get_pi_target_list (r); sb_f (&b, "%d", l ? axl_list_length (l) : -1); if (l) axl_list_free (l); axl_node_dump_to_file (r, f); sb_add (&b, ax_read_file (f, &z)); axl_node_dump_pretty_to_file (r, f, 2); sb_add (&b, ax_read_file (f, &z)); axl_doc_free (d);
	d = axl_doc_parse_strings (NULL, "<r>", "<", T[w][0], "/>", "</r>", NULL); if (d) { show (&b, axl_doc_get_root (d)); sb_f (&b, "%s", axl_doc_get_content_at (d, ax_fmt ("/r/%s", T[w][0]), &z) ? "content" : "none"); axl_doc_free (d); } n = axl_node_parse_strings (NULL, "<k>", T[w][2], "</k>", NULL); if (n) { show (&b, n); axl_node_free (n); } { axlError *e = NULL; n = axl_node_parse (&e, "<%s", T[w][1]); sb_add (&b, err_str (&e)); if (n) axl_node_free (n); d = axl_doc_parse_strings (&e, "<", T[w][2], NULL); sb_add (&b, err_str (&e)); if (d) axl_doc_free (d); } return sb_str (&b);
}
static axl_bool each2 (axlPointer k, axlPointer v, axlPointer u, axlPointer x) { sb_f (u, "%ld=%s%s;", (long) k, (char *) v, (char *) x); return axl_false; }
static axl_bool each3 (axlPointer k, axlPointer v, axlPointer u, axlPointer x, axlPointer y) { sb_f (u, "%ld%s%s;", (long) k, (char *) x, (char *) y); return (long) k == 9; }
static char *p_hash2 (int w)
{
	axlHash *h = axl_hash_new_full (axl_hash_int, axl_hash_equal_int, 2 + w); SB b = {0}; long i; axlHashCursor *c; for (i = 0; i < 14; i++) { axl_hash_insert (h, (axlPointer) (i * 3 + w), (axlPointer) T[w][i % 8]); if (i % 4 == 3) { axl_hash_remove (h, (axlPointer) (i * 2 + w)); axl_hash_delete (h, (axlPointer) (3 + w)); } } axl_hash_foreach2 (h, each2, &b, (axlPointer) T[w][1]); axl_hash_foreach3 (h, each3, &b, (axlPointer) T[w][1], (axlPointer) T[w][5]);
	c = axl_hash_cursor_new (h); axl_hash_cursor_last (c); sb_f (&b, "%d", axl_hash_cursor_has_item (c)); axl_hash_cursor_first (c); for (i = 0; axl_hash_cursor_has_item (c); i++) { sb_f (&b, "%ld%d", (long) axl_hash_cursor_get_key (c), axl_hash_cursor_has_next (c)); if (i % 2) axl_hash_cursor_remove (c); else axl_hash_cursor_next (c); } axl_hash_cursor_free (c); sb_f (&b, "%d %d", axl_hash_items (h), axl_hash_capacity (h)); axl_hash_free (h); return sb_str (&b);
}
static char *p_list2 (int w)
{
	axlList *l = axl_list_new (axl_list_equal_string, NULL), *m = axl_list_new (axl_list_equal_int, NULL); SB b = {0}; int i; axlListCursor *c; for (i = 0; i < 24; i++) { axl_list_append (l, (axlPointer) T[w][i % 8]); axl_list_add (m, (axlPointer) (long) (i * 7 % 10 + w)); } read_list (&b, w, l); axl_list_unlink (l, (axlPointer) T[w][3]); axl_list_unlink_ptr (l, (axlPointer) T[w][4]); axl_list_remove_ptr (l, (axlPointer) T[w][5]); axl_list_unlink_at (l, 3); axl_list_unlink_first (l); axl_list_unlink_last (l); axl_list_remove_last (l); sb_f (&b, "%d", axl_list_exists_at (l, (axlPointer) T[w][6], 2)); read_list (&b, w, l);
	c = axl_list_cursor_new (m); for (i = 0; axl_list_cursor_has_item (c); i++) { sb_f (&b, "%ld%d%d", (long) axl_list_cursor_get (c), axl_list_cursor_has_next (c), axl_list_cursor_has_previous (c)); if (i % 3 == 0) axl_list_cursor_unlink (c); else if (i % 3 == 1) axl_list_cursor_remove (c); else axl_list_cursor_next (c); } axl_list_cursor_free (c); for (i = 0; i < 5; i++) axl_list_append (m, (axlPointer) (long) i); axl_list_remove (m, (axlPointer) 2L); for (i = 0; i < axl_list_length (m); i++) sb_f (&b, "%ld,", (long) axl_list_get_nth (m, i)); axl_list_free (l); axl_list_free (m); return sb_str (&b);
}
static char *p_stream2 (int w)
{
	SB t = {0}, b = {0}; int i, m, z; char *f = ax_fmt ("%s/s%d", mc_scratch, w), *x; axlStream *s; axlError *e = NULL; for (i = 0; i < 400; i++) sb_f (&t, "%s%d;%s", T[w][4], i, i % 50 == 49 ? "\n" : " "); ax_write_file (f, sb_str (&t), t.n); s = axl_stream_new (NULL, -1, f, -1, &e); if (!s) return err_str (&e);
	for (i = 0; i < 900; i++) { x = i % 3 ? axl_stream_get_until_ref_zero (s, NULL, &m, axl_true, &z, 2, ";", "\n", NULL) : axl_stream_get_until_zero (s, NULL, &m, i & 1, 2, ";", "<<", NULL); if (!x || m == -2) break; if (i % 40 == 0) sb_f (&b, "%s%d@%d ", x, m, axl_stream_get_global_index (s)); if (i % 7 == 0) axl_stream_push (s, T[w][1], strlen (T[w][1])); if (i % 11 == 0 && axl_stream_inspect_several (s, 2, " long", 5, "\n", 1) > 0) sb_add (&b, "+"); } sb_f (&b, "%d %d", axl_stream_remains (s), axl_stream_get_size (s)); axl_stream_free (s);
	x = axl_stream_to_upper_copy (T[w][4]); sb_add (&b, x); axl_free (x); { char **v = axl_split (ax_fmt ("%s,, %s,", T[w][0], T[w][1]), 1, ","); sb_f (&b, "%d", axl_stream_strv_num (v)); axl_stream_clean_split (v); sb_f (&b, "%d%s", axl_stream_strv_num (v), v[0] ? v[0] : ""); axl_freev (v); } x = axl_strdup (ax_fmt (" \t%s\n ", T[w][2])); axl_stream_trim_with_size (x, &z); sb_f (&b, "%s%d%d", x, z, axl_stream_is_white_space (" \n")); axl_free (x); return sb_str (&b);
}
static char *p_large (int w)          /* a file larger than the reading buffer */
{
	SB t = {0}, b = {0}; char *f = ax_fmt ("%s/l%d.xml", mc_scratch, w); int i; axlDoc *d; axlError *e = NULL; axlNode *n; sb_f (&t, "<?xml version='1.0' encoding='%s'?><r>", w ? "iso-8859-15" : "utf-8"); for (i = 0; i < 90 + 40 * w; i++) sb_f (&t, "<%s k='%s%d'>%s%s</%s>", T[w][0], T[w][4], i, w ? "\xe9\xa4" : "\xc3\xa9", T[w][2], T[w][0]); sb_add (&t, "</r>"); ax_write_file (f, sb_str (&t), t.n); d = axl_doc_parse_from_file (f, &e); if (!d) return err_str (&e); for (n = axl_node_get_first_child (axl_doc_get_root (d)); n; n = axl_node_get_next (n)) { sb_add (&b, ATTR_VALUE (n, "k")); sb_add (&b, axl_node_get_content (n, NULL)); } axl_doc_free (d); return sb_str (&b);
}
static char *p_differ (int w)
{
	const char *x[9] = { "<r><a k='1'>t</a><b/></r>", ax_fmt ("<r><a k='%s'>t</a><b/></r>", T[w][1]), ax_fmt ("<r><a %s='1'>t</a><b/></r>", T[w][3]), ax_fmt ("<r><a k='1'>%s</a><b/></r>", T[w][2]), ax_fmt ("<r><a k='1'>t</a><%s/></r>", T[w][0]), "<r><a k='1'>t</a><b/><b/></r>", "<r><a k='1'>t<!-- c --></a><b/></r>", ax_fmt ("<%s/>", T[w][0]), "<r><a k='1'><![CDATA[t]]></a><b/></r>" };
	int i, j; SB b = {0}; axlDoc *d[9]; axlError *e = NULL; for (i = 0; i < 9; i++) d[i] = axl_doc_parse (x[i], -1, NULL); for (i = 0; i < 9; i++) for (j = 0; j < 9; j++) { sb_f (&b, "%d%d", axl_doc_are_equal_full (d[i], d[j], (i + w) & 1, &e), axl_doc_are_equal_trimmed (d[i], d[j])); sb_add (&b, err_str (&e)); axl_node_are_equal_full (axl_doc_get_root (d[i]), axl_doc_get_root (d[j]), &e); sb_add (&b, err_str (&e)); } for (i = 0; i < 9; i++) axl_doc_free (d[i]); return sb_str (&b);
}
static char *p_ns2 (int w)
{
	static const char *x[] = { "<%s xmlns=''><a/></%s>", "<p:%s xmlns:p=''/>", "<%s xmlns:p='u' p:k='1' q:j='2'></%s>", "<%s xmlns:p='urn:x'><p:a xmlns:p='urn:y'><p:b/></p:a><p:c/></%s>", "<%s xmlns='u'><a xmlns=''/><b/></%s>", "<:%s/>", "<%s:/>" }; int i; SB b = {0};
	for (i = 0; i < 7; i++) { axlError *e = NULL; axlDoc *d = axl_doc_parse (ax_fmt (x[i], T[w][0], T[w][0]), -1, &e); axlNode *n; if (!d) { sb_add (&b, err_str (&e)); continue; } sb_f (&b, "%d", axl_ns_doc_validate (d, &e)); sb_add (&b, err_str (&e)); n = axl_node_get_last_child (axl_doc_get_root (d)); if (n) { n = axl_ns_node_get_previous_called (n, "urn:y", "a"); sb_add (&b, n ? axl_node_get_name (n) : "none"); } axl_doc_free (d); } return sb_str (&b);
}
static char *p_codings (int w)
{
	static const struct { const char *t; int n; } x[] = { { "\xef\xbb\xbf<r>\xc3\xa9</r>", 12 }, { "\xff\xfe<\0r\0/\0>\0", 10 }, { "\xfe\xff\0<\0r\0/\0>", 10 }, { "<\0r\0/\0>\0", 8 }, { "<r>\xc3</r>", 8 }, { "<r>\xe2\x82\xac\xf0\x9d\x84\x9e</r>", 14 }, { "<?xml version='1.0' encoding='utf-8'?><r>\xe2\x82\xac\xf0\x9d\x84</r>", 51 }, { "<?xml version='1.0' encoding='us-ascii'?><r>x</r>", 49 } };
	static const char *en[] = { "2", "3", "4", "6", "8", "9" }; int i; SB b = {0}; axlError *e = NULL; axlDoc *d; char *f = ax_fmt ("%s/c%d.xml", mc_scratch, w);
	for (i = 0; i < 8; i++) { ax_write_file (f, x[i].t, x[i].n); d = axl_doc_parse_from_file (f, &e); if (!d) sb_add (&b, err_str (&e)); else { show (&b, axl_doc_get_root (d)); axl_doc_free (d); } d = axl_doc_parse (x[i].t, x[i].n, &e); if (!d) sb_add (&b, err_str (&e)); else { show (&b, axl_doc_get_root (d)); axl_doc_free (d); } }
	for (i = 0; i < 6; i++) { d = axl_doc_parse (ax_fmt ("<?xml version='1.0' encoding='iso-8859-%s'?><r>\xe1\xb1%s</r>", en[w ? 5 - i : i], T[w][0]), -1, &e); if (!d) sb_add (&b, err_str (&e)); else { show (&b, axl_doc_get_root (d)); axl_doc_free (d); } } return sb_str (&b);
}
/* shared objects, only read */
static axlList *sl; static axlHash *sh; static axlDtd *sd; static axlDoc *sdoc, *sns;
static char *s_list (int w) { SB b = {0}; read_list (&b, w, sl); read_list (&b, !w, sl); return sb_str (&b); }
static char *s_hash (int w) { SB b = {0}; read_hash (&b, w, sh); read_hash (&b, !w, sh); return sb_str (&b); }
static char *s_valid (int w) { SB b = {0}; validate_all (&b, w, sd); validate_all (&b, !w, sd); return sb_str (&b); }
static char *s_dtd (int w) { SB b = {0}; read_dtd (&b, w, sd); read_dtd (&b, !w, sd); return sb_str (&b); }
static char *s_doc (int w) { SB b = {0}; read_doc (&b, w, sdoc); read_doc (&b, !w, sdoc); return sb_str (&b); }
static char *s_more (int w) { SB b = {0}; read_more (&b, w, sdoc); return sb_str (&b); }
static axlPointer kdup (axlPointer k, axlDestroyFunc kd, axlPointer v, axlDestroyFunc vd) { return axl_strdup (k); }
static axlPointer vdup (axlPointer k, axlDestroyFunc kd, axlPointer v, axlDestroyFunc vd) { return axl_strdup (v); }
static char *s_copies (int w) { SB b = {0}; axlList *l = axl_list_copy (sl, dupf); axlHash *h = axl_hash_copy (sh, kdup, vdup); axlDtd *t = axl_dtd_parse (dtd_text (w), -1, NULL); read_list (&b, w, l); read_hash (&b, !w, h); sb_f (&b, "%d%d", axl_dtd_are_equal (sd, t), axl_dtd_are_equal (t, sd)); axl_list_free (l); axl_hash_free (h); axl_dtd_free (t); return sb_str (&b); }
static char *s_eq (int w) { axlDoc *d = mydoc (w); char *r = ax_fmt ("%d%d", axl_doc_are_equal (d, sdoc), axl_doc_are_equal (sdoc, sdoc)); axl_doc_free (d); return r; }
static char *s_copy (int w) { axlNode *n = axl_node_copy (axl_doc_get_root (sdoc), axl_true, axl_true); SB b = {0}; show (&b, n); axl_node_free (n); return sb_str (&b); }
static char *s_ns (int w) { SB b = {0}; read_ns (&b, w, sns); read_ns (&b, !w, sns); return sb_str (&b); }
static const struct { const char *n; Prog p; int shared; } P[] = { { "parse", p_parse }, { "dump", p_dump }, { "refused documents", p_bad }, { "files", p_file }, { "build", p_build }, { "dtd", p_dtd }, { "refused dtds", p_baddtd }, { "namespaces", p_ns }, { "encodings", p_babel }, { "list", p_list }, { "hash", p_hash }, { "stacks", p_stack }, { "pools", p_pool }, { "strings", p_strings }, { "annotations", p_annot }, { "edits", p_edit }, { "read", p_read }, { "escape", p_escape }, { "stream", p_stream }, { "compare", p_equal }, { "big", p_big }, { "deep", p_deep }, { "invalid documents", p_invalid }, { "more dtds", p_dtds }, { "headers", p_head }, { "attributes", p_attrs }, { "content", p_content }, { "items", p_items }, { "hash of numbers", p_hash2 }, { "more lists", p_list2 }, { "more streams", p_stream2 }, { "large files", p_large }, { "differences", p_differ }, { "more namespaces", p_ns2 }, { "more encodings", p_codings },
	{ "shared list", s_list, 1 }, { "shared hash", s_hash, 1 }, { "shared dtd validating", s_valid, 1 }, { "shared dtd", s_dtd, 1 }, { "shared document", s_doc, 1 }, { "shared document again", s_more, 1 }, { "copy from shared list and hash, compare with shared dtd", s_copies, 1 }, { "compare with shared document", s_eq, 1 }, { "copy from shared document", s_copy, 1 }, { "namespaces of a shared document", s_ns, 1 } };
#define NP (int) (sizeof P / sizeof *P)

/* one execution; first: which thread begins; alone: only that thread */
static void execute (int alone)
{
	int i, first; gen++; used = nsched = pend_after[0] = pend_after[1] = 0; npoints = 0; res[0] = res[1] = NULL; cur = -1;
	sl = mklist (0, 8); sh = mkhash (1, 20); sd = axl_dtd_parse (dtd_text (0), -1, NULL); sdoc = mydoc (1); axl_node_annotate_string (axl_doc_get_root (sdoc), "note", "kept"); axl_node_annotate_int (axl_node_get_first_child (axl_doc_get_root (sdoc)), "number", 7); sns = axl_doc_parse (ns_text (1), -1, NULL); axl_ns_doc_validate (sns, NULL);
	for (i = 0; i < 2; i++) {
		done[i] = alone >= 0 && alone != i; getcontext (&ctx[i]); ctx[i].uc_stack.ss_sp = stk[i]; ctx[i].uc_stack.ss_size = STK; ctx[i].uc_link = NULL; makecontext (&ctx[i], (void (*) (void)) body, 1, i); }
	first = alone >= 0 ? alone : pick (2); recording = 1; go (first); recording = 0; cur = -1;
	axl_list_free (sl); axl_hash_free (sh); axl_dtd_free (sd); axl_doc_free (sdoc); axl_doc_free (sns); mc_trans (1);
}
void mc_init (void)
{
	int i; cells = mmap (NULL, NC * sizeof (Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (i = 0; i < 2; i++) stk[i] = mmap (NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	__sanitizer_install_malloc_and_free_hooks (on_malloc, on_free);
}
void mc_case (void)
{
	int a[2][2], i, j, bud, seen; char *want[2]; axlError *e = NULL; long runs = 0, cap; static long total; clock_t t0 = clock ();
	ax_reset (); recording = 0; cur = -1;
	a[0][0] = mc_choose (NP); a[1][0] = mc_choose (NP); mc_shard (); a[0][1] = a[1][1] = -1; if (mc_thorough) { a[0][1] = mc_choose (NP + 1) - 1; if (a[0][1] >= 0) a[1][1] = mc_choose (3) * 7 + a[0][0] % 7; }
	for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) prog[i][j] = a[i][j] < 0 ? NULL : P[a[i][j]].p;
	mc_desc ("%s%s%s and %s%s%s", P[a[0][0]].n, a[0][1] < 0 ? "" : ", ", a[0][1] < 0 ? "" : P[a[0][1]].n, P[a[1][0]].n, a[1][1] < 0 ? "" : ", ", a[1][1] < 0 ? "" : P[a[1][1]].n);
	axl_init (); if (!axl_babel_init (&e)) mc_fail ("babel"); 
	cap = total < 30000 ? 20000 : 300; nrace = nplace = 0; choosing = 0; fixed = 0; budget = 0;
	for (i = 0; i < 2; i++) { execute (i); want[i] = res[i]; }
	if (getenv ("C22_SHOW")) for (i = 0; i < 2; i++) fprintf (stderr, "%s: %s\n", P[a[i][0]].n, want[i]);
	for (bud = 0; bud <= (nrace ? 2 + mc_thorough : 0); bud++) do {   /* all schedules over the conflicting locations found so far */
		seen = nrace + nplace; fixed = 0; choosing = 1; budget = bud;
		for (;;) {
			execute (-1); runs++; total += nrace > 0;
			for (i = 0; i < 2; i++) if (strcmp (res[i], want[i])) { for (j = 0; res[i][j] == want[i][j]; j++) ; j = j > 20 ? j - 20 : 0; mc_fail ("thread %d gets %s, alone it gets %s (%d preemptions, schedule of %d choices)", i, Q (ax_dupn (res[i] + j, nlen (res[i] + j, 120))), Q (ax_dupn (want[i] + j, nlen (want[i] + j, 120))), used, nsched); }
			if (clock () - t0 > 6 * CLOCKS_PER_SEC) cap = runs; if (runs >= cap) { mc_outcome ("capped"); break; }
			if (nrace + nplace != seen) break;
			fixed = nsched; while (fixed > 0 && sched[fixed - 1] + 1 >= arity[fixed - 1]) fixed--; if (!fixed) break; sched[fixed - 1]++;
		}
	} while (nrace + nplace != seen && runs < cap);
	if (nrace && getenv ("C22_SHOW")) { fprintf (stderr, "conflicts in"); for (i = 0; i < nrace; i++) fprintf (stderr, " %#lx", race[i]); fprintf (stderr, " runs %ld base %p\n", runs, mc_case); }
	mc_outcome (nrace ? "conflicts, all schedules alike" : "nothing in common"); mc_nontrivial (); mc_state (mc_hash (want[0], strlen (want[0]), nrace)); mc_state (mc_hash (want[1], strlen (want[1]), nrace + 1));
	 axl_babel_finish (); axl_end ();
}
