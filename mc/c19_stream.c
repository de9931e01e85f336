/* C19: all short histories of stream operations against a plain cursor over the text, for memory streams and
   for file streams whose reads end where the plan says. */
#include "ax.h"
#include <unistd.h>
const char *mc_name = "c19_stream";
void mc_init (void) { axl_init (); }

ssize_t __real_read (int fd, void *buf, size_t n);
static struct { int on, cut, every, pos, reads; } plan;
ssize_t __wrap_read (int fd, void *buf, size_t n)
{
	ssize_t r; long lim = n;
	if (!plan.on) return __real_read (fd, buf, n);
	if (++plan.reads > 100000) mc_fail ("reading does not stop");
	if (plan.every && plan.every < lim) lim = plan.every;
	if (plan.cut > plan.pos && plan.cut - plan.pos < lim) lim = plan.cut - plan.pos;
	r = __real_read (fd, buf, lim); if (r > 0) plan.pos += r; return r;
}
/* ---------------------------------------------- model */
static char T[40000]; static int N, P, pend, fd, moved, refused;      /* text, length, cursor */
static axlStream *S;
static int ws (char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int at (const char *c, int n) { if (P + n > N) return -1; return !memcmp (T + P, c, n); }
static const char *rest (void) { return Q (ax_dupn (T + P, N - P > 40 ? 40 : N - P)); }
/* terminator sets */
static const struct { int n; const char *c[4]; } TS[] = { { 1, { "a" } }, { 1, { "ab" } }, { 2, { "ab", "a" } }, { 2, { "b", "ba" } }, { 2, { " ", "a" } }, { 1, { " " } }, { 1, { "aab" } }, { 3, { "]]>", "a", "<" } }, { 2, { "-->", "--" } }, { 2, { " ?>", "?>" } }, { 3, { "a", " ", "ab" } } };
#define NTS ((int) (sizeof TS / sizeof *TS))
static int find (int ts, int *which, int *len)      /* distance to the first terminator or -1 */
{
	int i, k;
	for (i = P; i < N; i++) {
		for (k = 0; k < TS[ts].n; k++) if (!strcmp (TS[ts].c[k], " ") && ws (T[i])) { *which = k; *len = 1; return i - P; }
		for (k = 0; k < TS[ts].n; k++) { int l = strlen (TS[ts].c[k]); if (strcmp (TS[ts].c[k], " ") && i + l <= N && !memcmp (T + i, TS[ts].c[k], l)) { *which = k; *len = l; return i - P; } }
	}
	return -1;
}
static char *until (int ts, int zero, int acc, int *m)
{
	const char *const *c = TS[ts].c;
#define CALL(f) (TS[ts].n == 1 ? f (S, NULL, m, acc, 1, c[0]) : TS[ts].n == 2 ? f (S, NULL, m, acc, 2, c[0], c[1]) : f (S, NULL, m, acc, 3, c[0], c[1], c[2]))
	return zero ? CALL (axl_stream_get_until_zero) : CALL (axl_stream_get_until);
}
static char *until_ref (int ts, int zero, int *m, int *sz)
{
	const char *const *c = TS[ts].c;
#define CALLR(f) (TS[ts].n == 1 ? f (S, NULL, m, 1, sz, 1, c[0]) : TS[ts].n == 2 ? f (S, NULL, m, 1, sz, 2, c[0], c[1]) : f (S, NULL, m, 1, sz, 3, c[0], c[1], c[2]))
	return zero ? CALLR (axl_stream_get_until_ref_zero) : CALLR (axl_stream_get_until_ref);
}
static void op_until (int ts, int mode)      /* 0 keep, 1 accept, 2 zero keep, 3 zero accept, 4 ref, 5 ref zero */
{
	int which = -1, len = 0, d, m = -9, sz = -9; char *r;
	mc_desc (" until%d{%s%s%s}", mode, TS[ts].c[0], TS[ts].n > 1 ? "," : "", TS[ts].n > 1 ? TS[ts].c[1] : "");
	d = find (ts, &which, &len);
	r = mode >= 4 ? until_ref (ts, mode == 5, &m, &sz) : until (ts, mode >= 2, mode & 1, &m);
	if (d < 0 && (mode == 2 || mode == 3 || mode == 5)) {
		MC_CHECK (r && m == -2, "no terminator up to the end: %s matched %d, expected the rest with -2", Q (r), m);
		if (mode == 5) MC_CHECK (sz == N - P, "size %d instead of %d", sz, N - P);
		MC_CHECK (!memcmp (r, T + P, N - P) && r[N - P] == 0, "the rest is %s, got %s", rest (), Q (r)); P = N; pend = 0; return;
	}
	if (d < 0) { MC_CHECK (!r, "no terminator in %s but got %s", rest (), Q (r)); return; }
	MC_CHECK (r, "terminator %d at distance %d of %s not found", which, d, rest ());
	MC_CHECK (m == which, "terminator %d matched instead of %d in %s", m, which, rest ());
	if (mode >= 4) MC_CHECK (sz == d, "size %d instead of %d", sz, d);
	MC_CHECK (!memcmp (r, T + P, d) && r[d] == 0, "got %s, %d bytes expected of %s", Q (r), d, rest ());
	if (mode >= 4) refused = 1;
	P += d + (mode == 0 || mode == 2 ? 0 : len); pend = 0;
}
static const char *IC[] = { "a", "b", "ab", "aab", " ", "<", "]]>", "abababab" };
static void op_match (int kind, const char *c)     /* 0 inspect 1 peek 2 peek+accept 3 check */
{
	int n = strlen (c), e = at (c, n), r; mc_desc (" %s(%s)", (char *[]) { "inspect", "peek", "peek+accept", "check" } [kind], c);
	if (kind == 3) { r = axl_stream_check (S, (char *) c, n); MC_CHECK (!r == !(e > 0), "check %s at %s: %d", c, rest (), r); return; }
	r = kind == 0 ? axl_stream_inspect (S, c, pend ? -1 : n) : axl_stream_peek (S, c, pend ? n : -1);
	MC_CHECK (r == e, "%s %s at %s: %d, expected %d", kind ? "peek" : "inspect", c, rest (), r, e);
	if (e > 0) { if (kind == 0) { P += n; pend = 0; } else if (kind == 1) pend = n; else { axl_stream_accept (S); P += n; pend = 0; } }
}
static void close_stream (void);
static void skip (void) { close_stream (); mc_skip (); }
static void op_step (void)
{
	int av = axl_stream_get_size (S) - axl_stream_get_index (S), k; if (pend || av <= 0) skip (); k = 1 + mc_choose (av > 3 ? 3 : av); mc_desc (" step%d", k); axl_stream_step (S, k); P += k; moved = 1;
}
static void op (int k)
{
	mc_trans (1);
	if (k < NTS) { op_until (k, mc_choose (6)); return; } k -= NTS;
	if (k < 8) { op_match (0, IC[k]); return; } k -= 8;
	if (k < 8) { op_match (1 + mc_choose (3), IC[k]); return; } k -= 8;
	switch (k) {
	case 0: mc_desc (" spaces"); axl_stream_consume_white_spaces (S); if (P < N && ws (T[P])) { pend = 0; while (P < N && ws (T[P])) P++; } break;
	case 1: { int e, r, i; const char *c[3] = { "ab", "b", "a " }; mc_desc (" several"); r = axl_stream_inspect_several (S, 3, c[0], 2, c[1], -1, c[2], 2); for (e = 0, i = 0; i < 3; i++) { int x = at (c[i], strlen (c[i])); if (x > 0) { e = i + 1; P += strlen (c[i]); pend = 0; break; } if (x < 0) e = -1; } MC_CHECK (r == e, "inspect_several at %s: %d, expected %d", rest (), r, e); break; }
	case 2: op_step (); break;
	case 3: { int i; if (pend) skip (); if (fd) { int av = axl_stream_get_size (S) - axl_stream_get_index (S); i = mc_choose (av + 1 > 3 ? 3 : av + 1); axl_stream_move (S, axl_stream_get_index (S) + i); P += i; } else { if (refused || N > 12) skip (); i = mc_choose (N + 1); axl_stream_move (S, i); P = i; } mc_desc (" move%d", i); moved = 1; break; }
	case 4: { const char *c = (char *[]) { "a", "ab ", "<xyz>", "aabb]]>ab abab" } [mc_choose (4)]; int n = strlen (c); if (pend || moved > 50) skip (); mc_desc (" push(%s)", c); axl_stream_push (S, c, n); memmove (T + n, T + P, N - P); memcpy (T, c, n); N = N - P + n; P = 0; moved = 100; break; }
	case 5: { const char *f = axl_stream_get_following (S, 3); int n = N - P < 3 ? N - P : 3; mc_desc (" following"); if (P == N) MC_CHECK (!f || !*f, "content %s follows the end", Q (f)); else if (!fd) MC_CHECK (f && (int) strlen (f) == n && !memcmp (f, T + P, n), "following %s, expected %s", Q (f), rest ()); else if (f) MC_CHECK ((int) strlen (f) <= n && !memcmp (f, T + P, strlen (f)), "following %s, expected %s", Q (f), rest ()); break; }
	case 6: { const char *f = axl_stream_get_near_to (S, 3); mc_desc (" near"); MC_CHECK (f, "near NULL"); if (!fd && !refused && moved < 50) { int a = P > 3 ? P - 3 : 0, z = P + 3 < N ? P + 3 : N, l = strlen (f); MC_CHECK (l >= z - a && l <= z - a + 1 && l <= N - a && !memcmp (f, T + a, l), "near %s at %d of %s", Q (f), P, Q (ax_dupn (T, N))); } break; }
	default: { int o = mc_choose (3), c = mc_choose (2) ? 'a' : '<', r = axl_stream_inspect_code (S, c, o); mc_desc (" code%d", o); MC_CHECK (!r == !(P + o < N && T[P + o] == c), "inspect_code %c at offset %d of %s: %d", c, o, rest (), r); break; }
	}
}
#define NOPS (NTS + 8 + 8 + 8)
static void views (void)
{
	MC_CHECK (!axl_stream_remains (S) == !(P < N), "remains %d with %d bytes left", axl_stream_remains (S), N - P);
	if (!fd) { MC_CHECK (axl_stream_get_size (S) == N, "size %d, text has %d", axl_stream_get_size (S), N); MC_CHECK (axl_stream_get_index (S) == P, "index %d, cursor %d", axl_stream_get_index (S), P); }
	if (!moved) MC_CHECK (axl_stream_get_global_index (S) == P, "global index %d, consumed %d", axl_stream_get_global_index (S), P);
	mc_trans (3);
}
static void drain (void)      /* the rest of the text is what the stream still yields */
{
	int m, i; char *r = axl_stream_get_until_zero (S, NULL, &m, axl_true, 1, "\x01");
	MC_CHECK (r && m == -2 && !memcmp (r, T + P, N - P) && !r[N - P], "at the end %s remains, the stream yields %s", rest (), Q (r));
	P = N; views ();
	MC_CHECK (axl_stream_inspect (S, "a", 1) == -1 && axl_stream_peek (S, "ab", -1) == -1, "no end of data"); axl_stream_consume_white_spaces (S);
	MC_CHECK (!axl_stream_get_until (S, NULL, NULL, axl_true, 1, "a"), "reads past the end");
	for (i = 0; i < 3; i++) MC_CHECK (!axl_stream_inspect_code (S, "a <"[i], 0), "content past the end"); mc_trans (6);
}
static void open_stream (int mem)
{
	axlError *err = NULL; int a;
	P = pend = moved = refused = 0; fd = !mem; plan.pos = plan.reads = 0;
	if (mem) { char *ex = malloc (N ? N : 1); memcpy (ex, T, N); S = axl_stream_new (ex, N, NULL, -1, &err); memset (ex, '!', N); free (ex); }
	else { char *p = ax_fmt ("%s/s", mc_scratch); ax_write_file (p, T, N); plan.on = 1; S = axl_stream_new (NULL, -1, p, -1, &err); }
	MC_CHECK (S && !err, "no stream");
}
static void close_stream (void) { axl_stream_free (S); plan.on = 0; }
static const char *texts[] = { "", "a", " a", "ab", "aab a", "]]]>a", "b ab", "--->x", "a ?>b", "\n\t ab<", "abababab", "aaba" };
static void setup_text (const char *t, int n) { memcpy (T, t, n); N = n; }
static int delivery (void) { static const int ev[] = { 0, 0, 1, 2, 3 }; int k = mc_choose (5); plan.every = ev[k]; return k == 0; }

static void part_history (void)
{
	int ti = mc_choose (12), mem = delivery (), depth = mc_thorough && ti == 4 ? 3 : ti < 8 || mc_thorough ? 2 : 1, i;
	setup_text (texts[ti], strlen (texts[ti])); mc_desc ("%s %s/%d:", Q (texts[ti]), mem ? "mem" : "file", plan.every);
	open_stream (mem);
	for (i = 0; i < depth; i++) { int k = mc_choose (NOPS + 1); if (i == 0) mc_shard (); if (k == NOPS) break; op (k); views (); mc_state (mc_hash (T, N, P * 1000 + pend * 7 + mem)); }
	drain (); close_stream (); mc_nontrivial ();
}
/* every text over an alphabet, every single read-until, every delivery */
static void part_until (void)
{
	static const char *al = "ab ]>"; int L = mc_choose (mc_thorough ? 7 : 6), ts = mc_choose (NTS), mem = delivery (), mode = mc_choose (6), i; char t[8]; mc_shard ();
	for (i = 0; i < L; i++) t[i] = al[mc_choose (L > 5 ? 3 : ts == 7 ? 5 : 3)];
	setup_text (t, L); mc_desc ("%s %s/%d:", mc_q (t, L), mem ? "mem" : "file", plan.every); open_stream (mem); op_until (ts, mode); views (); if (mode < 2 && N - P > 1) { op_until (ts, mode ^ 1); views (); } drain (); close_stream (); mc_trans (2); mc_nontrivial ();
}
/* around the internal buffer boundary: a prefix of the file is consumed first */
static void part_buffer (void)
{
	int ti = mc_choose (11) + 1, n = strlen (texts[ti]), k = mc_choose (n + 3), b = mc_choose (2) ? 16384 : 8192, lead = mc_choose (3), i, mem = 0, depth = mc_thorough ? 2 : 1; char *pre; mc_shard ();
	n = b - k; pre = malloc (n + 64);
	plan.every = (int[]) { 0, 8191, 777 } [mc_choose (3)];
	memset (pre, lead == 2 ? ' ' : 'x', n); if (lead != 2) pre[n - 1] = '|'; strcpy (pre + n, texts[ti]);
	setup_text (pre, n + strlen (texts[ti])); free (pre); mc_desc ("%d bytes then %s, reads of %d:", n, Q (texts[ti]), plan.every);
	open_stream (mem);
	if (lead == 0) { int m; char *r = axl_stream_get_until (S, NULL, &m, axl_true, 1, "|"); MC_CHECK (r && strlen (r) == n - 1, "leading part not read"); P = n; }
	else if (lead == 1) { int m, sz; char *r = axl_stream_get_until_ref (S, NULL, &m, axl_true, &sz, 2, "|", "-|-"); MC_CHECK (r && sz == n - 1, "leading part not read"); P = n; }
	else { axl_stream_consume_white_spaces (S); while (P < N && ws (T[P])) P++; }
	views ();
	if (lead || plan.every || b != 8192) depth = 1;
	for (i = 0; i < depth; i++) { int k = mc_choose (NOPS); op (k); views (); }
	drain (); close_stream (); mc_nontrivial ();
}
/* long pieces, long pushes */
static void part_long (void)
{
	static const int len[] = { 100, 4096, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 16385, 20000 };
	int L = len[mc_choose (11)], mem = delivery (), k = mc_choose (5), pl; mc_shard ();
	if (plan.every && (L > 9000 || !mc_thorough)) plan.every *= 1000;
	memset (T, 'x', L); N = L; memcpy (T + N, "|tail ab", 8); N += 8; mc_desc ("%d bytes, way %d, %s/%d", L, k, mem ? "mem" : "file", plan.every); open_stream (mem);
	switch (k) {
	case 0: { char *r = axl_stream_get_until (S, NULL, NULL, axl_true, 1, "|tail"); MC_CHECK (r && (int) strlen (r) == L, "%d bytes read", r ? (int) strlen (r) : -1); P = L + 5; break; }
	case 1: MC_CHECK (!axl_stream_get_until (S, NULL, NULL, axl_true, 1, "|tails"), "found what is not there"); break;
	case 2: { char *p = malloc (L + 1); memset (p, 'p', L); p[L] = 0; axl_stream_push (S, p, L); MC_CHECK (axl_stream_inspect (S, p, L) == 1, "pushed content not read back"); free (p); moved = 100; P = 0; if (!mem) {} else { N = L + 8; } break; }
	case 3: { int m = 0; while (m + 100 <= L) { MC_CHECK (axl_stream_inspect (S, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 100) == 1, "at %d: mismatch", m); m += 100; P = m; } break; }
	case 4: { char *r; int i; for (i = 0; i < 3; i++) { MC_CHECK (axl_stream_inspect (S, "x", 1) == 1, "first byte"); P++; axl_stream_push (S, "ab", 2); MC_CHECK (axl_stream_inspect (S, "abx", 3) == 1, "pushed bytes"); P++; } moved = 100; r = axl_stream_get_until (S, NULL, NULL, axl_false, 1, "|"); MC_CHECK (r && (int) strlen (r) == L - 6, "%d bytes of %d", r ? (int) strlen (r) : -1, L - 6); P = L; fd = 1; break; }
	}
	if (k == 2) { char *r; int m; r = axl_stream_get_until_zero (S, NULL, &m, axl_true, 1, "\x01"); MC_CHECK (r && m == -2 && (int) strlen (r) == L + 8 && !strcmp (r + L, "|tail ab") && r[0] == 'x', "after pushed content: %d bytes", r ? (int) strlen (r) : -1); }
	else drain ();
	close_stream (); mc_trans (5); mc_nontrivial ();
}
/* linked data, memory ownership, own allocator */
static int freed[4]; static void f0 (axlPointer p) { freed[0]++; } static void f1 (axlPointer p) { freed[1]++; }
static char arena[4096]; static int used; static void *own_alloc (int size, axlPointer d) { void *p = arena + used; MC_CHECK (d == arena, "allocator data"); memset (p, 0, size); used += size; return p; }
static void part_links (void)
{
	int a = mc_choose (3), b = mc_choose (3), un = mc_choose (3), late = mc_choose (2), k = mc_choose (3); char *r; mc_shard ();
	memset (freed, 0, sizeof freed); used = 0; setup_text ("one|two|three", 13); mc_desc ("links %d %d unlink %d late %d alloc %d", a, b, un, late, k); open_stream (mc_choose (2));
	if (a) axl_stream_link_full (S, "x", f0, a == 2); if (b && !late) axl_stream_link (S, "y", f1);
	if (k == 1) axl_stream_set_buffer_alloc (S, own_alloc, arena);
	r = axl_stream_get_until (S, NULL, NULL, axl_true, 1, "|"); MC_CHECK (r && !strcmp (r, "one"), "first piece %s", Q (r)); P = 4;
	if (k) axl_stream_nullify (S, LAST_CHUNK);
	if (k == 1) MC_CHECK (r == arena, "not allocated with the allocator installed");
	{ char *q = axl_stream_get_until (S, NULL, NULL, axl_true, 1, "|"); MC_CHECK (q && !strcmp (q, "two"), "second piece %s", Q (q)); P = 8; if (k) { MC_CHECK (!strcmp (r, "one"), "a piece taken over by the caller is changed: %s", Q (r)); axl_stream_nullify (S, LAST_CHUNK); if (k == 2) { axl_free (r); axl_free (q); } } }
	if (un) axl_stream_unlink (S); if (b && late) axl_stream_link (S, "y", f1);
	MC_CHECK (!freed[0] && !freed[1], "linked data released early");
	if (k) { axl_stream_inspect (S, "three", 5); P = 13; views (); } else drain ();
	close_stream ();
	MC_CHECK (freed[0] == (a == 2 || (a == 1 && !un)), "linked data released %d times (kind %d, unlinked %d)", freed[0], a, un);
	MC_CHECK (freed[1] == (b && (late || !un)), "second linked data released %d times", freed[1]); mc_trans (9); mc_nontrivial ();
}
void mc_case (void)
{
	memset (&plan, 0, sizeof plan); ax_reset ();
	switch (mc_choose (5)) { case 0: part_history (); break; case 1: part_until (); break; case 2: part_buffer (); break; case 3: part_long (); break; default: part_links (); }
}
