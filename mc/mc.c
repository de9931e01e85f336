#include "mc.h"
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/prctl.h>

#define MAXC 8192
int mc_thorough, mc_replaying;
const char *mc_scratch = "/tmp";

/* the running case lives in memory shared with the supervising parent process, so that it can be
 * reported whatever way the worker dies (sanitizer exit, signal, exit() called by the library, OOM kill) */
#define MAXD (1 << 17)
static struct shared { int ch[MAXC], ar[MAXC], nch, pos, desclen, recorded, finished; volatile uint64_t ordinal; char desc[MAXD]; } *S;
#define ch S->ch
#define ar S->ar
#define nch S->nch
#define pos S->pos
#define desc S->desc
#define desclen S->desclen
#define ordinal S->ordinal
static int  shard_i, shard_n = 1;
static jmp_buf jb;
static uint64_t n_eval, n_nontriv, n_trans, n_fail, n_skip;
static int  nontriv_flag, allocchk = 1, counted;
static int  outfd = 1;
static volatile long live;
static uint64_t *set; static size_t setcap, setn;
static struct { char l[96]; uint64_t n; } oc[512]; static int noc;
static uint64_t nsample;
static char statefile[4096];
static int maxfail = 12;
static uint64_t stop_at = 0;               /* --upto: stop after this ordinal */

int __sanitizer_install_malloc_and_free_hooks (void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void __sanitizer_set_death_callback (void (*)(void));

/* blocks allocated during the running case, so that an abandoned case can give them back */
#define TN (1 << 16)
static struct { const volatile void *p; uint32_t gen, dead; } tab[TN]; static uint32_t gen = 1; static int used[TN / 2], nused;
static unsigned tslot (const volatile void *p) { return (unsigned) (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 48) & (TN - 1); }
static void hk_m (const volatile void *p, size_t n)
{
	unsigned i; (void) n; if (!p) return; live++; if (nused >= TN / 2) return;
	for (i = tslot (p); tab[i].gen == gen && tab[i].p != p; i = (i + 1) & (TN - 1));
	if (tab[i].gen != gen) used[nused++] = i;
	tab[i].p = p; tab[i].gen = gen; tab[i].dead = 0;
}
static void hk_f (const volatile void *p) { unsigned i; if (!p) return; live--; for (i = tslot (p); tab[i].gen == gen; i = (i + 1) & (TN - 1)) if (tab[i].p == p) { tab[i].dead = 1; return; } }
static void give_back (void) { int i; for (i = 0; i < nused; i++) if (!tab[used[i]].dead) free ((void *) tab[used[i]].p); }
long mc_live (void) { return live; }
void mc_alloc_check (int on) { allocchk = on; }

uint64_t mc_hash (const void *p, size_t n, uint64_t h)
{
	const unsigned char *c = p; h ^= 0xcbf29ce484222325ULL + n * 0x9E3779B97F4A7C15ULL;
	while (n--) { h ^= *c++; h *= 0x100000001b3ULL; }
	h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
	return h;
}

static void outw (const char *b, size_t n) { while (n) { ssize_t r = write (outfd, b, n); if (r <= 0) return; b += r; n -= r; } }

static char lb[(1 << 18) + MAXC * 8];
static void line (const char *tag, const char *msg)
{
	int l = snprintf (lb, 256, "%s\t%llu\t", tag, (unsigned long long) ordinal), i; const char *c;
	for (i = 0; i < pos; i++) l += snprintf (lb + l, 16, i ? ".%d" : "%d", ch[i]);
	lb[l++] = '\t';
	for (c = msg; *c && l < (int) sizeof lb - 200000; c++) lb[l++] = (*c == '\t' || *c == '\n' || *c == '\r') ? ' ' : *c;
	lb[l++] = '\t';
	for (i = 0; i < desclen && l < (int) sizeof lb - 4; i++) lb[l++] = (desc[i] == '\t' || desc[i] == '\n' || desc[i] == '\r') ? ' ' : desc[i];
	lb[l++] = '\n';
	outw (lb, l);
}

int mc_choose (int n)
{
	if (n <= 0) mc_skip ();
	if (pos >= MAXC) { line ("ENGINE", "too many choices"); _exit (3); }
	if (pos < nch) {
		if (ch[pos] >= n) { line ("ENGINE", "choice out of range while replaying a prefix"); _exit (3); }
		if (!mc_replaying && ar[pos] != n) { line ("ENGINE", "arity diverged while replaying a prefix"); _exit (3); }
		ar[pos] = n;
	} else { ch[pos] = 0; ar[pos] = n; nch = pos + 1; }
	return ch[pos++];
}

static int sharded;
int mc_shard (void)
{
	if (mc_replaying || shard_n <= 1) return 1;
	if (sharded) return 1;           /* only the first call on a path decides */
	sharded = 1;
	/* shard on a hash of the prefix, so that subtrees spread evenly */
	uint64_t h = mc_hash (ch, pos * sizeof (int), 77);
	if ((int) (h % shard_n) != shard_i) mc_skip ();
	return 1;
}

void mc_skip (void) { longjmp (jb, 2); }

void mc_fail (const char *fmt, ...)
{
	static char b[16384]; va_list a;
	va_start (a, fmt); vsnprintf (b, sizeof b, fmt, a); va_end (a);
	line ("FAIL", b); n_fail++;
	longjmp (jb, 1);
}
void mc_desc (const char *fmt, ...)
{
	va_list a; int r;
	if (desclen >= (int) MAXD - 2) return;
	va_start (a, fmt); r = vsnprintf (desc + desclen, MAXD - desclen, fmt, a); va_end (a);
	if (r > 0) { desclen += r; if (desclen >= (int) MAXD) desclen = MAXD - 1; }
}

static void set_grow (void)
{
	size_t nc = setcap ? setcap * 2 : 1 << 14, i; uint64_t *o = set;
	uint64_t *n = mmap (NULL, nc * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (i = 0; i < setcap; i++) if (o[i]) { size_t k = o[i] & (nc - 1); while (n[k]) k = (k + 1) & (nc - 1); n[k] = o[i]; }
	if (o) munmap (o, setcap * 8);
	set = n; setcap = nc;
}
void mc_state (uint64_t h)
{
	if (!h) h = 1;
	if (setn >= 3000000) return;
	if ((setn + 1) * 2 > setcap) set_grow ();
	size_t k = h & (setcap - 1);
	while (set[k]) { if (set[k] == h) return; k = (k + 1) & (setcap - 1); }
	set[k] = h; setn++;
}
void mc_trans (int n) { n_trans += n; }
void mc_nontrivial (void) { nontriv_flag = 1; }
void mc_outcome (const char *l)
{
	int i;
	for (i = 0; i < noc; i++) if (!strcmp (oc[i].l, l)) { oc[i].n++; return; }
	if (noc < 512) { snprintf (oc[noc].l, sizeof oc[0].l, "%s", l); oc[noc++].n = 1; }
}

const char *mc_q (const char *s, int n)
{
	static char ring[8][1200]; static int r; char *o = ring[r = (r + 1) & 7]; int l = 0, i;
	if (!s) return "(null)";
	if (n < 0) n = (int) strlen (s);
	o[l++] = '"';
	for (i = 0; i < n && l < 1150; i++) {
		unsigned char c = s[i];
		if (c == '\n') { o[l++] = '\\'; o[l++] = 'n'; } else if (c == '\t') { o[l++] = '\\'; o[l++] = 't'; }
		else if (c == '\r') { o[l++] = '\\'; o[l++] = 'r'; }
		else if (c < 32 || c > 126) l += sprintf (o + l, "\\x%02x", c); else o[l++] = c;
	}
	if (i < n) l += sprintf (o + l, "...(%d bytes)", n);
	o[l++] = '"'; o[l] = 0; return o;
}

static void on_death (void)
{
	if (S->recorded) return; S->recorded = 1;
	line ("CRASH", "sanitizer report / abnormal termination");
}
static volatile uint64_t wd_last; static volatile int wd_n;
static void on_tick (int s)
{
	(void) s;
	if (wd_last == ordinal) { if (++wd_n >= 4) { S->recorded = 1; line ("HANG", "no progress in this case for 20 s of CPU time"); _exit (97); } }
	else { wd_last = ordinal; wd_n = 0; }
}
static volatile uint64_t wr_last; static volatile int wr_n;
static void on_alarm (int s)
{
	(void) s;
	if (wr_last == ordinal) { if (++wr_n >= 4) { S->recorded = 1; line ("HANG", "no progress in this case for 120 s of wall time"); _exit (97); } }
	else { wr_last = ordinal; wr_n = 0; }
}
static void on_sig (int s) { char b[64]; snprintf (b, sizeof b, "killed by signal %d", s); S->recorded = 1; line ("CRASH", b); _exit (98); }

static void run_one (void)
{
	long before; int r;
	pos = 0; desclen = 0; desc[0] = 0; nontriv_flag = 0; allocchk = 1; ordinal++; counted = 0; sharded = 0;
	before = live; gen++; nused = 0;
	r = setjmp (jb);
	if (r == 0) {
		mc_case ();
		n_eval++; n_nontriv += nontriv_flag;
		if (allocchk && live != before) {
			char b[128]; snprintf (b, sizeof b, "heap blocks not balanced: %+ld block(s) still live after everything was released", live - before);
			line ("FAIL", b); n_fail++;
		}
		if (n_eval == 1 || n_eval == 100 || n_eval == 10000 || n_eval == 1000000) { line ("SAMPLE", ""); nsample++; }
	} else if (r == 2) { n_skip++; if (live > before) give_back (); }
}

int main (int argc, char **argv)
{
	int i; struct itimerval it; const char *replay = NULL;
	for (i = 1; i < argc; i++) {
		if (!strcmp (argv[i], "--thorough")) mc_thorough = 1;
		else if (!strcmp (argv[i], "--shard") && i + 2 < argc) { shard_i = atoi (argv[i + 1]); shard_n = atoi (argv[i + 2]); i += 2; }
		else if (!strcmp (argv[i], "--out") && i + 1 < argc) { outfd = open (argv[++i], O_WRONLY | O_CREAT | O_TRUNC, 0644); if (outfd < 0) { perror ("out"); return 3; } }
		else if (!strcmp (argv[i], "--states") && i + 1 < argc) snprintf (statefile, sizeof statefile, "%s", argv[++i]);
		else if (!strcmp (argv[i], "--scratch") && i + 1 < argc) mc_scratch = argv[++i];
		else if (!strcmp (argv[i], "--replay") && i + 1 < argc) { replay = argv[++i]; mc_replaying = 1; }
		else if (!strcmp (argv[i], "--maxfail") && i + 1 < argc) maxfail = atoi (argv[++i]);
		else if (!strcmp (argv[i], "--upto") && i + 1 < argc) stop_at = strtoull (argv[++i], NULL, 10);
		else { fprintf (stderr, "bad argument %s\n", argv[i]); return 3; }
	}
	setvbuf (stdout, malloc (1 << 16), _IOFBF, 1 << 16);
	signal (SIGPIPE, SIG_IGN);
	S = mmap (NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) return 3;
	{ pid_t c = fork (); int st;
	  if (c < 0) return 3;
	  if (c > 0) {
		while (waitpid (c, &st, 0) < 0 && errno == EINTR);
		if (WIFEXITED (st) && (S->finished || WEXITSTATUS (st) == 3)) _exit (WEXITSTATUS (st));
		if (!S->recorded) { char b[128]; if (WIFSIGNALED (st)) snprintf (b, sizeof b, "process killed by signal %d", WTERMSIG (st)); else snprintf (b, sizeof b, "process ended with status %d", WEXITSTATUS (st)); line ("CRASH", b); }
		_exit (98);
	  }
	  prctl (PR_SET_PDEATHSIG, SIGKILL); }
	__sanitizer_set_death_callback (on_death);
	signal (SIGABRT, on_sig);
	signal (SIGVTALRM, on_tick); signal (SIGALRM, on_alarm);
	it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
	setitimer (ITIMER_VIRTUAL, &it, NULL);
	it.it_interval.tv_sec = 30; it.it_value = it.it_interval;
	setitimer (ITIMER_REAL, &it, NULL);
	mc_init ();
	__sanitizer_install_malloc_and_free_hooks (hk_m, hk_f);
	if (replay) {
		const char *p = replay; nch = 0;
		while (*p) { char *e; long v = strtol (p, &e, 10); if (e == p) break; ch[nch++] = (int) v; p = *e == '.' ? e + 1 : e; }
		run_one ();
		line ("CASE", "replayed");
		fflush (stdout);
		S->finished = 1; _exit (n_fail ? 1 : 0);
	}
	nch = 0;
	for (;;) {
		run_one ();
		if (n_fail >= (uint64_t) maxfail) { outw ("CAPPED\n", 7); break; }
		if (stop_at && ordinal >= stop_at) break;
		/* advance the odometer */
		nch = pos;
		while (nch > 0 && ch[nch - 1] + 1 >= ar[nch - 1]) nch--;
		if (nch == 0) break;
		ch[nch - 1]++;
	}
	{
		char b[512]; int l;
		if (statefile[0]) { int fd = open (statefile, O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t k; static uint64_t buf[8192]; size_t n = 0;
			for (k = 0; k < setcap; k++) if (set[k]) { buf[n++] = set[k]; if (n == 8192) { if (write (fd, buf, n * 8)) {} n = 0; } }
			if (n && write (fd, buf, n * 8)) {}
			close (fd); }
		for (i = 0; i < noc; i++) { l = snprintf (b, sizeof b, "OUTCOME\t%s\t%llu\n", oc[i].l, (unsigned long long) oc[i].n); outw (b, l); }
		l = snprintf (b, sizeof b, "END\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long) n_eval, (unsigned long long) n_nontriv,
			(unsigned long long) n_trans, (unsigned long long) setn, (unsigned long long) n_fail, (unsigned long long) n_skip);
		outw (b, l);
	}
	fflush (stdout);
	S->finished = 1; _exit (n_fail ? 1 : 0);
}
