/* Bounded exhaustive explorer: shared engine.
 *
 * A "case" is one complete choice sequence.  The engine calls mc_case()
 * again and again; every mc_choose(n) takes the next choice of the current
 * sequence, and after each run the sequence is advanced odometer-style until
 * every sequence within the bounds written in mc_case() has been executed
 * exactly once.  Nothing is sampled. */
#ifndef MC_H
#define MC_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

extern int mc_thorough;            /* 0: quick bounds, 1: thorough bounds */
extern int mc_replaying;           /* one recorded case is being replayed */
extern const char *mc_scratch;     /* private scratch directory of this shard */

int  mc_choose (int n);            /* enumerate 0..n-1 */
int  mc_shard (void);              /* abandons the case unless the subtree below this prefix is ours */
void mc_skip (void) __attribute__((noreturn)); /* abandon this case (not counted) */
void mc_fail (const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
void mc_desc (const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_state (uint64_t h);        /* a (model or observed) state was visited */
void mc_trans (int n);             /* n transitions (operations on the real code) executed */
void mc_nontrivial (void);         /* this case exercised the property non-trivially */
void mc_outcome (const char *label); /* counted per label */
long mc_live (void);               /* live heap blocks (library + harness) */
void mc_alloc_check (int on);      /* leak check of the current case on/off (default on) */
uint64_t mc_hash (const void *p, size_t n, uint64_t seed);

#define MC_CHECK(c, ...) do { if (!(c)) mc_fail (__VA_ARGS__); } while (0)

/* provided by each explorer */
extern const char *mc_name;
void mc_init (void);
void mc_case (void);

/* "printable" rendering of bytes for messages (static ring of buffers) */
const char *mc_q (const char *s, int n);
#define Q(s) mc_q ((s), -1)
#endif
