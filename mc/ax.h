/* Reference (model) trees and observation helpers; only the library's public API is used. */
#ifndef AX_H
#define AX_H
#include "mc.h"
#include <axl.h>

/* arena memory: invisible to the heap-balance check, released at the start of every case */
void *ax_alloc (size_t n);
/* a proper error: text and a code other than 0 */
static inline int ax_err (axlError *e) { return e && !axl_error_was_ok (e) && axl_error_get (e) && *axl_error_get (e) && axl_error_get_code (e); }
char *ax_dup (const char *s);
char *ax_dupn (const char *s, int n);
char *ax_fmt (const char *f, ...) __attribute__((format(printf,1,2)));
char *ax_rep (char c, int n);               /* n times c */
void  ax_reset (void);

/* string builder */
typedef struct { char *p; int n, cap; } SB;
void sb_add (SB *b, const char *s);
void sb_addn (SB *b, const char *s, int n);
void sb_c (SB *b, char c);
void sb_f (SB *b, const char *f, ...) __attribute__((format(printf,2,3)));
char *sb_str (SB *b);

enum { R_ELEM, R_TEXT, R_CDATA, R_COMMENT, R_PI };
typedef struct RA { char *k, *v; struct RA *next; } RA;
typedef struct RN {
	int kind;
	char *name;              /* element name or PI target */
	char *text;              /* text, CDATA, comment, or PI content (NULL: none) */
	RA *attrs;               /* in insertion order */
	struct RN *first, *last, *next, *prev, *parent;
	int nd;                  /* owning document not judged */
	axlNode *impl;           /* bound implementation node, when an explorer wants it */
} RN;

RN  *rn_new (int kind, const char *name, const char *text);
RN  *rn_elem (const char *name);
void rn_add (RN *parent, RN *c);            /* append */
void rn_after (RN *ref, RN *c);
void rn_unlink (RN *c);
RN  *rn_copy (RN *n, int attrs, int childs);
RA  *rn_attr (RN *n, const char *k);
void rn_set (RN *n, const char *k, const char *v);
void rn_unset (RN *n, const char *k);
int  rn_nattrs (RN *n);
int  rn_nelems (RN *n);
RN  *rn_elem_next (RN *n); RN *rn_elem_prev (RN *n); RN *rn_first_elem (RN *n); RN *rn_last_elem (RN *n);
int  rn_equal (RN *a, RN *b);
uint64_t rn_hash (RN *n);
void rn_show (SB *b, RN *n);                /* XML-ish rendering of the model */
char *rn_str (RN *n);

/* compare an implementation subtree with a model through every view the API offers */
#define AXF_NODOC   1      /* do not check the owning document */
#define AXF_TRIM    2      /* comments compared up to surrounding blanks */
#define AXF_BIND    4      /* record implementation pointers in ->impl */
void ax_check (axlNode *node, RN *m, axlDoc *doc, int flags, const char *ctx);
RN  *ax_model (axlNode *node);              /* read an implementation tree back through items */

/* parse helpers: check that result and error agree */
axlDoc *ax_parse_full (const char *t, int n, axlError **err);
axlDoc *ax_parse_ok (const char *t, int n, const char *ctx);
char *ax_dump (axlDoc *doc, int *n);        /* arena copy of the flat dump */
char *ax_dump_node (axlNode *node, int *n);
void ax_write_file (const char *path, const char *t, int n);
char *ax_read_file (const char *path, int *n);
#endif
