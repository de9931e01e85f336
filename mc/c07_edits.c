/* C07: all short sequences of tree edits, on parsed and API-built trees, against a plain ordered tree. */
#include "ax.h"
const char *mc_name = "c07_edits";
void mc_init (void) { axl_init (); }

static axlDoc *doc, *doc2; static RN *root, *root2, *det[8]; static int ndet, seqno, depth_all; static SB D;

static void nd (RN *n, int v) { RN *c; n->nd = v; for (c = n->first; c; c = c->next) nd (c, v); }
static axlItem *item_of (RN *c)
{
	axlItem *it; RN *k; if (c->kind == R_ELEM) return axl_item_node_holder (c->impl);
	it = axl_item_get_first_child (c->parent->impl); for (k = c->parent->first; k != c; k = k->next) { MC_CHECK (it, "item missing"); it = axl_item_get_next (it); } MC_CHECK (it, "item missing"); return it;
}
static void bind (axlNode *n, RN *m)     /* follow the model down a fresh copy */
{
	axlItem *it = axl_item_get_first_child (n); RN *c; m->impl = n;
	for (c = m->first; c; c = c->next) { MC_CHECK (it, "item missing after the operation"); if (c->kind == R_ELEM) { MC_CHECK (axl_item_get_type (it) == ITEM_NODE, "item of another type after the operation"); bind (axl_item_get_data (it), c); } it = axl_item_get_next (it); }
}
/* candidates */
static RN *E[64], *I[64]; static int ne, ni;
static void collect (RN *n) { RN *c; E[ne++] = n; for (c = n->first; c; c = c->next) { I[ni++] = c; if (c->kind == R_ELEM) collect (c); } }
static void cands (void) { int i; ne = ni = 0; if (root) collect (root); if (root2) collect (root2); for (i = 0; i < ndet; i++) collect (det[i]); }
static int inside (RN *n, RN *a) { for (; n; n = n->parent) if (n == a) return 1; return 0; }
/* a second document may receive nodes of the first one, never the other way round */
static int inB (RN *n) { return root2 && inside (n, root2); }
static char *lbl (RN *n) { return n->kind == R_ELEM ? n->name : n->kind == R_TEXT ? "text" : n->kind == R_CDATA ? "cdata" : n->kind == R_COMMENT ? "comment" : "pi"; }

static RN *mkelem (void) { char *n = ax_fmt ("n%d", ++seqno); RN *m = rn_elem (n); m->impl = axl_node_create (n); return m; }
static RN *mkdeep (void) { RN *m = mkelem (), *k = mkelem (); rn_add (m, k); axl_node_set_child (m->impl, k->impl); axl_node_set_content (k->impl, "in", -1); rn_add (k, rn_new (R_TEXT, NULL, "in")); axl_node_set_attribute (m->impl, "k", "v"); rn_set (m, "k", "v"); nd (m, 1); return m; }
static void attach (RN *p, RN *c) { rn_add (p, c); c->nd = p->nd; }
static RN *pickE (int skiproot) { int k, n = 0, i; RN *v[64]; for (i = 0; i < ne; i++) if (!(skiproot && !E[i]->parent)) v[n++] = E[i]; if (!n) mc_skip (); k = mc_choose (n); return v[k]; }
static RN *pickI (void) { if (!ni) mc_skip (); return I[mc_choose (ni)]; }
static RN *pickD (void) { if (!ndet) mc_skip (); return det[mc_choose (ndet)]; }
static void undet (RN *d) { int i, j; for (i = j = 0; i < ndet; i++) if (det[i] != d) det[j++] = det[i]; ndet = j; }
static void replace_model (RN *o, RN *n) { rn_after (o, n); n->nd = o->nd; rn_unlink (o); }

#define NOPS 27
static void op (int o)
{
	RN *x, *y, *z, *c; int k; cands (); mc_trans (1);
	switch (o) {
	case 0: x = pickE (0); c = mkelem (); sb_f (&D, " set_child(%s,new)", x->name); axl_node_set_child (x->impl, c->impl); attach (x, c); break;
	case 1: x = pickE (0); sb_f (&D, " set_content(%s)", x->name); axl_node_set_content (x->impl, "t", 1); attach (x, rn_new (R_TEXT, NULL, "t")); break;
	case 2: x = pickE (0); sb_f (&D, " set_cdata(%s)", x->name); axl_node_set_cdata_content (x->impl, "cd", -1); attach (x, rn_new (R_CDATA, NULL, "cd")); break;
	case 3: x = pickE (0); sb_f (&D, " set_comment(%s)", x->name); axl_node_set_comment (x->impl, "cc", -1); attach (x, rn_new (R_COMMENT, NULL, "cc")); break;
	case 4: x = pickE (0); sb_f (&D, " add_pi(%s)", x->name); axl_node_add_pi_target (x->impl, "pt", "pc"); attach (x, rn_new (R_PI, "pt", "pc")); break;
	case 5: y = pickE (1); c = mkelem (); sb_f (&D, " set_child_after(%s,new)", y->name); axl_node_set_child_after (y->impl, c->impl); rn_after (y, c); c->nd = y->parent->nd; break;
	case 6: y = pickE (0); if (y == root2) mc_skip (); sb_f (&D, " remove(%s,dealloc)", y->name); axl_node_remove (y->impl, axl_true); if (y == root) root = NULL; else if (!y->parent) undet (y); else rn_unlink (y); break;
	case 7: case 8: y = pickE (0); if (inB (y)) mc_skip (); if (!y->parent && y != root) mc_skip (); if (ndet >= 3) mc_skip (); sb_f (&D, " %s(%s)", o == 7 ? "deattach" : "item_remove", y->name);
		if (o == 7) { if (mc_choose (2)) axl_node_deattach (y->impl); else axl_node_remove (y->impl, axl_false); } else { if (y == root) mc_skip (); axl_item_remove (axl_item_node_holder (y->impl), axl_false); }
		if (y == root) root = NULL; else rn_unlink (y); nd (y, 1); det[ndet++] = y; break;
	case 9: y = pickD (); x = pickE (0); if (inside (x, y)) mc_skip (); sb_f (&D, " set_child(%s,detached %s)", x->name, y->name); axl_node_set_child (x->impl, y->impl); undet (y); attach (x, y); break;
	case 10: y = pickD (); x = pickE (1); if (inside (x, y)) mc_skip (); sb_f (&D, " set_child_after(%s,detached %s)", x->name, y->name); axl_node_set_child_after (x->impl, y->impl); undet (y); rn_after (x, y); y->nd = x->parent->nd; break;
	case 11: y = pickE (1); k = mc_choose (2); if (!k && inB (y)) mc_skip (); c = mc_choose (2) ? mkdeep () : mkelem (); sb_f (&D, " replace(%s,new,%d)", y->name, k); if (!k && ndet >= 3) mc_skip (); axl_node_replace (y->impl, c->impl, k); replace_model (y, c); if (!k) { nd (y, 1); det[ndet++] = y; } break;
	case 12: y = pickE (1); x = pickD (); if (inside (y, x)) mc_skip (); sb_f (&D, " replace(%s,detached %s)", y->name, x->name); axl_node_replace (y->impl, x->impl, axl_true); undet (x); replace_model (y, x); break;
	case 13: if (!root) mc_skip (); c = mkdeep (); k = mc_choose (2); sb_f (&D, " replace(root,new,%d)", k); if (!k && ndet >= 3) mc_skip (); axl_node_replace (root->impl, c->impl, k); if (!k) { nd (root, 1); det[ndet++] = root; } root = c; root->nd = 0; break;
	case 14: x = pickE (0); z = pickE (0); if (inside (z, x) || (inB (x) && !inB (z))) mc_skip (); sb_f (&D, " transfer_childs(%s,%s)", x->name, z->name); axl_node_transfer_childs (x->impl, z->impl); while ((c = x->first)) { rn_unlink (c); rn_add (z, c); if (z->nd || x->nd || inB (z) != inB (x)) nd (c, 1); } break;
	case 15: x = pickE (0); y = pickI (); if (inside (y, x) || (inB (x) && !inB (y))) mc_skip (); sb_f (&D, " transfer_childs_after(%s,%s)", x->name, lbl (y)); axl_item_transfer_childs_after (x->impl, item_of (y)); while ((c = x->last)) { rn_unlink (c); rn_after (y, c); if (y->nd || x->nd || inB (y) != inB (x)) nd (c, 1); } break;
	case 16: x = pickE (0); sb_f (&D, " set_is_empty(%s)", x->name); axl_node_set_is_empty (x->impl, axl_true); for (c = x->first; c; c = z) { z = c->next; if (c->kind == R_TEXT || c->kind == R_CDATA) rn_unlink (c); } break;
	case 17: x = pickE (0); k = mc_choose (2); sb_f (&D, " set_name%s(%s)", k ? "_ref" : "", x->name); x->name = ax_fmt ("m%d", ++seqno); if (k) axl_node_set_name_ref (x->impl, axl_strdup (x->name)); else axl_node_set_name (x->impl, x->name); break;
	case 18: x = pickE (0); z = pickE (0); k = mc_choose (4); sb_f (&D, " set_child(%s,copy(%s,%d,%d))", z->name, x->name, k & 1, k >> 1); c = rn_copy (x, k & 1, k >> 1); nd (c, 1); bind (axl_node_copy (x->impl, k & 1, k >> 1), c); axl_node_set_child (z->impl, c->impl); attach (z, c); break;
	case 19: y = pickI (); sb_f (&D, " item_remove(%s,dealloc)", lbl (y)); axl_item_remove (item_of (y), axl_true); rn_unlink (y); break;
	case 20: { axlItem *it; y = pickI (); if (y->kind == R_ELEM) mc_skip (); sb_f (&D, " item_remove(%s)+free", lbl (y)); it = item_of (y); axl_item_remove (it, axl_false); rn_unlink (y); axl_item_free (it, axl_true); break; }
	case 21: case 22: { axlItem *n; int del = 1; y = pickI (); k = mc_choose (6);
		if (o == 22) { del = 0; if (y->kind == R_ELEM) mc_skip (); }
		if (k == 0) { c = rn_new (R_TEXT, NULL, "rep"); n = axl_item_new (ITEM_CONTENT, "rep"); } else if (k == 1) { c = rn_new (R_CDATA, NULL, "rc"); n = axl_item_new_ref (ITEM_CDATA, axl_strdup ("rc")); } else if (k == 2) { c = rn_new (R_COMMENT, NULL, "rm"); n = axl_item_new (ITEM_COMMENT, "rm"); }
		else if (k == 3) { c = rn_new (R_PI, "rp", "q"); n = axl_item_new_ref (ITEM_PI, axl_pi_create ("rp", "q")); } else if (k == 4) { RN *t = mkdeep (); n = axl_item_new (ITEM_NODE, t->impl); c = rn_copy (t, 1, 1); nd (c, 1); bind (axl_item_get_data (n), c); axl_node_free (t->impl); } else { c = mkdeep (); n = axl_item_new_ref (ITEM_NODE, c->impl); }
		sb_f (&D, " item_replace(%s,%s)", lbl (y), lbl (c)); { axlItem *old = item_of (y); axl_item_replace (old, n, del); if (!del) axl_item_free (old, axl_true); } replace_model (y, c); break; }
	case 23: { axlItem *n; y = pickI (); x = pickE (0); sb_f (&D, " set_child_ref(%s,item_copy(%s))", x->name, lbl (y)); c = rn_copy (y, 1, 1); nd (c, 1); n = axl_item_copy (item_of (y), x->impl); if (c->kind == R_ELEM) bind (axl_item_get_data (n), c); axl_item_set_child_ref (x->impl, n); rn_add (x, c); break; }
	case 24: y = pickI (); sb_f (&D, " set_after(%s,pi)", lbl (y)); c = rn_new (R_PI, "ap", NULL); axl_item_set_after (item_of (y), ITEM_PI, axl_pi_create ("ap", NULL)); rn_after (y, c); c->nd = y->parent->nd; break;
	case 25: y = pickD (); k = mc_choose (3); if (k == 1 && y->first) mc_skip (); sb_f (&D, " free(detached %s,%d)", y->name, k); if (k == 0) axl_node_free (y->impl); else if (k == 1) axl_node_free_full (y->impl, axl_false); else axl_node_free_full (y->impl, axl_true); undet (y); break;
	case 26: if (root) { y = pickI (); if (y->kind != R_ELEM || !inside (y, root)) mc_skip (); k = mc_choose (2); sb_f (&D, " copy-child-after(%s,%d)", y->name, k); c = rn_copy (y, 1, 1); nd (c, 1); bind (axl_node_copy (y->impl, 1, 1), c); axl_item_set_after (item_of (k ? y : y->parent->first), ITEM_NODE, c->impl); rn_after (k ? y : y->parent->first, c); c->nd = y->parent->nd; }
		else { y = pickD (); sb_f (&D, " set_root(%s)", y->name); axl_doc_set_root (doc, y->impl); undet (y); root = y; y->nd = 0; } break;
	}
	mc_desc ("%s", sb_str (&D)); D.n = 0;
}
static const char *starts[] = {
	"<r/>", "<r>t</r>", "<r><a/></r>", "<r><a>x</a><b/></r>", "<r>t<a/><!--c--><b k='v'>y</b></r>", "<r><a><b><c/></b></a></r>", "<r><!--c--><a/><?p q?></r>", "<r>t<a><![CDATA[d]]><b/>u</a>v</r>", "<r><a/><b/><c/></r>" };
static RN *build (const char *t, axlDoc *d, int mode)   /* model by the parser (C01 decides that), then rebuilt through the API when mode != 0 */
{
	RN *m = ax_model (axl_doc_get_root (d)); (void) t; (void) mode; return m;
}
static void apibuild (RN *m, axlNode *n)
{
	RN *c; RA *a; m->impl = n; for (a = m->attrs; a; a = a->next) axl_node_set_attribute (n, a->k, a->v);
	for (c = m->first; c; c = c->next) switch (c->kind) {
		case R_ELEM: { axlNode *k = axl_node_create (c->name); axl_node_set_child (n, k); apibuild (c, k); break; }
		case R_TEXT: axl_node_set_content (n, c->text, -1); break; case R_CDATA: axl_node_set_cdata_content (n, c->text, -1); break;
		case R_COMMENT: axl_node_set_comment (n, c->text, -1); break; case R_PI: axl_node_add_pi_target (n, c->name, c->text); break; }
}
static void final (void)
{
	int i; uint64_t h = 7;
	if (root2) { MC_CHECK (axl_doc_get_root (doc2) == root2->impl, "root of the second document wrong"); ax_check (root2->impl, root2, doc2, 0, "second tree"); MC_CHECK (!axl_node_get_parent (root2->impl) && axl_node_get_doc (root2->impl) == doc2, "second root links"); }
	if (doc) MC_CHECK (axl_doc_get_root (doc) == (root ? root->impl : NULL), "root of the document wrong");
	if (root) { ax_check (root->impl, root, doc, 0, "tree"); MC_CHECK (!axl_node_get_parent (root->impl), "root has a parent"); if (doc) MC_CHECK (axl_node_get_doc (root->impl) == doc, "document of the root wrong"); h = rn_hash (root); 
		MC_CHECK (!axl_node_get_next (root->impl) && !axl_node_get_previous (root->impl), "root has siblings"); }
	for (i = 0; i < ndet; i++) { ax_check (det[i]->impl, det[i], NULL, AXF_NODOC, "detached"); MC_CHECK (!axl_node_get_parent (det[i]->impl), "a detached node has a parent"); MC_CHECK (!axl_node_get_next (det[i]->impl) && !axl_node_get_previous (det[i]->impl), "a detached node has siblings"); h = h * 31 + rn_hash (det[i]); }
	mc_state (h);
	for (i = 0; i < ndet; i++) axl_node_free (det[i]->impl);
	if (doc2) axl_doc_free (doc2);
	if (doc) axl_doc_free (doc); else if (root) axl_node_free (root->impl);
	mc_nontrivial ();
}
void mc_case (void)
{
	int s, mode, depth, i, part; axlDoc *d; ax_reset (); memset (&D, 0, sizeof D); ndet = seqno = 0; root = root2 = NULL; doc = doc2 = NULL;
	part = mc_choose (3);
	s = part ? (int[]) { 2, 1, 6, 3 } [mc_choose (mc_thorough ? 3 : 2)] : mc_choose (9); mode = mc_choose (part ? 2 : 4);      /* parsed; API with the document first; API, document last; no document */
	depth = part == 1 ? 3 : part == 2 ? (mc_thorough && s == 2 ? 3 : 2) : mc_thorough && s <= 3 && mode < 3 ? 3 : 2;
	sb_f (&D, "[%s %s]", (const char *[]) { "parsed", "api root-first", "api root-last", "no document" } [mode], starts[s]); mc_desc ("%s", sb_str (&D)); D.n = 0;
	i = 0;
	{ int o1 = mc_choose (NOPS + 1); mc_shard ();
	  d = axl_doc_parse (starts[s], -1, NULL); if (!d) mc_fail ("start not parsed"); root = build (starts[s], d, mode);
	  if (mode == 0) { doc = d; bind (axl_doc_get_root (d), root); }
	  else { axl_doc_free (d); root->impl = axl_node_create (root->name);
		if (mode == 1) { doc = axl_doc_create (NULL, NULL, 0); axl_doc_set_root (doc, root->impl); apibuild (root, root->impl); }
		else { apibuild (root, root->impl); nd (root, 1); if (mode == 2) { doc = axl_doc_create (NULL, NULL, 0); axl_doc_set_root (doc, root->impl); root->nd = 0; } } }
	  if (part == 2) { doc2 = ax_parse_ok ("<R><q>z</q></R>", -1, "second"); root2 = ax_model (axl_doc_get_root (doc2)); bind (axl_doc_get_root (doc2), root2); mc_desc ("[second <R><q>z</q></R>]"); }
	  for (; i < depth; i++) { int o = i ? mc_choose (NOPS + 1) : o1; if (!o) break; op (o - 1); } }
	final ();
}
