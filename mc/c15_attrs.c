/* C15: attribute-list declarations x attribute assignments, arrangements of IDs and references, entities, and the parsed structure of declarations. */
#include "ax.h"
const char *mc_name = "c15_attrs";
void mc_init (void) { axl_init (); }

enum { CDATA, ENUM1, ENUM2, ID, IDREF, IDREFS, NMTOKEN, NMTOKENS, ENTITY, ENTITIES, NTYPES };
static const char *TY[] = { "CDATA", "(a|b)", "( ab | a | long-value )", "ID", "IDREF", "IDREFS", "NMTOKEN", "NMTOKENS", "ENTITY", "ENTITIES" };
enum { REQ, IMP, FIX, DEF };
typedef struct { const char *el, *name, *dv; int type, def; } D;
static D decls[64]; static int nd;
static D *decl_of (const char *el, const char *name) { int i; for (i = 0; i < nd; i++) if (!strcmp (decls[i].el, el) && !strcmp (decls[i].name, name)) return decls + i; return NULL; }
static int in_enum (D *d, const char *v) { if (d->type == ENUM1) return !strcmp (v, "a") || !strcmp (v, "b"); if (d->type == ENUM2) return !strcmp (v, "a") || !strcmp (v, "ab") || !strcmp (v, "long-value"); return 1; }
/* the judgement of the model; ids and references of the whole tree */
static const char *ids[64], *refs[64]; static int nids, nrefs; static char *why;
static int elem_ok (RN *m)
{
	int i, declared = 0; RA *a; RN *c;
	for (i = 0; i < nd; i++) if (!strcmp (decls[i].el, m->name)) declared = 1;
	if (declared) {
		for (a = m->attrs; a; a = a->next) { D *d = decl_of (m->name, a->k); if (!d) { why = "undeclared attribute"; return 0; } if (!in_enum (d, a->v)) { why = "value outside the enumeration"; return 0; }
			if (d->type == ID) { for (i = 0; i < nids; i++) if (!strcmp (ids[i], a->v)) { why = "ID used twice"; return 0; } ids[nids++] = a->v; }
			if (d->type == IDREF) refs[nrefs++] = a->v; if (d->type == IDREFS) { char *q; for (q = strtok (ax_dup (a->v), " \n\t"); q; q = strtok (NULL, " \n\t")) refs[nrefs++] = q; } }
		for (i = 0; i < nd; i++) if (!strcmp (decls[i].el, m->name)) { a = rn_attr (m, decls[i].name); if (decls[i].def == REQ && !a) { why = "required attribute missing"; return 0; } if (decls[i].def == FIX && (!a || strcmp (a->v, decls[i].dv))) { why = "fixed value not there"; return 0; } }
	}
	for (c = rn_first_elem (m); c; c = rn_elem_next (c)) if (!elem_ok (c)) return 0;
	return 1;
}
static int model_ok (RN *m) { int i, j; nids = nrefs = 0; why = "valid"; if (!elem_ok (m)) return 0; for (i = 0; i < nrefs; i++) { for (j = 0; j < nids && strcmp (ids[j], refs[i]); j++); if (j == nids) { why = "dangling reference"; return 0; } } return 1; }
static axlDtd *parse (const char *t) { axlError *err = NULL; axlDtd *d = axl_dtd_parse (t, -1, &err); mc_trans (1); if (!d) mc_fail ("declarations rejected: %s: %s", Q (t), err ? axl_error_get (err) : "no error"); MC_CHECK (!err, "accepted declarations with an error"); return d; }
static void judge (axlDoc *doc, axlDtd *dtd, RN *m, const char *t)
{
	int k, ok = model_ok (m); axlError *err = NULL; axl_bool r; mc_trans (3);
	for (k = 0; k < 2; k++) { r = axl_dtd_validate (doc, dtd, &err); MC_CHECK (!r == !ok, "validation says %d, expected %d (%s): %s against %s: %s", r, ok, why, Q (rn_str (m)), Q (t), err ? axl_error_get (err) : ""); MC_CHECK (!r == !!err, "verdict %d with%s error", r, err ? "" : "out"); if (err) { MC_CHECK (ax_err (err), "empty message or code 0"); axl_error_free (err); err = NULL; } }
	r = axl_dtd_validate (doc, dtd, NULL); MC_CHECK (!r == !ok, "without an error reference the verdict is %d", r);
	ax_check (axl_doc_get_root (doc), m, doc, AXF_NODOC, "document after validation"); mc_outcome (why);
}
static RN *model_doc (const char *t, axlDoc **d) { RN *m; *d = ax_parse_ok (t, -1, "document"); m = ax_model (axl_doc_get_root (*d)); return m; }
/* white space used between the parts of a declaration */
static const char *SPC[] = { " ", "\n", "\t", "\r\n  ", "   " };
static void decl_text (SB *b, int from, int to, int sp, int ent)
{
	int i; const char *s = SPC[sp]; if (ent) for (i = from; i < to; i++) sb_f (b, "<!ENTITY %% t%d \"%s%s\">%s", i, TY[decls[i].type], decls[i].def == REQ ? " #REQUIRED" : decls[i].def == IMP ? " #IMPLIED" : ax_fmt (" %s'%s'", decls[i].def == FIX ? "#FIXED " : "", decls[i].dv), s);
	sb_f (b, "<!ATTLIST%s%s", s, decls[from].el);
	for (i = from; i < to; i++) { sb_f (b, "%s%s%s", s, decls[i].name, s); if (ent) { sb_f (b, "%%t%d;", i); continue; } sb_f (b, "%s%s", TY[decls[i].type], s); switch (decls[i].def) { case REQ: sb_add (b, "#REQUIRED"); break; case IMP: sb_add (b, "#IMPLIED"); break; case FIX: sb_f (b, "#FIXED%s\"%s\"", s, decls[i].dv); break; case DEF: sb_f (b, i % 2 ? "'%s'" : "\"%s\"", decls[i].dv); } }
	sb_f (b, "%s>\n", s);
}
static D mk (const char *el, const char *name, int type, int def, const char *dv) { D d = { el, name, dv, type, def }; return d; }

/* ---- content model structure read back through the item lists ---- */
static void rep (SB *b, AxlDtdTimes t) { switch (t) { case ONE_AND_ONLY_ONE: break; case ZERO_OR_ONE: sb_c (b, '?'); break; case ZERO_OR_MANY: sb_c (b, '*'); break; case ONE_OR_MANY: sb_c (b, '+'); break; default: sb_f (b, "<times %d>", t); } }
static void show_list (SB *b, axlDtdElementList *l)
{
	int i, n = axl_dtd_item_list_count (l); sb_c (b, '(');
	for (i = 0; i < n; i++) { axlDtdElementListNode *k = axl_dtd_item_list_get_node (l, i); if (i) sb_c (b, axl_dtd_item_list_type (l) == SEQUENCE ? ',' : axl_dtd_item_list_type (l) == CHOICE ? '|' : '?'); MC_CHECK (k, "item %d of %d missing", i, n);
		if (axl_dtd_item_node_get_type (k) == AXL_ELEMENT_NODE) { sb_add (b, axl_dtd_item_node_get_value (k)); rep (b, axl_dtd_item_node_get_repeat (k)); MC_CHECK (axl_dtd_item_node_get_list (k) == NULL, "a list on a name"); }
		else { MC_CHECK (axl_dtd_item_node_get_type (k) == AXL_ELEMENT_LIST, "item type"); MC_CHECK (axl_dtd_item_node_get_repeat (k) == axl_dtd_item_list_repeat (axl_dtd_item_node_get_list (k)), "two repetitions"); show_list (b, axl_dtd_item_node_get_list (k)); } }
	MC_CHECK (axl_dtd_item_list_get_node (l, n) == NULL, "an item after the last"); sb_c (b, ')'); rep (b, axl_dtd_item_list_repeat (l));
}
static int reps_left; static char rp (void) { int r; if (!reps_left) return 0; r = mc_choose (4); if (r) reps_left--; return "\0?*+"[r]; }
static void gen_group (SB *b, SB *sp, int n, int depth, int style)   /* canonical text and a spaced variant */
{
	int k = 0, cho = n > 1 && mc_choose (2), left = n; char r; const char *s = style == 1 ? " " : style == 2 ? "\n\t" : ""; sb_c (b, '('); sb_c (sp, '('); sb_add (sp, s);
	while (left) { int nest = depth && n > 1 ? mc_choose (left > n - 1 ? n : left + 1) : 0; if (k++) { sb_c (b, cho ? '|' : ','); sb_f (sp, "%s%c%s", s, cho ? '|' : ',', s); }
		if (!nest) { const char *nm = (const char *[]) { "a", "bb", "c-c", "d_d" } [(n + left) % 4]; r = rp (); sb_add (b, nm); sb_add (sp, nm); if (r) { sb_c (b, r); sb_c (sp, r); } left--; } else { gen_group (b, sp, nest, depth - 1, style); left -= nest; } }
	if (cho && k == 1) mc_skip ();
	r = rp (); sb_c (b, ')'); sb_f (sp, "%s)", s); if (r) { sb_c (b, r); sb_c (sp, r); }
}
static const char *V[] = { NULL, "a", "b", "ab", "v", "", "A", "long-value", "a " };

/* ---- content that is wrong (text among child elements is not judged) where identities are declared: the verdict counts both, nothing is left behind ---- */
static void mixed_case (void)
{
	static const char *KIND[] = { "EMPTY", "(#PCDATA)", "(y)", "(#PCDATA|y)*", "(y|z)", "(y?)" }, *CONT[] = { "", "t", "<y/>", "<z/>", "t<y/>", "<y/><y/>", "<q/>" },
	  *AT[] = { "", " i='1'", " i='1' f='1'", " f='2'", " u='1'", " i='1' fs='1 1'", " i='1' fs='1 2'" };
	static const char ok[6][7] = { { 1,0,0,0,0,0,0 }, { 1,1,0,0,0,0,0 }, { 0,0,1,0,1,0,0 }, { 1,1,1,0,1,1,0 }, { 0,0,1,1,1,0,0 }, { 1,1,1,0,1,0,0 } }, aok[] = { 1,1,1,0,0,1,0 };
	int k = mc_choose (6), c = mc_choose (7), a = mc_choose (7), where = mc_choose (3), decl = mc_choose (4), x, j; SB b = {0}, d = {0}; axlDtd *t; axlDoc *doc; axlError *e = NULL; axl_bool r; mc_shard ();
	if (k == 1 && c == 0) mc_skip ();        /* text-only element without text: content validation is C14's */
	if (where) sb_f (&b, "<!ELEMENT r (%s)>", where == 1 ? "x" : "y?,x,y?"); sb_f (&b, "<!ELEMENT x %s><!ELEMENT y EMPTY><!ELEMENT z EMPTY>", KIND[k]);
	if (decl == 0) sb_add (&b, "<!ATTLIST x i ID #IMPLIED f IDREF #IMPLIED fs IDREFS #IMPLIED>"); else if (decl == 1) sb_add (&b, "<!ATTLIST x i ID #IMPLIED f CDATA #IMPLIED fs CDATA #IMPLIED>"); else if (decl == 2) sb_add (&b, "<!ATTLIST x i CDATA #IMPLIED f IDREF #IMPLIED fs IDREFS #IMPLIED><!ATTLIST y k ID #IMPLIED>");
	x = ok[k][c] && (decl == 3 || (decl == 0 ? aok[a] : decl == 1 ? a != 4 : a < 2));
	sb_f (&d, "%s<x%s>%s</x>%s", where == 0 ? "" : where == 1 ? "<r>" : "<r><y/>", AT[a], CONT[c], where == 0 ? "" : where == 1 ? "</r>" : "<y/></r>"); mc_desc ("%s against %s", Q (sb_str (&d)), Q (sb_str (&b)));
	t = parse (sb_str (&b)); doc = ax_parse_ok (sb_str (&d), -1, "document");
	for (j = 0; j < 2; j++) { r = axl_dtd_validate (doc, t, &e); mc_trans (1); MC_CHECK (!r == !x, "validation says %d, expected %d: %s", r, x, e ? axl_error_get (e) : ""); MC_CHECK (!r == !!e, "verdict %d with%s error", r, e ? "" : "out"); if (e) { MC_CHECK (ax_err (e), "empty message or code 0"); axl_error_free (e); e = NULL; } }
	axl_doc_free (doc); axl_dtd_free (t); mc_state (mc_hash (d.p, d.n, decl * 8 + k)); mc_outcome (x ? "valid" : "content and identities"); mc_nontrivial ();
}
/* ---- comparing definitions ---- */
typedef struct { const char *t; int cls; } P_;        /* declaration (a blank may be any white space), class: same class and different text: no verdict asked */
static const P_ EL[] = { { "r EMPTY", 0 }, { "r ANY", 1 }, { "r (#PCDATA)", 2 }, { "r (#PCDATA|a)*", 3 }, { "r (#PCDATA|b)*", 4 }, { "r (#PCDATA|a|b)*", 5 }, { "r (a)", 6 }, { "r (a?)", 7 }, { "r (a*)", 8 }, { "r (a+)", 9 }, { "r (a)?", 7 }, { "r (a)*", 8 }, { "r (a)+", 9 }, { "r (a,b)", 10 }, { "r (a|b)", 11 }, { "r (b,a)", 12 },
  { "r (a,b?)", 13 }, { "r (a,b*)", 14 }, { "r ((a,b)|c)", 15 }, { "r ((a|b),c)", 16 }, { "r (a,(b,c))", 17 }, { "r (a,(b|c))", 18 }, { "r (a,b,c)", 17 }, { "r (a,b)+", 19 }, { "r (a,b)*", 20 }, { "r (a,(b|c)?)", 21 }, { "r (a,(b|c)*)", 22 }, { "r (a,(b|d))", 23 }, { "r ((a|b)*,c)", 24 }, { "s EMPTY", 25 }, { "rr (a)", 26 }, { "r (a,(b,(c|d)))", 27 }, { "r (a,(b,(c|e)))", 28 }, { "r (a,(b,(c|d)+))", 29 }, { "r (c)", 30 }, { "r (aa)", 31 } };
static const P_ AL[] = { { "", 0 }, { "r x CDATA #REQUIRED", 1 }, { "r x CDATA #IMPLIED", 2 }, { "r x CDATA 'v'", 3 }, { "r x CDATA 'w'", 4 }, { "r x CDATA #FIXED 'v'", 5 }, { "r x CDATA #FIXED 'w'", 6 }, { "r x ID #REQUIRED", 7 }, { "r x ID #IMPLIED", 8 }, { "r x IDREF #IMPLIED", 9 }, { "r x IDREFS #IMPLIED", 10 }, { "r x NMTOKEN #IMPLIED", 11 }, { "r x NMTOKENS #IMPLIED", 12 }, { "r x ENTITY #IMPLIED", 13 }, { "r x ENTITIES #IMPLIED", 14 },
  { "r x (a|b) #REQUIRED", 15 }, { "r x (a|c) #REQUIRED", 16 }, { "r x (a|b|c) #REQUIRED", 17 }, { "r x (a|b) 'a'", 18 }, { "r x (a|b) 'b'", 19 }, { "r x (a) #REQUIRED", 20 }, { "r y CDATA #IMPLIED", 21 }, { "s x CDATA #IMPLIED", 22 }, { "r x CDATA #IMPLIED y CDATA #IMPLIED", 23 }, { "r x CDATA #IMPLIED y CDATA #REQUIRED", 24 }, { "r x CDATA #IMPLIED z CDATA #IMPLIED", 25 }, { "r x CDATA 'vv'", 26 }, { "r x CDATA ''", 27 }, { "r x (b|a) #REQUIRED", 15 } };
static const P_ EY[] = { { "", 0 }, { "e 'v'", 1 }, { "e 'w'", 2 }, { "f 'v'", 3 }, { "% e 'v'", 4 }, { "e ''", 5 }, { "e 'vv'", 14 }, { "% e 'w'", 15 } };
#define N(x) ((int) (sizeof (x) / sizeof (*x)))
static void put (SB *b, const char *kind, const char *t, int sp)
{
	if (!*t) return; sb_f (b, "<!%s%s", kind, SPC[sp]); for (; *t; t++) { if (*t == ' ') sb_add (b, SPC[sp]); else if (*t == '\'' && sp & 1) sb_c (b, '"'); else if (strchr ("(|,)", *t) && sp > 1 && !(t[0] == ')' && t[1]) && t[1] != '#') { if (*t != '(') sb_c (b, ' '); sb_c (b, *t); if (*t != ')') sb_c (b, '\n'); } else sb_c (b, *t); } sb_f (b, "%s>%s", sp > 2 ? SPC[sp] : "", sp ? "\n" : "");
}
static void equal_case (void)
{
	int mode = mc_choose (4), i[2][3] = { { 0 } }, k, sp = mc_choose (3), base = 0, want, none; SB b[2] = { {0}, {0} }; axlDtd *t[2]; axl_bool r, r2, r3;
	if (mode < 3) {      /* one kind of declaration in all pairs, the others the same on both sides */
		int n = mode == 0 ? N (EL) : mode == 1 ? N (AL) : N (EY); base = mc_choose (4); i[0][mode] = mc_choose (n); mc_shard (); i[1][mode] = mc_choose (n);
		for (k = 0; k < 2; k++) { if (mode != 0) i[k][0] = base & 1 ? 13 : 0; if (mode != 1) i[k][1] = base & 2 ? 23 : 0; if (mode != 2) i[k][2] = base ? 1 : 0; }
		want = i[0][mode] == i[1][mode]; none = !want && (mode == 0 ? EL[i[0][0]].cls == EL[i[1][0]].cls : mode == 1 ? AL[i[0][1]].cls == AL[i[1][1]].cls : 0);
		for (k = 0; k < 2; k++) { int s = k ? sp + (sp ? 2 : 0) : 0; if (base & 1) put (b + k, "ELEMENT", "a EMPTY", s); put (b + k, "ENTITY", EY[i[k][2]].t, s); put (b + k, "ELEMENT", EL[i[k][0]].t, s); if (mode == 1) sb_add (b + k, "<!ATTLIST k i ID #IMPLIED>"); if (k && sp == 1) sb_add (b + k, "<!-- c -->"); put (b + k, "ATTLIST", AL[i[k][1]].t, s); if (base & 2) put (b + k, "ENTITY", "last 'v'", s); }
	} else {             /* which declarations are there, in which order */
		static const char *D[][2] = { { "ELEMENT", "a EMPTY" }, { "ELEMENT", "b (a)" }, { "ELEMENT", "c (#PCDATA)" }, { "ATTLIST", "a x CDATA #IMPLIED" }, { "ATTLIST", "b x CDATA #IMPLIED" }, { "ENTITY", "e 'v'" }, { "ENTITY", "f 'v'" }, { "ENTITY", "% e 'v'" } }; int m[2] = { 0 }, n[2], o[2][3], q, j;
		if (sp) mc_skip (); for (q = 0; q < 2; q++) { n[q] = 1 + mc_choose (3); for (k = 0; k < n[q]; k++) { o[q][k] = mc_choose (8); if (m[q] >> o[q][k] & 1) mc_skip (); m[q] |= 1 << o[q][k]; put (b + q, D[o[q][k]][0], D[o[q][k]][1], q); } if (!(m[q] & 7)) mc_skip (); if (!q) mc_shard (); }
		want = m[0] == m[1]; none = 0; if (want) for (k = 0; k < n[0]; k++) for (j = 0; j < n[0]; j++) { int p = -1, s = -1, x; for (x = 0; x < n[1]; x++) { if (o[1][x] == o[0][k]) p = x; if (o[1][x] == o[0][j]) s = x; } if (k < j && p > s && D[o[0][k]][0] == D[o[0][j]][0]) none = 1; }   /* only reordered: not asked */
	}
	mc_desc ("%s == %s", Q (sb_str (b)), Q (sb_str (b + 1))); t[0] = parse (sb_str (b)); t[1] = parse (sb_str (b + 1)); r = axl_dtd_are_equal (t[0], t[1]); r2 = axl_dtd_are_equal (t[1], t[0]); r3 = axl_dtd_are_equal (t[0], t[0]) && axl_dtd_are_equal (t[1], t[1]); mc_trans (4);
	MC_CHECK (r3, "a definition differs from itself"); MC_CHECK (!r == !r2, "the comparison is not symmetric"); if (!none) MC_CHECK (!r == !want, "the comparison says %d, expected %d", r, want);
	axl_dtd_free (t[0]); axl_dtd_free (t[1]); mc_state (mc_hash (b[0].p, b[0].n, 17) * 31 + mc_hash (b[1].p, b[1].n, 19)); mc_outcome (want ? "same definition" : none ? "same rules" : "other definition"); mc_nontrivial ();
}
/* ---- top level elements and the root ---- */
static void top_case (void)
{
	static const char *NM[] = { "a", "ab", "b", "c" }; int n = 1 + mc_choose (mc_thorough ? 4 : 3), i, j, edge[4][4] = { { 0 } }, form[4], top[4], ntop = 0, reach[4][4], cyc = 0; SB b = {0}; axlDtd *t; axlDtdElement *root; const char *rn = NULL;
	for (i = 0; i < n; i++) { int any = 0; for (j = 0; j < n; j++) any |= (edge[i][j] = mc_choose (2)); if (i == 0) mc_shard (); form[i] = any ? mc_choose (n == 4 ? 2 : 5) : n == 4 ? 0 : mc_choose (3); }
	for (i = 0; i < n; i++) { int any = 0; sb_f (&b, "<!ELEMENT %s ", NM[i]); for (j = 0; j < n; j++) any |= edge[i][j];
		if (!any) sb_add (&b, form[i] == 0 ? "EMPTY" : form[i] == 1 ? "(#PCDATA)" : "(zz)"); else { const char *sepr = form[i] == 0 ? "," : "|", *s = ""; sb_add (&b, form[i] == 2 ? "(#PCDATA" : form[i] == 3 ? "(q,(" : form[i] == 4 ? "((q,(z," : "("); if (form[i] == 2) s = "|"; for (j = 0; j < n; j++) if (edge[i][j]) { sb_f (&b, "%s%s%s", s, NM[j], form[i] == 0 && i == j ? "?" : ""); s = form[i] == 4 ? "," : sepr; } sb_add (&b, form[i] == 2 ? ")*" : form[i] == 3 ? "))" : form[i] == 4 ? "))*,w)" : ")"); }
		sb_add (&b, ">"); }
	for (j = 0; j < n; j++) { top[j] = 1; for (i = 0; i < n; i++) if (edge[i][j]) top[j] = 0; ntop += top[j]; }
	memcpy (reach, edge, sizeof (edge)); { int k; for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = 1; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && reach[i][j] && reach[j][i]) cyc = 1; }
	mc_desc ("%s", Q (sb_str (&b))); t = parse (sb_str (&b));
	for (j = 0; j < n; j++) { axlDtdElement *e = axl_dtd_get_element (t, NM[j]); MC_CHECK (e && !strcmp (axl_dtd_get_element_name (e), NM[j]), "element %s not found", NM[j]); MC_CHECK (!axl_dtd_element_is_toplevel (t, e) == !top[j], "%s is %sa top level element", NM[j], top[j] ? "not taken as " : "taken as "); mc_trans (2); }
	root = axl_dtd_get_root (t); MC_CHECK (root, "no root"); rn = axl_dtd_get_element_name (root); for (j = 0; j < n && strcmp (NM[j], rn); j++); MC_CHECK (j < n && axl_dtd_get_element (t, rn) == root, "the root %s is not declared", rn);
	if (!cyc) for (i = 0; i < n; i++) MC_CHECK (i == j || !edge[i][j], "the root is %s, which stands inside %s", rn, NM[i]);
	axl_dtd_free (t); mc_state (mc_hash (b.p, b.n, 23)); mc_outcome (cyc ? "recursive definition" : "top level elements"); mc_nontrivial (); (void) ntop;
}
static void more (int part) { if (part == 5) mixed_case (); else if (part == 6) equal_case (); else top_case (); }

void mc_case (void)
{
	int part, i, k; SB b = { 0 }; axlDtd *dtd; axlDoc *doc; RN *m; ax_reset (); nd = 0; part = mc_choose (8); if (part > 4) { more (part); return; }
	if (part == 0) {                  /* every short attribute list x every assignment */
		int n = 1 + mc_choose (mc_thorough ? 3 : 2), sp, ent, rt, split, hid = 0; static const char *AN[] = { "a", "ab", "c" };
		for (i = 0; i < n; i++) { int t = mc_choose (n == 3 ? 3 : NTYPES), d = mc_choose (4); if (t == ID) { if (hid || d > 1) mc_skip (); hid = 1; } if (t >= ENTITY && (d > 1 || i)) mc_skip (); if ((t == IDREF || t == IDREFS) && d > 1) mc_skip (); decls[nd++] = mk ("r", AN[i], t, d, t == ENUM1 ? "b" : t == ENUM2 ? "ab" : "v"); }
		mc_shard (); for (i = k = 0; i < n; i++) if (decls[i].type == IDREF || decls[i].type == IDREFS) k = 1; if (k && !hid) decls[nd++] = mk ("k", "id", ID, IMP, "");
		rt = mc_choose (n == 3 ? 1 : mc_thorough ? 4 : 2); sp = mc_choose (n == 1 ? 5 : n == 3 ? 1 : 2); ent = mc_choose (sp == 0 ? 2 : 1); split = n > 1 ? mc_choose (2) : 0;
		sb_f (&b, "<!ELEMENT%s%s%s%s>\n", SPC[sp], "r", SPC[sp], (const char *[]) { "(k)", "EMPTY", "(#PCDATA)", "(#PCDATA|k)*" } [rt]); sb_add (&b, "<!ELEMENT k EMPTY>\n");
		if (split) { decl_text (&b, 0, 1, sp, ent); decl_text (&b, 1, n, sp, ent); } else decl_text (&b, 0, n, sp, ent); if (nd > n) decl_text (&b, n, nd, 0, 0);
		dtd = parse (sb_str (&b)); MC_CHECK (axl_dtd_get_attr_contraints (dtd, "r") == n, "%d constraints for r, %d declared", axl_dtd_get_attr_contraints (dtd, "r"), n); MC_CHECK (axl_dtd_get_attr_contraints (dtd, "zz") == 0 && !axl_dtd_get_attr (dtd, "zz") && axl_dtd_get_attr (dtd, "r"), "constraints of an unknown element");
		mc_desc ("%s", Q (sb_str (&b)));
		{ int nv = n == 3 ? 5 : mc_thorough ? 9 : n == 1 ? 9 : 6, tot = 1, c; for (i = 0; i < n; i++) tot *= nv; tot *= 2;
		for (c = 0; c < tot; c++) { int v = c / 2; SB t = { 0 }; char *an; int bad = 0; sb_add (&t, "<r"); if (c & 1) sb_add (&t, " x='1'"); for (i = 0; i < n; i++, v /= nv) if (V[v % nv]) { sb_f (&t, " %s='%s'", AN[n - 1 - i], V[v % nv]); D *d = decl_of ("r", AN[n - 1 - i]); if (d->type >= ID && (!*V[v % nv] || strchr (V[v % nv], ' '))) bad = 1; } an = sb_str (&t); if (bad) continue; sb_add (&t, rt == 0 ? "><k/></r>" : rt == 1 ? "/>" : rt == 2 ? ">t</r>" : ">t<k/>t</r>"); (void) an; m = model_doc (sb_str (&t), &doc); judge (doc, dtd, m, sb_str (&b)); axl_doc_free (doc); mc_state (rn_hash (m)); } }
		axl_dtd_free (dtd); mc_nontrivial ();
	} else if (part == 1) {           /* IDs and references: all arrangements over small documents */
		int n = 1 + mc_choose (3), req, full; RN *e[4]; static const char *IDV[] = { NULL, "i1", "i2", "i11" }, *RF[] = { NULL, "i1", "i2", "i3", "i11" }, *RS[] = { NULL, "i1", "i1 i2", "i3 i1", " i2\n i1 ", "i1 i1", "i2 i1 i3" };
		full = n < 3; req = mc_choose (2); decls[nd++] = mk ("n", "id", ID, req ? REQ : IMP, ""); decls[nd++] = mk ("n", "ref", IDREF, IMP, ""); decls[nd++] = mk ("n", "refs", IDREFS, IMP, ""); decls[nd++] = mk ("m", "key", ID, IMP, ""); decls[nd++] = mk ("m", "ref", IDREF, IMP, ""); decls[nd++] = mk ("m", "refs", IDREFS, IMP, "");
		sb_add (&b, "<!ELEMENT r (n|m)*><!ELEMENT n (n|m)*><!ELEMENT m (#PCDATA|n|m)*>"); decl_text (&b, 0, 3, 0, 0); decl_text (&b, 3, 6, 1, 0); m = e[0] = rn_elem ("r");
		for (i = 1; i <= n; i++) { int el = mc_choose (2), up = mc_choose (i); const char *v; if (i == 2) mc_shard (); e[i] = rn_elem (el ? "m" : "n"); if (!full && up && up != i - 1) mc_skip (); rn_add (e[up], e[i]);
			if ((v = IDV[mc_choose (full ? 4 : 3)])) rn_set (e[i], el ? "key" : "id", v); if (full || i < 3 || mc_thorough) if ((v = RF[mc_choose (full ? 5 : 4)])) rn_set (e[i], "ref", v); if (full || (mc_thorough && i == 1)) if ((v = RS[mc_choose (i == 1 || mc_thorough ? 7 : 3)])) rn_set (e[i], "refs", v); }
		if (n == 1) mc_shard (); if (mc_choose (2) && n < 3) { RN *x = rn_elem ("m"); RN *f = m->first; rn_set (x, "ref", "i1"); rn_add (m, x); (void) f; }
		mc_desc ("%s", Q (rn_str (m))); dtd = parse (sb_str (&b)); doc = ax_parse_ok (rn_str (m), -1, "document"); judge (doc, dtd, m, "identities"); axl_doc_free (doc); axl_dtd_free (dtd); mc_state (rn_hash (m)); mc_nontrivial ();
	} else if (part == 2) {           /* many attributes: one violation at every position */
		int n = (int[]) { 2, 9, 10, 11, 12, 13, 25 } [mc_choose (7)], v = mc_choose (6), p = mc_choose (n), rev = mc_choose (2), sp = mc_choose (3); mc_shard (); decls[nd++] = mk ("e", "a0", CDATA, IMP, "");
		nd = 0; for (i = 0; i < n; i++) decls[nd++] = mk ("e", ax_fmt ("a%d", i), i % 3 == 1 ? ENUM1 : CDATA, i % 3 == 0 ? REQ : i % 3 == 1 ? IMP : FIX, "v"); sb_add (&b, "<!ELEMENT r (e+)><!ELEMENT e EMPTY>"); decl_text (&b, 0, n, sp, 0);
		m = rn_elem ("r"); for (k = 0; k < 3; k++) { RN *e = rn_elem ("e"); rn_add (m, e); for (i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; int hit = k == 1 && j == p; if (v == 0 && hit) continue; rn_set (e, v == 1 && hit ? ax_fmt ("b%d", j) : ax_fmt ("a%d", j), v == 2 && hit ? "z" : j % 3 == 1 ? "a" : "v"); if (v == 3 && hit) rn_set (e, "zz", "1"); if (v == 4 && hit) { rn_set (e, ax_fmt ("a%d", j), "a "); } } }
		mc_desc ("%d attributes, change %d at %d", n, v, p); dtd = parse (sb_str (&b)); doc = ax_parse_ok (rn_str (m), -1, "document"); judge (doc, dtd, m, sb_str (&b)); axl_doc_free (doc); axl_dtd_free (dtd); mc_state (rn_hash (m)); mc_nontrivial ();
	} else if (part == 3) {           /* entities, and redeclared elements */
		static const char *EN[] = { "e", "ee", "f" }, *EV[] = { "v", "", "two words", "<a>&x;</a>", "it's", "say \"x\"", "line\nline", "%p;", "a-->b" }; int n = mc_choose (mc_thorough ? 4 : 3), nm[4], pe[4], ev[4], sp = mc_choose (4);
		for (i = 0; i < n; i++) { nm[i] = mc_choose (3); pe[i] = mc_choose (2); ev[i] = mc_choose (n > 2 ? 3 : 9); if (i == 0) mc_shard (); } if (!n) mc_shard ();
		for (i = 0; i < n; i++) { char q = strchr (EV[ev[i]], '"') || (i & 1 && !strchr (EV[ev[i]], '\'')) ? '\'' : '"'; sb_f (&b, "<!ENTITY%s%s%s%s%c%s%c%s>%s", SPC[sp], pe[i] ? ax_fmt ("%%%s", SPC[sp]) : "", EN[nm[i]], SPC[sp], q, EV[ev[i]], q, sp ? SPC[sp] : "", i == 1 ? "<!-- c -->\n" : i ? "\n" : ""); if (i == 0) sb_add (&b, "<!ELEMENT r EMPTY>"); }
		if (!n) sb_add (&b, "<!ELEMENT r EMPTY>"); k = mc_choose (5); if (k == 1) sb_add (&b, "<!ELEMENT s ANY><!ELEMENT r EMPTY>"); if (k == 2) sb_add (&b, "<!ELEMENT r (#PCDATA)>"); if (k == 3) sb_add (&b, "<!ELEMENT rr EMPTY><!ELEMENT s (#PCDATA|r)*>"); if (k == 4) sb_add (&b, "<!ELEMENT s (#PCDATA)>");
		mc_desc ("%s", Q (sb_str (&b)));
		if (k == 1 || k == 2) { axlError *err = NULL; dtd = axl_dtd_parse (sb_str (&b), -1, &err); MC_CHECK (!dtd, "a redeclared element is accepted"); MC_CHECK (ax_err (err), "rejected without an error"); axl_error_free (err); mc_outcome ("redeclared element"); mc_nontrivial (); return; }
		dtd = parse (sb_str (&b)); { int x, y; for (x = 0; x < 4; x++) for (y = 0; y < 2; y++) { const char *name = x < 3 ? EN[x] : "eee", *v = NULL, *got; for (i = n - 1; i >= 0; i--) if (x == nm[i] && y == pe[i]) v = EV[ev[i]]; got = axl_dtd_entity_value (dtd, name, y ? PARAMETER_ENTITY : GENERAL_ENTITY); mc_trans (2); MC_CHECK (!axl_dtd_entity_exists (dtd, name, y ? PARAMETER_ENTITY : GENERAL_ENTITY) == !v, "entity %s (%s): existence is wrong", name, y ? "parameter" : "general"); MC_CHECK (v ? got && !strcmp (got, v) : !got, "entity %s (%s) is %s, declared %s", name, y ? "parameter" : "general", Q (got), Q (v)); } }
		{ axlDtdElement *e = axl_dtd_get_element (dtd, "r"); MC_CHECK (e && axl_dtd_get_element_type (e) == ELEMENT_TYPE_EMPTY && !strcmp (axl_dtd_get_element_name (e), "r"), "element r"); e = axl_dtd_get_element (dtd, "s"); MC_CHECK (!e == (k < 3), "element s"); if (e) MC_CHECK (axl_dtd_get_element_type (e) == (k == 3 ? ELEMENT_TYPE_MIXED : ELEMENT_TYPE_PCDATA), "type of s"); MC_CHECK (!axl_dtd_get_element (dtd, "rrr"), "an undeclared element is found"); }
		axl_dtd_free (dtd); mc_state (mc_hash (sb_str (&b), b.n, 3)); mc_nontrivial ();
	} else {                          /* content models read back */
		SB c = { 0 }, s = { 0 }, t = { 0 }; axlDtdElement *e; int n, style = mc_choose (3), pre = mc_choose (3); n = 1 + mc_choose (mc_thorough ? 5 : 4); reps_left = mc_thorough ? (n > 4 ? 1 : n > 3 ? 2 : 4) : n > 3 ? 1 : 2; mc_shard (); gen_group (&c, &s, n, n > 3 ? 2 : 3, style);
		sb_f (&t, "%s<!ELEMENT%s r%s%s >\n<!ELEMENT z ANY>", pre == 1 ? "<!-- c -->\n" : pre == 2 ? "<!ELEMENT q EMPTY>\n" : "", SPC[style], SPC[style], sb_str (&s)); mc_desc ("%s", Q (sb_str (&t)));
		dtd = parse (sb_str (&t)); e = axl_dtd_get_element (dtd, "r"); MC_CHECK (e, "element r not found"); MC_CHECK (axl_dtd_get_element_type (e) == ELEMENT_TYPE_CHILDREN, "element type %d", axl_dtd_get_element_type (e)); MC_CHECK (axl_dtd_get_element_type (axl_dtd_get_element (dtd, "z")) == ELEMENT_TYPE_ANY, "type of z");
		show_list (&b, axl_dtd_get_item_list (e)); MC_CHECK (!strcmp (sb_str (&b), sb_str (&c)), "declared %s, read back %s", sb_str (&c), sb_str (&b)); axl_dtd_free (dtd); mc_trans (3); mc_state (mc_hash (c.p, c.n, 5)); mc_outcome ("structure"); mc_nontrivial ();
	}
}
