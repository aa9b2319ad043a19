/*
 * Statement trees of DELETE and UPDATE (the precondition of their executors: what the checks before them let through)
 * and the truth of their conditions over the abstract rows of vp_table.h (what the postconditions are stated over).
 * Shapes, columns and list lengths are concrete for CBMC (vp_choice); operators, literals and NULLs are arbitrary.
 */
#ifndef W_TREE_H_
#define W_TREE_H_
#include "vp_table.h"
#include <parser/ast.h>
#include <engine/executor.h>
#include <time.h>
#include <stdarg.h>

#ifdef W_SEL
#define N(x) struct ast_sel_##x##_node
#define T(x) AST_TYPE_SEL_##x
#define N_STMT struct ast_sel_select_node
#define T_STMT AST_TYPE_SEL_SELECT
#elif defined(W_UPD)
#define N(x) struct ast_upd_##x##_node
#define T(x) AST_TYPE_UPD_##x
#define N_STMT struct ast_upd_update_node
#define T_STMT AST_TYPE_UPD_UPDATE
#define W_RUN executor_run_update_stmt
#else
#define N(x) struct ast_del_##x##_node
#define T(x) AST_TYPE_DEL_##x
#define N_STMT struct ast_del_deleteone_node
#define T_STMT AST_TYPE_DEL_DELETEONE
#define W_RUN executor_run_deleteone_stmt
#endif

#ifndef W_LIST
#define W_LIST 2
#endif
#define W_STR 4 /* bytes of a string literal, with its NUL */

struct w_lit {
	bool null;
	uint64_t v;
	char s[W_STR];
};
enum { W_FV, W_VF, W_FF, W_VV, W_NULL, W_IN, W_KINDS };
struct w_cond {
	int kind; /* of a leaf */
	int op; /* comparison */
	bool neg;
	int col, col2;
	enum COLUMN_TYPE type;
	struct w_lit a, b, list[W_LIST];
	int nlist;
};

/* ---- the catalogue's contract (C10) ---- */
static struct table *w_table, *w_table2;
bool database_table_exists(struct database *db, char *name)
{
	return strcmp(name, "T") == 0 || (w_table2 && strcmp(name, "U") == 0);
}
struct table *database_table_get(struct database *db, char *name)
{
	if (w_table2 && strcmp(name, "U") == 0)
		return w_table2;
	VP_ENSURE(strcmp(name, "T") == 0, "catalogue.name: only tables that exist are fetched");
	return w_table;
}
/* ---- assumed contracts of the C library: parsing and converting a date is a function of its text and format ---- */
char *strptime(const char *s, const char *fmt, struct tm *tm)
{
	VP_ENSURE((fmt[8] == 0) == (s[8] == 'D'), "date.format: a DATE is read with the date format, a DATETIME with the other");
	uint64_t v;
	memcpy(&v, s, 8);
	tm->tm_year = (int)(uint32_t)v;
	tm->tm_mon = (int)(uint32_t)(v >> 32);
	return (char*)s + 8;
}
time_t mktime(struct tm *tm)
{
	return (time_t)((uint64_t)(uint32_t)tm->tm_year | (uint64_t)(uint32_t)tm->tm_mon << 32);
}

#ifdef VP_CBMC
/* the C library functions CBMC has no body for, as far as the code uses them */
int snprintf(char *b, size_t n, const char *fmt, ...)
{
	va_list ap;
	size_t k = 0;
	va_start(ap, fmt);
	for (; *fmt; fmt++) {
		if (fmt[0] == '%' && fmt[1] == 's') {
			const char *p = va_arg(ap, const char*);
			for (; *p; p++)
				if (k + 1 < n)
					b[k++] = *p;
			fmt++;
		} else if (k + 1 < n)
			b[k++] = *fmt;
	}
	va_end(ap);
	if (n)
		b[k] = 0;
	return (int)k;
}
void qsort(void *base, size_t n, size_t size, int (*cmp)(const void*, const void*))
{
	char *a = base, x;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(a + (j - 1) * size, a + j * size) > 0; j--)
			for (size_t k = 0; k < size; k++) {
				x = a[j * size + k];
				a[j * size + k] = a[(j - 1) * size + k];
				a[(j - 1) * size + k] = x;
			}
}
#endif

/* ---- trees ---- */
static struct list_head *w_head(void)
{
	struct list_head *h = malloc(sizeof(*h));
	VP_REQUIRE(h != NULL);
	h->next = h->prev = h;
	return h;
}
static void w_link(struct list_head *n, struct list_head *h)
{
	n->next = h;
	n->prev = h->prev;
	h->prev->next = n;
	h->prev = n;
}
static void w_litval(struct w_lit *l, enum COLUMN_TYPE type)
{
	l->v = 0;
	for (int i = 0; i < W_STR; i++)
		l->s[i] = 0;
	if (type == CT_VARCHAR)
		for (int i = 0; i < W_STR - 1; i++)
			l->s[i] = vp_u8();
	else if (type == CT_TINYINT)
		l->v = vp_bool();
	else
		l->v = vp_u64();
}
static struct list_head *w_val(const struct w_lit *l, enum COLUMN_TYPE type)
{
	N(exprval) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = T(EXPRVAL);
	n->node_children_head = w_head();
	if (l->null)
		n->value_type.is_null = true;
	else if (type == CT_VARCHAR) {
		n->value_type.is_str = true;
		for (int i = 0; i < W_STR; i++)
			n->str_val[i] = l->s[i];
	} else if (type == CT_TINYINT) {
		n->value_type.is_bool = true;
		n->bool_val = l->v;
	} else if (type == CT_INTEGER) {
		n->value_type.is_intnum = true;
		n->int_val = (int64_t)l->v;
	} else if (type == CT_DOUBLE) {
		n->value_type.is_approxnum = true;
		memcpy(&n->double_val, &l->v, 8);
	} else {
		n->value_type.is_str = true;
		memcpy(n->str_val, &l->v, 8);
		n->str_val[8] = type == CT_DATE ? 'D' : 'T';
	}
	return &n->head;
}
static struct list_head *w_field_of(char table, int col)
{
#ifdef W_SEL
	N(fieldname) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = T(FIELDNAME);
	n->table_name[0] = table;
	n->col_name[0] = 'a' + col;
#else
	N(exprval) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = T(EXPRVAL);
	n->value_type.is_name = true;
	n->name_val[0] = 'a' + col;
#endif
	n->node_children_head = w_head();
	return &n->head;
}
static struct list_head *w_field(int col)
{
	return w_field_of('T', col);
}
static struct list_head *w_leaf(const struct table *t, struct w_cond *c)
{
	c->kind = vp_choice(0, W_KINDS - 1);
	c->col = vp_choice(0, VP_MAXCOLS - 1);
	VP_REQUIRE(c->col < t->column_count);
	c->type = t->columns[c->col].type;
	if (c->kind == W_NULL) {
		N(isxnull) *n = malloc(sizeof(*n));
		VP_REQUIRE(n != NULL);
		n->node_type = T(EXPRISXNULL);
		n->node_children_head = w_head();
		c->neg = vp_bool();
		n->is_negation = c->neg;
		w_link(w_field(c->col), n->node_children_head);
		return &n->head;
	}
	if (c->kind == W_IN) {
		N(isxin) *n = malloc(sizeof(*n));
		VP_REQUIRE(n != NULL);
		n->node_type = T(EXPRISXIN);
		n->node_children_head = w_head();
		c->neg = vp_bool();
		n->is_negation = c->neg;
		c->nlist = vp_choice(1, W_LIST);
		int at = vp_choice(0, W_LIST); /* the field stands somewhere among the values */
		for (int i = 0; i < W_LIST; i++) {
			if (i == at)
				w_link(w_field(c->col), n->node_children_head);
			if (i < c->nlist) {
				c->list[i].null = vp_choice(0, 3) == 3;
				w_litval(&c->list[i], c->type);
				w_link(w_val(&c->list[i], c->type), n->node_children_head);
			}
		}
		if (at >= W_LIST)
			w_link(w_field(c->col), n->node_children_head);
		return &n->head;
	}
	N(cmp) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	n->node_type = T(CMP);
	n->node_children_head = w_head();
	c->op = vp_range(AST_CMP_LT_OP, AST_CMP_GTE_OP);
	if (c->kind == W_VV && (c->type == CT_DATE || c->type == CT_DATETIME))
		c->type = CT_VARCHAR; /* between literals there are only strings */
	bool str = c->type == CT_VARCHAR;
	struct list_head *x, *y;
	if (c->kind == W_FF) {
		c->col2 = vp_choice(0, VP_MAXCOLS - 1);
		VP_REQUIRE(c->col2 < t->column_count && t->columns[c->col2].type == c->type);
		x = w_field(c->col);
		y = w_field(c->col2);
	} else {
		c->b.null = vp_choice(0, 3) == 3;
		w_litval(&c->b, c->type);
		if (c->b.null)
			str = true;
		y = w_val(&c->b, c->type);
		if (c->kind == W_VV) {
			c->a.null = c->b.null; /* both of one kind */
			w_litval(&c->a, c->type);
			x = w_val(&c->a, c->type);
		} else {
			x = w_field(c->col);
		}
		if (c->kind == W_VF) {
			struct list_head *z = x;
			x = y;
			y = z;
		}
	}
	if (str || c->type == CT_TINYINT)
		VP_REQUIRE(c->op == AST_CMP_EQUALS_OP || c->op == AST_CMP_DIFF_OP);
	n->cmp_type = c->op;
	w_link(x, n->node_children_head);
	w_link(y, n->node_children_head);
	return &n->head;
}
static struct list_head *w_logop(struct list_head *a, struct list_head *b, int *op)
{
	N(logop) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	n->node_type = T(LOGOP);
	n->node_children_head = w_head();
	*op = vp_range(0, 2);
	n->logop_type = *op == 0 ? AST_LOGOP_TYPE_AND : *op == 1 ? AST_LOGOP_TYPE_OR : AST_LOGOP_TYPE_XOR;
	w_link(a, n->node_children_head);
	w_link(b, n->node_children_head);
	return &n->head;
}
/* shapes: 0 no condition, 1 leaf, 2 leaf op leaf, 3 (leaf op leaf) op leaf, 4 leaf op (leaf op leaf) */
static struct w_where {
	int shape;
	struct w_cond l[3];
	int op1, op2;
} w_w;
static struct list_head *w_where(const struct table *t)
{
	struct list_head *x, *y, *z;
	w_w.shape = vp_choice(0, 4);
	if (w_w.shape == 0)
		return NULL;
	x = w_leaf(t, &w_w.l[0]);
	if (w_w.shape == 1)
		return x;
	y = w_leaf(t, &w_w.l[1]);
	if (w_w.shape == 2)
		return w_logop(x, y, &w_w.op1);
	z = w_leaf(t, &w_w.l[2]);
	if (w_w.shape == 3)
		return w_logop(w_logop(x, y, &w_w.op1), z, &w_w.op2);
	return w_logop(x, w_logop(y, z, &w_w.op1), &w_w.op2);
}

/* ---- truth ---- */
static int w_order(enum COLUMN_TYPE type, const struct w_lit *a, const struct w_lit *b) /* -1, 0, 1; 2: unordered */
{
	if (type == CT_VARCHAR) {
		for (int i = 0; i < W_STR; i++) {
			if (a->s[i] != b->s[i])
				return 1;
			if (!a->s[i])
				return 0;
		}
		return 0;
	}
	if (type == CT_DOUBLE) {
		double x, y;
		memcpy(&x, &a->v, 8);
		memcpy(&y, &b->v, 8);
		return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
	}
	int64_t x = (int64_t)a->v, y = (int64_t)b->v;
	return x < y ? -1 : x > y;
}
static bool w_cmp(int op, enum COLUMN_TYPE type, const struct w_lit *a, const struct w_lit *b)
{
	if (a->null || b->null)
		return false;
	int k = w_order(type, a, b);
	switch (op) {
	case AST_CMP_LT_OP: return k == -1;
	case AST_CMP_GT_OP: return k == 1;
	case AST_CMP_LTE_OP: return k == -1 || k == 0;
	case AST_CMP_GTE_OP: return k == 1 || k == 0;
	case AST_CMP_EQUALS_OP: return k == 0;
	default: return k != 0;
	}
}
static void w_cell(const struct vp_cell *c, struct w_lit *l)
{
	l->null = c->null;
	l->v = c->v;
	for (int i = 0; i < W_STR; i++)
		l->s[i] = i < VP_MAXPREC ? c->s[i] : 0;
}
static bool w_true1(const struct w_cond *c, const struct vp_mrow *r)
{
	struct w_lit f, g;
	if (c->kind == W_VV)
		return w_cmp(c->op, c->type, &c->a, &c->b);
	w_cell(&r->c[c->col], &f);
	switch (c->kind) {
	case W_FV: return w_cmp(c->op, c->type, &f, &c->b);
	case W_VF: return w_cmp(c->op, c->type, &c->b, &f);
	case W_FF: w_cell(&r->c[c->col2], &g); return w_cmp(c->op, c->type, &f, &g);
	case W_NULL: return f.null != c->neg;
	default:
		for (int i = 0; i < W_LIST; i++)
			if (i < c->nlist) {
				if (!c->neg && w_cmp(AST_CMP_EQUALS_OP, c->type, &f, &c->list[i]))
					return true;
				if (c->neg && !w_cmp(AST_CMP_DIFF_OP, c->type, &f, &c->list[i]))
					return false;
			}
		return c->neg;
	}
}
static bool w_gate(int op, bool a, bool b)
{
	return op == 0 ? a && b : op == 1 ? a || b : a != b;
}
static bool w_true(const struct vp_mrow *r)
{
	bool x, y, z;
	if (w_w.shape == 0)
		return true;
	x = w_true1(&w_w.l[0], r);
	if (w_w.shape == 1)
		return x;
	y = w_true1(&w_w.l[1], r);
	if (w_w.shape == 2)
		return w_gate(w_w.op1, x, y);
	z = w_true1(&w_w.l[2], r);
	if (w_w.shape == 3)
		return w_gate(w_w.op2, w_gate(w_w.op1, x, y), z);
	return w_gate(w_w.op2, x, w_gate(w_w.op1, y, z));
}
static N_STMT *w_stmt(void)
{
	N_STMT *s = malloc(sizeof(*s));
	VP_REQUIRE(s != NULL);
	memset(s, 0, sizeof(*s));
	s->node_type = T_STMT;
	s->node_children_head = w_head();
#ifndef W_SEL
	s->table_name[0] = 'T';
#endif
	return s;
}
/* strings in the table end within their column */
static void w_terminated(const struct table *t, const struct vp_model *m)
{
	for (int i = 0; i < VP_MAXROWS; i++)
		for (int c = 0; c < VP_MAXCOLS; c++)
			if (i < m->n && c < t->column_count && t->columns[c].type == CT_VARCHAR)
				VP_REQUIRE(m->r[i].c[c].s[t->columns[c].precision - 1] == 0);
}
#endif
