/*
 * INSERT statements as trees: a column list (or none), value lists of any length, values of any kind - right or wrong.
 * Kinds, columns and lengths are concrete for CBMC (vp_choice); the values themselves are arbitrary.
 */
#ifndef W_INS_H_
#define W_INS_H_
#include "vp_table.h"
#include <parser/ast.h>
#include <engine/executor.h>
#include <time.h>

#define I_STR 4 /* bytes of a string literal, with its NUL */
#define I_COLS (VP_MAXCOLS + 1) /* longest column list / value list */
#ifndef I_ROWS
#define I_ROWS 2
#endif
enum { I_INT, I_DBL, I_BOOL, I_TEXT, I_NULL, I_SUM, I_DSUM, I_BADSUM, I_KINDS };

struct i_val {
	int kind;
	uint64_t v;
	char s[I_STR];
	int bad; /* what is wrong with an I_BADSUM */
};
static struct i_stmt {
	bool known; /* the table exists */
	int ncols, col[I_COLS]; /* column list; VP_MAXCOLS stands for a name the table does not have */
	int nrows, n[I_ROWS];
	struct i_val val[I_ROWS][I_COLS];
} st;

/* ---- the catalogue's contract (C10) ---- */
static struct table *w_table;
bool database_table_exists(struct database *db, char *name)
{
	return strcmp(name, "T") == 0;
}
struct table *database_table_get(struct database *db, char *name)
{
	VP_ENSURE(strcmp(name, "T") == 0, "catalogue.name: only tables that exist are fetched");
	return w_table;
}
/* ---- assumed contracts of the C library: whether a text is a date of the format, and which, is a function of the two ---- */
static bool i_isdate(const char *s, bool time)
{
	return (time ? (s[0] & 1) : (s[0] & 2)) && !(s[0] & 4) && !(s[0] & 8);
}
char *strptime(const char *s, const char *fmt, struct tm *tm)
{
	bool time = fmt[8] != 0;
	if (!(time ? (s[0] & 1) : (s[0] & 2)))
		return NULL;
	tm->tm_mday = 1;
	tm->tm_year = (unsigned char)s[0] | (unsigned char)s[1] << 8 | (s[1] ? (unsigned char)s[2] << 16 : 0);
	tm->tm_mon = time;
	return s[0] & 4 ? "x" : ""; /* what follows the date */
}
time_t mktime(struct tm *tm)
{
	tm->tm_mday = tm->tm_year & 8 ? 2 : 1; /* for a day the month does not have, one of the next month */
	return (time_t)((uint64_t)(uint32_t)tm->tm_year << 33 | (uint64_t)tm->tm_mon) - 1; /* -1 for some of them */
}
static uint64_t i_date(const char *s, bool time)
{
	uint64_t y = (unsigned char)s[0] | (unsigned char)s[1] << 8 | (s[1] ? (unsigned char)s[2] << 16 : 0);
	return (y << 33 | time) - 1;
}
#ifdef VP_CBMC
int snprintf(char *b, size_t n, const char *fmt, ...) /* only used for messages here */
{
	if (n)
		b[0] = 0;
	return 0;
}
#endif

static char i_dates;
static int i_target(int i);
static struct list_head *i_head(void)
{
	struct list_head *h = malloc(sizeof(*h));
	VP_REQUIRE(h != NULL);
	h->next = h->prev = h;
	return h;
}
static void i_link(struct list_head *n, struct list_head *h)
{
	n->next = h;
	n->prev = h->prev;
	h->prev->next = n;
	h->prev = n;
}
static struct ast_ins_exprval_node *i_lit(void)
{
	struct ast_ins_exprval_node *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = AST_TYPE_INS_EXPRVAL;
	n->node_children_head = i_head();
	return n;
}
static struct list_head *i_value(struct i_val *x, enum COLUMN_TYPE type)
{
	struct ast_ins_exprval_node *n = i_lit();
	x->kind = vp_choice(0, I_KINDS - 1);
	x->v = 0;
	for (int i = 0; i < I_STR; i++)
		x->s[i] = 0;
	switch (x->kind) {
	case I_INT:
		n->value_type.is_intnum = true;
		x->v = vp_u64();
		n->int_val = (int64_t)x->v;
		break;
	case I_DBL:
		n->value_type.is_approxnum = true;
		x->v = vp_u64();
		memcpy(&n->double_val, &x->v, 8);
		break;
	case I_BOOL:
		n->value_type.is_bool = true;
		n->bool_val = x->v = vp_bool();
		break;
	case I_TEXT:
		n->value_type.is_str = true;
		for (int i = 0; i < I_STR - 1; i++)
#ifdef I_EXEC
			if (type == CT_DATE || type == CT_DATETIME) /* each a date of its own */
				n->str_val[i] = x->s[i] = i == 0 ? 3 : i == 1 ? ++i_dates : 0;
			else
#endif
				n->str_val[i] = x->s[i] = i && !x->s[i - 1] ? 0 : vp_u8();
		break;
	case I_NULL:
		n->value_type.is_null = true;
		break;
	default: { /* an expression: literal op literal; the wrong kind is a literal of another sort on one side */
		struct ast_ins_exprop_node *op = malloc(sizeof(*op));
		struct ast_ins_exprval_node *b = i_lit();
		VP_REQUIRE(op != NULL);
		op->node_type = AST_TYPE_INS_EXPROP;
		op->node_children_head = i_head();
		op->op_type = vp_range(AST_INS_EXPR_OP_ADD, AST_INS_EXPR_OP_MOD);
		if (x->kind == I_DSUM)
			n->value_type.is_approxnum = b->value_type.is_approxnum = true;
		else
			n->value_type.is_intnum = b->value_type.is_intnum = true;
		n->int_val = vp_i64();
		if (x->kind == I_DSUM)
			memcpy(&b->double_val, &n->int_val, 8);
		if (x->kind == I_BADSUM) {
			x->bad = vp_choice(0, 2);
			b->value_type.is_intnum = false;
			if (x->bad == 0)
				b->value_type.is_str = true;
			else if (x->bad == 1)
				b->value_type.is_bool = true;
			else
				b->value_type.is_approxnum = true;
		}
		bool swap = vp_choice(0, 1);
		i_link(swap ? &b->head : &n->head, op->node_children_head);
		i_link(swap ? &n->head : &b->head, op->node_children_head);
		return &op->head;
	}
	}
	return &n->head;
}

static struct ast_ins_insvals_node *i_stmt(int maxkind)
{
	struct ast_ins_insvals_node *s = malloc(sizeof(*s));
	VP_REQUIRE(s != NULL);
	memset(s, 0, sizeof(*s));
	s->node_type = AST_TYPE_INS_INSVALS;
	s->node_children_head = i_head();
	st.known = !vp_choice(0, 1);
	s->table_name[0] = st.known ? 'T' : 'V';
	st.ncols = vp_choice(0, I_COLS);
	struct ast_ins_inscols_node *l = NULL;
	if (st.ncols) {
		s->opt_column_list = true;
		l = malloc(sizeof(*l));
		VP_REQUIRE(l != NULL);
		l->node_type = AST_TYPE_INS_INSCOLS;
		l->node_children_head = i_head();
		l->column_count = st.ncols;
		for (int i = 0; i < I_COLS; i++)
			if (i < st.ncols) {
				struct ast_ins_column_node *c = malloc(sizeof(*c));
				VP_REQUIRE(c != NULL);
				memset(c, 0, sizeof(*c));
				c->node_type = AST_TYPE_INS_COLUMN;
				c->node_children_head = i_head();
				st.col[i] = vp_choice(0, VP_MAXCOLS);
				c->name[0] = st.col[i] < w_table->column_count ? 'a' + st.col[i] : 'z';
				i_link(&c->head, l->node_children_head);
			}
	}
	if (l && vp_choice(0, 1)) {
		i_link(&l->head, s->node_children_head);
		l = NULL;
	}
	st.nrows = vp_choice(1, I_ROWS);
	s->row_count = st.nrows;
	for (int r = 0; r < I_ROWS; r++)
		if (r < st.nrows) {
			struct ast_ins_values_node *v = malloc(sizeof(*v));
			VP_REQUIRE(v != NULL);
			v->node_type = AST_TYPE_INS_VALUES;
			v->node_children_head = i_head();
			st.n[r] = vp_choice(1, I_COLS);
			v->value_count = st.n[r];
			for (int i = 0; i < I_COLS; i++)
				if (i < st.n[r]) {
					i_link(i_value(&st.val[r][i], i_target(i) < 0 ? CT_VARCHAR : w_table->columns[i_target(i)].type), v->node_children_head);
					VP_REQUIRE(st.val[r][i].kind <= maxkind);
				}
			i_link(&v->head, s->node_children_head);
		}
	if (l)
		i_link(&l->head, s->node_children_head);
	return s;
}
/* the column value list position i belongs to; -1: none */
static int i_target(int i)
{
	if (st.ncols == 0)
		return i < w_table->column_count ? i : -1;
	return i < st.ncols && st.col[i] < w_table->column_count ? st.col[i] : -1;
}
static bool i_value_ok(const struct i_val *x, const struct column *c)
{
	switch (x->kind) {
	case I_INT: return c->type == CT_INTEGER;
	case I_DBL: return c->type == CT_DOUBLE;
	case I_BOOL: return c->type == CT_TINYINT;
	case I_NULL: return c->nullable;
	case I_TEXT:
		if (c->type == CT_VARCHAR) {
			int len = 0;
			while (x->s[len])
				len++;
			return len + 1 <= (int)c->precision;
		}
		if (c->type == CT_DATE || c->type == CT_DATETIME)
			return i_isdate(x->s, c->type == CT_DATETIME) && i_date(x->s, c->type == CT_DATETIME) != UINT64_MAX;
		return false;
	case I_SUM: return c->type == CT_INTEGER;
	case I_DSUM: return c->type == CT_DOUBLE;
	default: return false;
	}
}
/* free of the faults the property lists */
static bool i_valid(void)
{
	if (!st.known)
		return false;
	int want = st.ncols ? st.ncols : w_table->column_count;
	for (int i = 0; i < I_COLS; i++)
		if (i < st.ncols) {
			if (st.col[i] >= w_table->column_count)
				return false;
			for (int k = 0; k < i; k++)
				if (st.col[k] == st.col[i])
					return false;
		}
	for (int c = 0; c < VP_MAXCOLS; c++)
		if (st.ncols && c < w_table->column_count && !w_table->columns[c].nullable) {
			bool listed = false;
			for (int i = 0; i < I_COLS; i++)
				listed = listed || (i < st.ncols && st.col[i] == c);
			if (!listed)
				return false;
		}
	for (int r = 0; r < I_ROWS; r++)
		if (r < st.nrows && st.n[r] != want)
			return false;
	bool ok = true;
	for (int r = 0; r < I_ROWS; r++)
		for (int i = 0; i < I_COLS; i++)
			if (r < st.nrows && i < st.n[r])
				ok = i_value_ok(&st.val[r][i], &w_table->columns[i_target(i)]) && ok;
	return ok;
}
#endif
