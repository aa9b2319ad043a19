/*
 * CREATE TABLE statements as trees: column definitions and index/primary key definitions in any order. Names, kinds and
 * lengths are concrete for CBMC (vp_choice); types and attributes are arbitrary.
 */
#ifndef W_CRT_H_
#define W_CRT_H_
#include <parser/ast.h>
#include <parser/semantic.h>
#include <engine/executor.h>
#include <primitive/table.h>
#include <primitive/column.h>

#define C_MAX 3 /* definitions per statement */
#define C_IDX 2 /* columns per index definition */
static const char *const c_names[] = { "a", "B_2", "a1", "A", "_a", "" };
#define C_NAMES 6
#define C_VALID 4 /* the first so many are valid names */
struct c_def {
	int kind; /* 0 column, 1 primary key, 2 index */
	int name, n, idx[C_IDX];
	int type;
	size_t prec;
	bool null, uniq, inc, pk;
};
static struct c_stmt {
	int table, n;
	bool ine;
	struct c_def d[C_MAX];
} st;

/* ---- the catalogue's contract (C10) ---- */
static bool w_exists;
static struct table *w_added;
static int w_adds;
bool database_table_exists(struct database *db, char *name)
{
	VP_ENSURE(strcmp(name, c_names[st.table]) == 0, "catalogue.name: the table is looked up under the statement's name");
	return w_exists;
}
int database_table_add(struct database *db, struct table *table)
{
	w_adds++;
	if (w_exists)
		return -MIDORIDB_ERROR;
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return -MIDORIDB_NOMEM;
	w_added = table;
	return MIDORIDB_OK;
}
int database_lock(struct database *db)
{
	return MIDORIDB_OK;
}
int database_unlock(struct database *db)
{
	return MIDORIDB_OK;
}
#ifdef VP_CBMC
/* the C library's; CBMC's own model forgets which bytes are known */
void *memcpy(void *d, const void *s, size_t n)
{
	__CPROVER_precondition(__CPROVER_r_ok(s, n), "memcpy source region readable");
	__CPROVER_precondition(__CPROVER_w_ok(d, n), "memcpy destination region writeable");
	if (n == sizeof(struct column))
		*(struct column*)d = *(const struct column*)s;
	else
		for (size_t i = 0; i < n; i++)
			((char*)d)[i] = ((const char*)s)[i];
	return d;
}
void *memccpy(void *d, const void *s, int c, size_t n) /* the C library's */
{
	for (size_t i = 0; i < n; i++) {
		((char*)d)[i] = ((const char*)s)[i];
		if (((const char*)s)[i] == (char)c)
			return (char*)d + i + 1;
	}
	return NULL;
}
char *strncpy(char *d, const char *s, size_t n) /* the C library's */
{
	size_t i = 0;
	for (; i < n && s[i]; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = 0;
	return d;
}
char *strcpy(char *d, const char *s) /* the C library's */
{
	size_t i = 0;
	for (; s[i]; i++)
		d[i] = s[i];
	d[i] = 0;
	return d;
}
int snprintf(char *b, size_t n, const char *fmt, ...) /* only used for messages here */
{
	if (n)
		b[0] = 0;
	return 0;
}
#endif

static struct list_head *c_head(void)
{
	struct list_head *h = malloc(sizeof(*h));
	VP_REQUIRE(h != NULL);
	h->next = h->prev = h;
	return h;
}
static void c_link(struct list_head *n, struct list_head *h)
{
	n->next = h;
	n->prev = h->prev;
	h->prev->next = n;
	h->prev = n;
}
static struct ast_crt_create_node *c_tree(void)
{
	struct ast_crt_create_node *s = malloc(sizeof(*s));
	VP_REQUIRE(s != NULL);
	s->node_type = AST_TYPE_CRT_CREATE;
	s->node_children_head = c_head();
	st.table = vp_choice(0, C_NAMES - 1);
	st.ine = vp_choice(0, 1);
	st.n = vp_choice(0, C_MAX);
	strcpy(s->table_name, c_names[st.table]);
	s->if_not_exists = st.ine;
	for (int i = 0; i < C_MAX; i++)
		if (i < st.n) {
			struct c_def *d = &st.d[i];
			d->kind = vp_choice(0, 2);
			if (d->kind == 0) {
				struct ast_crt_column_def_node *c = malloc(sizeof(*c));
				VP_REQUIRE(c != NULL);
				d->name = vp_choice(0, C_NAMES - 1);
				d->type = vp_range(0, 5);
				d->prec = vp_range(1, 9999);
				VP_REQUIRE(d->type == CT_VARCHAR || d->prec == (d->type == CT_TINYINT ? 1 : 8));
				d->null = vp_bool();
				d->uniq = vp_bool();
				d->inc = vp_bool();
				d->pk = vp_bool();
				VP_REQUIRE(!d->pk || (!d->null && d->uniq));
				c->node_type = AST_TYPE_CRT_COLUMNDEF;
				c->node_children_head = c_head();
				strcpy(c->name, c_names[d->name]);
				c->type = d->type;
				c->precision = d->prec;
				c->attr_null = d->null;
				c->attr_not_null = !d->null;
				c->attr_uniq_key = d->uniq;
				c->attr_auto_inc = d->inc;
				c->attr_prim_key = d->pk;
				c_link(&c->head, s->node_children_head);
			} else {
				struct ast_crt_index_def_node *x = malloc(sizeof(*x));
				VP_REQUIRE(x != NULL);
				x->node_type = AST_TYPE_CRT_INDEXDEF;
				x->node_children_head = c_head();
				x->is_pk = d->kind == 1;
				x->is_index = d->kind == 2;
				d->n = vp_choice(1, C_IDX);
				for (int k = 0; k < C_IDX; k++)
					if (k < d->n) {
						struct ast_crt_index_column_node *c = malloc(sizeof(*c));
						VP_REQUIRE(c != NULL);
						c->node_type = AST_TYPE_CRT_INDEXCOL;
						c->node_children_head = c_head();
						d->idx[k] = vp_choice(0, C_NAMES - 1);
						strcpy(c->name, c_names[d->idx[k]]);
						c_link(&c->head, x->node_children_head);
					}
				c_link(&x->head, s->node_children_head);
			}
		}
	w_exists = vp_choice(0, 1);
	w_added = NULL;
	w_adds = 0;
	return s;
}
static bool c_has(int name)
{
	bool r = false;
	for (int i = 0; i < C_MAX; i++)
		r = r || (i < st.n && st.d[i].kind == 0 && st.d[i].name == name);
	return r;
}
/* the rules of C20 and C22 for CREATE TABLE */
static bool c_valid(void)
{
	bool ok = st.table < C_VALID && (st.ine || !w_exists);
	for (int i = 0; i < C_MAX; i++)
		if (i < st.n) {
			const struct c_def *d = &st.d[i];
			if (d->kind == 0) {
				ok = ok && d->name < C_VALID;
				for (int k = 0; k < C_MAX; k++)
					ok = ok && !(k < i && st.d[k].kind == 0 && st.d[k].name == d->name);
			} else
				for (int k = 0; k < C_IDX; k++)
					ok = ok && (k >= d->n || c_has(d->idx[k]));
		}
	return ok;
}
#endif
