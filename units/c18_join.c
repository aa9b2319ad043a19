/* C18: joining two tables returns exactly the pairs of rows that satisfy the ON condition and the WHERE clause */
#define W_SEL
#include "w_result.h"
#define table_insert_row row_insert_unused
#define table_calc_row_size row_size_real
#include "../src/primitive/row.c"
#undef table_insert_row
#undef table_calc_row_size
static struct vp_model m, m2;

/*
 * The contract of table_insert_row (C01): the row, with its own copy of every string, follows the rows already there.
 * The stand-in gives the result its (empty) blocks ahead of the first insertion, so that where a block is does not
 * depend on which pairs match.
 */
static int inserted;
static void result_blocks(struct table *t)
{
	size_t len = row_size_real(t);
	for (int n = 0; n < m.n * m2.n; n += VP_SLOTS(len)) {
		struct datablock *b = vp_block(t);
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			memset(&b->data[s * len], 0, len);
			((struct row*)&b->data[s * len])->flags.empty = true;
		}
	}
}
size_t table_calc_row_size(struct table *t)
{
	if (t != w_table && t != w_table2 && t->column_count == w_table->column_count + w_table2->column_count && t->datablock_head->next == t->datablock_head)
		result_blocks(t);
	return row_size_real(t);
}
bool table_insert_row(struct table *t, struct row *row, size_t len)
{
	VP_ENSURE(t != w_table && t != w_table2 && len == row_size_real(t), "join.insert: rows go into the result, at its row size");
	if (t->datablock_head->next == t->datablock_head)
		result_blocks(t);
	int k = 0;
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int s = 0; s < (int)VP_SLOTS(VP_HDR); s++) {
			if (s >= (int)VP_SLOTS(len))
				break;
			if (k++ == inserted) {
				struct row *w = (struct row*)&b->data[s * len];
				memcpy(w, row, len);
				for (int c = 0; c < 2 * VP_MAXCOLS; c++)
					if (c < t->column_count && t->columns[c].type == CT_VARCHAR) {
						char *x, *y = malloc(t->columns[c].precision);
						VP_REQUIRE(y != NULL);
						memcpy(&x, &row->data[spec_col_off(t, c)], 8);
						memcpy(y, x, t->columns[c].precision);
						memcpy(&w->data[spec_col_off(t, c)], &y, 8);
					}
			}
		}
	}
	inserted++;
	return true;
}
static bool hit[VP_MAXROWS][VP_MAXROWS];

static bool same_pair(int a, int b, int c, int d)
{
	for (int i = 0; i < VP_MAXCOLS; i++) {
		if (i < w_table->column_count && !w_same(w_table->columns[i].type, w_table->columns[i].precision, &m.r[a].c[i], &m.r[c].c[i]))
			return false;
		if (i < w_table2->column_count && !w_same(w_table2->columns[i].type, w_table2->columns[i].precision, &m2.r[b].c[i], &m2.r[d].c[i]))
			return false;
	}
	return true;
}

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	vp_rows(w_table, &m);
	w_terminated(w_table, &m);
	w_table2 = vp_table(1, VP_MAXCOLS);
	w_table2->name[0] = 'U';
	vp_rows(w_table2, &m2);
	w_terminated(w_table2, &m2);
	VP_REQUIRE(spec_row_size(w_table) + spec_row_size(w_table2) < DATABLOCK_PAGE_SIZE); /* true at the real page size */
	N_STMT *s = w_stmt();
	for (int i = 0; i < VP_MAXCOLS; i++) {
		if (i < w_table->column_count)
			w_link(w_field_of('T', i), s->node_children_head);
		if (i < w_table2->column_count)
			w_link(w_field_of('U', i), s->node_children_head);
	}
	N(join) *j = malloc(sizeof(*j));
	N(onexpr) *on = malloc(sizeof(*on));
	N(cmp) *cmp = malloc(sizeof(*cmp));
	VP_REQUIRE(j != NULL && on != NULL && cmp != NULL);
	j->node_type = T(JOIN);
	j->join_type = AST_SEL_JOIN_INNER;
	j->node_children_head = w_head();
	on->node_type = T(ONEXPR);
	on->node_children_head = w_head();
	cmp->node_type = T(CMP);
	cmp->node_children_head = w_head();
	int c1 = vp_choice(0, VP_MAXCOLS - 1), c2 = vp_choice(0, VP_MAXCOLS - 1), swap = vp_choice(0, 1);
	VP_REQUIRE(c1 < w_table->column_count && c2 < w_table2->column_count);
	enum COLUMN_TYPE type = w_table->columns[c1].type;
	VP_REQUIRE(w_table2->columns[c2].type == type);
	int op = vp_range(AST_CMP_LT_OP, AST_CMP_GTE_OP);
	if (type == CT_VARCHAR || type == CT_TINYINT)
		VP_REQUIRE(op == AST_CMP_EQUALS_OP || op == AST_CMP_DIFF_OP);
	cmp->cmp_type = op;
	w_link(swap ? w_field_of('U', c2) : w_field_of('T', c1), cmp->node_children_head);
	w_link(swap ? w_field_of('T', c1) : w_field_of('U', c2), cmp->node_children_head);
	w_link(&cmp->head, on->node_children_head);
	w_link(w_tnode('T'), j->node_children_head);
	w_link(w_tnode('U'), j->node_children_head);
	w_link(&on->head, j->node_children_head);
	w_link(&j->head, s->node_children_head);
	struct list_head *c = w_where(w_table);
	if (c)
		w_link(w_wnode(c), s->node_children_head);
	struct query_output *out = malloc(sizeof(*out));
	VP_REQUIRE(out != NULL);
	struct database db;
	int total = 0;
	for (int a = 0; a < VP_MAXROWS; a++)
		for (int b = 0; b < VP_MAXROWS; b++) {
			hit[a][b] = false;
			if (a >= m.n || b >= m2.n || m.r[a].deleted || m2.r[b].deleted)
				continue;
			struct w_lit x, y;
			w_cell(&m.r[a].c[c1], &x);
			w_cell(&m2.r[b].c[c2], &y);
			hit[a][b] = (swap ? w_cmp(op, type, &y, &x) : w_cmp(op, type, &x, &y)) && w_true(&m.r[a]);
			total += hit[a][b];
		}
	int rc = executor_run_select_stmt(&db, s, out);
	VP_ENSURE(rc == MIDORIDB_OK, "join.ok: an accepted statement succeeds");
	VP_ENSURE(spec_in_place(w_table, &m) && spec_in_place(w_table2, &m2), "join.source: the source tables do not change");
	struct table *r = out->results.table;
	VP_ENSURE(r->column_count == w_table->column_count + w_table2->column_count, "join.columns: the result has the columns of both tables");
	int at[VP_MAXCOLS], at2[VP_MAXCOLS];
	for (int i = 0; i < VP_MAXCOLS; i++) {
		char nm[4] = { 'T', '.', 'a' + i, 0 }, nm2[4] = { 'U', '.', 'a' + i, 0 };
		if (i < w_table->column_count)
			at[i] = w_res_col(r, nm);
		if (i < w_table2->column_count)
			at2[i] = w_res_col(r, nm2);
	}
	size_t len = spec_row_size(r);
	int rows = 0, got[VP_MAXROWS][VP_MAXROWS];
	for (int a = 0; a < VP_MAXROWS; a++)
		for (int b = 0; b < VP_MAXROWS; b++)
			got[a][b] = 0;
	for (struct list_head *p = r->datablock_head->next; p != r->datablock_head; p = p->next) {
		struct datablock *blk = list_entry(p, struct datablock, head);
		for (int i = 0; i < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); i++) {
			if (i >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *w = (struct row*)&blk->data[i * len];
			if (w->flags.empty || w->flags.deleted)
				continue;
			rows++;
			struct vp_cell x[VP_MAXCOLS], y[VP_MAXCOLS];
			for (int k = 0; k < VP_MAXCOLS; k++) {
				if (k < w_table->column_count)
					spec_cell(r, w, at[k], &x[k]);
				if (k < w_table2->column_count)
					spec_cell(r, w, at2[k], &y[k]);
			}
			for (int a = 0; a < VP_MAXROWS; a++)
				for (int b = 0; b < VP_MAXROWS; b++)
					if (a < m.n && b < m2.n && hit[a][b]) {
						bool same = true;
						for (int k = 0; k < VP_MAXCOLS; k++) {
							if (k < w_table->column_count)
								same = same && w_same(w_table->columns[k].type, w_table->columns[k].precision, &x[k], &m.r[a].c[k]);
							if (k < w_table2->column_count)
								same = same && w_same(w_table2->columns[k].type, w_table2->columns[k].precision, &y[k], &m2.r[b].c[k]);
						}
						got[a][b] += same;
					}
		}
	}
	VP_ENSURE(rows == total, "join.number: one row per matching pair");
	for (int a = 0; a < VP_MAXROWS; a++)
		for (int b = 0; b < VP_MAXROWS; b++)
			if (a < m.n && b < m2.n && hit[a][b]) {
				int want = 0; /* pairs that look the same */
				for (int d = 0; d < VP_MAXROWS; d++)
					for (int e = 0; e < VP_MAXROWS; e++)
						want += d < m.n && e < m2.n && hit[d][e] && same_pair(a, b, d, e);
				VP_ENSURE(got[a][b] == want, "join.pairs: every matching pair is in the result, with the columns of both rows");
			}
	VP_COVER("end");
}
