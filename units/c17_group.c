/* C17: COUNT(*) and GROUP BY over one table count and group exactly */
#define W_SEL
#include "w_result.h"
static struct vp_model m;
static bool keep[VP_MAXROWS], by[VP_MAXCOLS];

static bool same_group(const struct vp_mrow *a, const struct vp_mrow *b)
{
	for (int c = 0; c < VP_MAXCOLS; c++)
		if (by[c]) {
			const struct column *col = &w_table->columns[c];
			if (col->type == CT_DOUBLE && !a->c[c].null && !b->c[c].null) {
				double x, y;
				memcpy(&x, &a->c[c].v, 8);
				memcpy(&y, &b->c[c].v, 8);
				if (x != y)
					return false;
			} else if (!w_same(col->type, col->precision, &a->c[c], &b->c[c]))
				return false;
		}
	return true;
}

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	vp_rows(w_table, &m);
	w_terminated(w_table, &m);
	N_STMT *s = w_stmt();
	int nby = vp_choice(0, VP_MAXCOLS), first = vp_choice(0, VP_MAXCOLS - 1); /* no grouping column: COUNT(*) alone */
	bool count = nby == 0 || vp_choice(0, 1);
	VP_REQUIRE(nby <= w_table->column_count && first < w_table->column_count);
	for (int i = 0; i < VP_MAXCOLS; i++)
		by[i] = false;
	for (int i = 0; i < VP_MAXCOLS; i++) {
		if (i >= nby)
			break;
		int c = (first + i) % w_table->column_count;
		by[c] = true;
		w_link(w_field(c), s->node_children_head);
		if (w_table->columns[c].type == CT_DOUBLE)
			for (int q = 0; q < VP_MAXROWS; q++)
				if (q < m.n) { /* NaN is not a value a statement can store */
					double x;
					memcpy(&x, &m.r[q].c[c].v, 8);
					VP_REQUIRE(x == x);
				}
	}
	if (count) {
		N(count) *cn = malloc(sizeof(*cn));
		VP_REQUIRE(cn != NULL);
		cn->node_type = T(COUNT);
		cn->node_children_head = w_head();
		cn->all = true;
		w_link(&cn->head, s->node_children_head);
	}
	w_link(w_tnode('T'), s->node_children_head);
	struct list_head *c = w_where(w_table);
	if (c)
		w_link(w_wnode(c), s->node_children_head);
	if (nby) {
		N(groupby) *g = malloc(sizeof(*g));
		VP_REQUIRE(g != NULL);
		g->node_type = T(GROUPBY);
		g->node_children_head = w_head();
		for (int i = 0; i < VP_MAXCOLS; i++)
			if (by[i])
				w_link(w_field(i), g->node_children_head);
		w_link(&g->head, s->node_children_head);
	}
	struct query_output *out = malloc(sizeof(*out));
	VP_REQUIRE(out != NULL);
	struct database db;
	for (int i = 0; i < VP_MAXROWS; i++)
		keep[i] = i < m.n && !m.r[i].deleted && w_true(&m.r[i]);
	int rc = executor_run_select_stmt(&db, s, out);
	VP_ENSURE(rc == MIDORIDB_OK, "group.ok: an accepted statement succeeds");
	VP_ENSURE(spec_in_place(w_table, &m), "group.source: the source table does not change");
	struct table *r = out->results.table;
	VP_ENSURE(r->column_count == nby + (count ? 1 : 0), "group.columns: the result has the selected columns and no other");
	int at[VP_MAXCOLS], cat = count ? w_res_col(r, "COUNT(*)") : -1;
	for (int i = 0; i < VP_MAXCOLS; i++) {
		char nm[4] = { 'T', '.', 'a' + i, 0 };
		if (by[i])
			at[i] = w_res_col(r, nm);
	}
	int groups = 0, rows = 0;
	for (int q = 0; q < VP_MAXROWS; q++) {
		bool again = false;
		for (int p = 0; p < q; p++)
			again = again || (keep[p] && p < m.n && q < m.n && same_group(&m.r[p], &m.r[q]));
		groups += q < m.n && keep[q] && !again;
	}
	size_t len = spec_row_size(r);
	for (struct list_head *p = r->datablock_head->next; p != r->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int i = 0; i < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); i++) {
			if (i >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *w = (struct row*)&b->data[i * len];
			if (w->flags.empty || w->flags.deleted)
				continue;
			rows++;
			/* the group of this result row */
			struct vp_mrow x;
			struct vp_cell n;
			for (int j = 0; j < VP_MAXCOLS; j++)
				if (by[j])
					spec_cell(r, w, at[j], &x.c[j]);
			int size = 0;
			for (int q = 0; q < VP_MAXROWS; q++)
				size += q < m.n && keep[q] && same_group(&m.r[q], &x);
			VP_ENSURE(size > 0, "group.values: a result row has the values of a group of matching rows");
			if (count) {
				spec_cell(r, w, cat, &n);
				VP_ENSURE(!n.null && n.v == (uint64_t)size, "group.count: COUNT(*) is the number of rows of the group");
			}
		}
	}
	if (nby || groups)
		VP_ENSURE(rows == groups, "group.once: one row per distinct combination");
	VP_COVER("end");
}
