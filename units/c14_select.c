/* C14: executing a SELECT tree over one table returns exactly the matching rows, in order, with the selected columns */
#define W_SEL
#include "w_result.h"
static struct vp_model m;
static bool keep[VP_MAXROWS];

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	vp_rows(w_table, &m);
	w_terminated(w_table, &m);
	N_STMT *s = w_stmt();
	/* the selected columns, in some order */
	int nsel = vp_choice(1, VP_MAXCOLS), first = vp_choice(0, VP_MAXCOLS - 1);
	VP_REQUIRE(nsel <= w_table->column_count && first < w_table->column_count);
	bool sel[VP_MAXCOLS];
	for (int i = 0; i < VP_MAXCOLS; i++)
		sel[i] = false;
	for (int i = 0; i < VP_MAXCOLS; i++) {
		if (i >= nsel)
			break;
		int c = (first + i) % w_table->column_count;
		sel[c] = true;
		w_link(w_field(c), s->node_children_head);
	}
	w_link(w_tnode('T'), s->node_children_head);
	struct list_head *c = w_where(w_table);
	if (c)
		w_link(w_wnode(c), s->node_children_head);
	struct query_output *out = malloc(sizeof(*out));
	VP_REQUIRE(out != NULL);
	struct database db;
	for (int i = 0; i < VP_MAXROWS; i++)
		keep[i] = i < m.n && !m.r[i].deleted && w_true(&m.r[i]);
	int rc = executor_run_select_stmt(&db, s, out);
	VP_ENSURE(rc == MIDORIDB_OK, "select.ok: an accepted statement succeeds");
	VP_ENSURE(spec_in_place(w_table, &m), "select.source: the source table does not change");
	struct table *r = out->results.table;
	VP_ENSURE(r->column_count == nsel, "select.columns: the result has the selected columns and no other");
	int at[VP_MAXCOLS];
	for (int i = 0; i < VP_MAXCOLS; i++) {
		char nm[4] = { 'T', '.', 'a' + i, 0 };
		if (sel[i])
			at[i] = w_res_col(r, nm);
	}
	size_t len = spec_row_size(r);
	int k = 0;
	for (struct list_head *p = r->datablock_head->next; p != r->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int i = 0; i < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); i++) {
			if (i >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *w = (struct row*)&b->data[i * len];
			if (w->flags.empty || w->flags.deleted)
				continue;
			/* the k-th returned row is the k-th matching one */
			int seen = 0;
			bool found = false;
			for (int q = 0; q < VP_MAXROWS; q++) {
				if (q >= m.n)
					break;
				if (keep[q] && seen++ == k) {
					found = true;
					for (int j = 0; j < VP_MAXCOLS; j++)
						if (sel[j]) {
							struct vp_cell x;
							spec_cell(r, w, at[j], &x);
							VP_ENSURE(w_same(w_table->columns[j].type, w_table->columns[j].precision, &x, &m.r[q].c[j]), "select.value: a column of the row has its value or NULL");
						}
				}
			}
			VP_ENSURE(found, "select.extra: no row is returned that does not match");
			k++;
		}
	}
	int want = 0;
	for (int q = 0; q < VP_MAXROWS; q++)
		want += q < m.n && keep[q];
	VP_ENSURE(k == want, "select.missing: every matching row is returned, in table order");
	VP_COVER("end");
}
