/* C12: executing a DELETE tree removes exactly the rows its condition selects */
#include "w_tree.h"
static struct vp_model m;
static bool live_was[VP_MAXROWS];

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	vp_rows(w_table, &m);
	w_terminated(w_table, &m);
	N_STMT *s = w_stmt();
	struct list_head *c = w_where(w_table);
	if (c)
		w_link(c, s->node_children_head);
	struct query_output out;
	struct database db;
	out.n_rows_aff = 0;
	size_t free0 = w_table->free_dtbkl_offset;
	int nblk = spec_blocks(w_table), hit = 0;
	long live0 = vp_live;
	for (int i = 0; i < VP_MAXROWS; i++) /* what the statement means, over the rows as they are */
		if (i < m.n && !m.r[i].deleted && w_true(&m.r[i])) {
			m.r[i].deleted = true;
			hit++;
		}
	int rc = W_RUN(&db, s, &out);
	VP_ENSURE(rc == MIDORIDB_OK, "delete.ok: an accepted statement succeeds");
	VP_ENSURE(out.n_rows_aff == hit, "delete.count: the number of removed rows is reported");
	VP_ENSURE(spec_in_place(w_table, &m), "delete.rows: exactly the selected rows are gone, all others are as they were");
	VP_ENSURE(w_table->free_dtbkl_offset == free0 && spec_blocks(w_table) == nblk && vp_live == live0, "delete.frame: blocks and memory stay as they were");
	VP_COVER("end");
}
