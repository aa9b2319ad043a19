/* C13: executing an UPDATE tree changes exactly the named columns of the rows its condition selects */
#define W_UPD
#include "w_tree.h"
static struct vp_model m;

static struct list_head *assign(int col, struct w_lit *l)
{
	struct ast_upd_assign_node *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = AST_TYPE_UPD_ASSIGN;
	n->node_children_head = w_head();
	n->field_name[0] = 'a' + col;
	w_link(w_val(l, w_table->columns[col].type), n->node_children_head);
	return &n->head;
}

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	vp_rows(w_table, &m);
	w_terminated(w_table, &m);
	N_STMT *s = w_stmt();
	static struct w_lit l[VP_MAXCOLS];
	int set[VP_MAXCOLS], nset = vp_choice(1, VP_MAXCOLS);
	VP_REQUIRE(nset <= w_table->column_count);
	for (int i = 0; i < VP_MAXCOLS; i++) {
		if (i >= nset)
			break;
		set[i] = vp_choice(0, VP_MAXCOLS - 1);
		VP_REQUIRE(set[i] < w_table->column_count);
		for (int k = 0; k < i; k++)
			VP_REQUIRE(set[k] != set[i]);
		l[i].null = vp_choice(0, 3) == 3;
		const struct column *c = &w_table->columns[set[i]];
		w_litval(&l[i], c->type);
		if (c->type == CT_VARCHAR) { /* fits the column */
			bool end = false;
			for (int k = 0; k < W_STR; k++) {
				end = end || !l[i].s[k];
				VP_REQUIRE(end || k < (int)c->precision - 1);
			}
		}
		w_link(assign(set[i], &l[i]), s->node_children_head);
	}
	struct list_head *c = w_where(w_table);
	if (c)
		w_link(c, s->node_children_head);
	struct query_output out;
	struct database db;
	out.n_rows_aff = 0;
	size_t free0 = w_table->free_dtbkl_offset;
	int nblk = spec_blocks(w_table), hit = 0;
	long live0 = vp_live;
	for (int i = 0; i < VP_MAXROWS; i++) /* what the statement means, over the rows as they are */
		if (i < m.n && !m.r[i].deleted && w_true(&m.r[i])) {
			for (int k = 0; k < VP_MAXCOLS; k++)
				if (k < nset) {
					struct vp_cell *x = &m.r[i].c[set[k]];
					x->null = l[k].null;
					x->v = l[k].v;
					bool end = false;
					for (int j = 0; j < VP_MAXPREC; j++) {
						end = end || !l[k].s[j];
						x->s[j] = end ? 0 : l[k].s[j];
					}
				}
			hit++;
		}
	int rc = W_RUN(&db, s, &out);
	VP_ENSURE(rc == MIDORIDB_OK, "update.ok: an accepted statement succeeds");
	VP_ENSURE(out.n_rows_aff == hit, "update.count: the number of changed rows is reported");
	VP_ENSURE(spec_in_place(w_table, &m), "update.rows: exactly the named columns of the selected rows have the new values");
	VP_ENSURE(w_table->free_dtbkl_offset == free0 && spec_blocks(w_table) == nblk && vp_live == live0, "update.frame: blocks and memory stay as they were");
	VP_COVER("end");
}
