/* C15: executing an accepted INSERT adds one row per value list, each value in its column and NULL elsewhere */
#define I_EXEC
#include "w_ins.h"
static struct vp_model m;

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	for (int i = 0; i < VP_MAXCOLS; i++)
		w_table->columns[i].nullable = true;
	vp_rows(w_table, &m);
	struct ast_ins_insvals_node *s = i_stmt(I_NULL); /* expressions have become values by now (C16) */
	VP_REQUIRE(i_valid()); /* what the checks let through (C20) */
	int want = 0;
	for (int r = 0; r < I_ROWS; r++)
		if (r < st.nrows)
			want += 1;
	for (int i = 0; i < I_COLS; i++)
		for (int r = 0; r < I_ROWS; r++)
			if (r < st.nrows && i < st.n[r])
				VP_REQUIRE(i_target(i) >= 0);
	int n0 = m.n;
	for (int r = 0; r < I_ROWS; r++)
		if (r < st.nrows) {
			struct vp_mrow *x = &m.r[m.n++];
			VP_REQUIRE(m.n <= VP_MAXROWS);
			x->deleted = false;
			for (int c = 0; c < VP_MAXCOLS; c++)
				x->c[c].null = true;
			for (int i = 0; i < I_COLS; i++)
				if (i < st.n[r]) {
					const struct i_val *v = &st.val[r][i];
					struct vp_cell *cell = &x->c[i_target(i)];
					const struct column *col = &w_table->columns[i_target(i)];
					cell->null = v->kind == I_NULL;
					cell->v = v->v;
					if (v->kind == I_TEXT && col->type != CT_VARCHAR)
						cell->v = i_date(v->s, col->type == CT_DATETIME);
					bool end = false;
					for (int k = 0; k < VP_MAXPREC; k++) {
						end = end || k >= I_STR || !v->s[k];
						cell->s[k] = end ? 0 : v->s[k];
					}
				}
		}
	struct query_output out;
	struct database db;
	out.n_rows_aff = 0;
	vp_oom_at = vp_choice(0, 12);
	bool oom = vp_oom_at > 0;
	vp_oom_n = 0;
	long live0 = vp_live;
	int blk0 = spec_blocks(w_table);
	int rc = executor_run_insertvals_stmt(&db, s, &out);
	bool failed = oom && vp_oom_n >= vp_oom_at;
	vp_oom_at = 0;
	VP_ENSURE((rc == MIDORIDB_OK) == !failed, "insert.ok: an accepted statement succeeds unless memory runs out");
	int got = spec_live(w_table), before = 0;
	for (int i = 0; i < VP_MAXROWS; i++)
		before += i < n0 && !m.r[i].deleted;
	if (rc == MIDORIDB_OK) {
		VP_ENSURE(out.n_rows_aff == st.nrows, "insert.number: the number of rows is reported");
		VP_ENSURE(got == before + want, "insert.rows: one row per value list");
	} else {
		VP_ENSURE(got >= before && got < before + want, "insert.fail: a failed statement is incomplete");
	}
	/* the rows there, in order, and the first of the new ones */
	m.n = n0 + (got - before);
	static bool keep[VP_MAXROWS];
	for (int i = 0; i < VP_MAXROWS; i++)
		keep[i] = i < n0 ? !m.r[i].deleted : i - n0 < got - before;
	VP_ENSURE(spec_holds(w_table, &m, keep), "insert.values: each value is in its column, NULL elsewhere, and the rows already there stay");
	int vc = 0;
	for (int c = 0; c < VP_MAXCOLS; c++)
		vc += c < w_table->column_count && w_table->columns[c].type == CT_VARCHAR;
	VP_ENSURE(vp_live == live0 + spec_blocks(w_table) - blk0 + vc * (got - before), "insert.leak: only pages and the values of the new rows are kept");
	VP_COVER("end");
}
