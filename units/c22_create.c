/* C22: executing an accepted CREATE TABLE adds exactly the declared table, or leaves the one there alone */
#include "w_crt.h"

void harness(void)
{
	struct database db;
	struct query_output out;
	struct ast_crt_create_node *s = c_tree();
	VP_REQUIRE(st.table < C_VALID); /* what the checks let through (C20) */
	bool race = w_exists && !st.ine; /* taken between the check and the execution */
	bool e = w_exists;
	w_exists = false;
	VP_REQUIRE(c_valid());
	w_exists = e;
	out.n_rows_aff = 99;
	vp_oom_at = vp_choice(0, 5);
	bool oom = vp_oom_at > 0;
	vp_oom_n = 0;
	long live0 = vp_live;
	int rc = executor_run_create_stmt(&db, s, &out);
	bool failed = oom && vp_oom_n >= vp_oom_at;
	vp_oom_at = 0;
	VP_ENSURE((rc == MIDORIDB_OK) == !(failed || race), "create.ok: executed unless the name is taken or memory runs out");
	VP_ENSURE(rc != MIDORIDB_OK || out.n_rows_aff == 0, "create.number: no rows are reported");
	if (rc != MIDORIDB_OK || w_exists) {
		VP_ENSURE(!w_added && vp_live == live0, "create.nothing: nothing is added or kept");
		VP_ENSURE(!(w_exists && st.ine) || w_adds == 0, "create.exists: an existing table is left alone");
	} else {
		struct table *t = w_added;
		VP_ENSURE(t != NULL && w_adds == 1, "create.added: one table is added");
		VP_ENSURE(vp_live == live0 + 2, "create.leak: only the table is kept");
		VP_ENSURE(strcmp(t->name, c_names[st.table]) == 0, "create.name: under the declared name");
		VP_ENSURE(t->datablock_head->next == t->datablock_head && t->free_dtbkl_offset == 0, "create.empty: without rows");
		int nc = 0;
		for (int i = 0; i < C_MAX; i++)
			if (i < st.n && st.d[i].kind == 0) {
				const struct c_def *d = &st.d[i];
				struct column *c = &t->columns[nc];
				bool pk = d->pk, idx = false;
				for (int k = 0; k < C_MAX; k++)
					for (int j = 0; j < C_IDX; j++)
						if (k < st.n && st.d[k].kind && j < st.d[k].n && st.d[k].idx[j] == d->name) {
							pk = pk || st.d[k].kind == 1;
							idx = idx || st.d[k].kind == 2;
						}
				VP_ENSURE(nc < t->column_count, "create.columns: no declared column is missing");
				VP_ENSURE(strcmp(c->name, c_names[d->name]) == 0, "create.column: each column keeps its name and place");
				VP_ENSURE(c->type == (enum COLUMN_TYPE)d->type && c->precision == d->prec, "create.type: each column has its type and size");
				VP_ENSURE(c->nullable == (d->null && !pk), "create.null: each column takes NULL exactly as declared");
				VP_ENSURE(c->unique == (d->uniq || pk) && c->primary_key == pk && c->auto_inc == d->inc, "create.attr: keys and attributes as declared");
				nc++;
			}
		VP_ENSURE(t->column_count == nc, "create.columns: no column is added");
	}
	VP_COVER("end");
}
