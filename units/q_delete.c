/* C12 (run-time check of the statement-level contract): DELETE removes exactly the selected rows */
#include "sqlm.h"
static struct mtab t, u;

void harness(void)
{
	open_db();
	gen_schema(&t, chance(2) ? "T" : "tbl_1", 1, chance(5) ? 20 : 5);
	gen_rows(&t, chance(4) ? 300 : 12);
	store(&t, rnd(3) ? 4 : 0);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	for (int round = 0; round < 2; round++) {
		ctab[0] = &t;
		nctab = 1;
		cstyle = 0;
		clitlit = true;
		struct cond *c = chance(8) ? NULL : gen_where();
		begin();
		out("DELETE FROM %s", t.name);
		if (c) {
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		out(";");
		struct query_output *o = run_sql();
		sql_ensure(o->status == ST_OK_EXECUTED, "delete.ok: a legal DELETE is executed");
		int k = 0, gone = 0;
		for (int r = 0; r < t.n; r++) {
			const struct mval *rows[1] = { t.r[r] };
			if (!c || truth(c, rows))
				gone++;
			else
				memmove(t.r[k++], t.r[r], sizeof(t.r[r]));
		}
		t.n = k;
		sql_ensure(o->n_rows_aff == (size_t)gone, "delete.count: reports the number of rows it removed");
		query_free(o);
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "delete.leak: nothing stays allocated");
	VP_COVER("end");
}
