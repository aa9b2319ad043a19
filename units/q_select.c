/* C14 (run-time check of the statement-level contract): SELECT from one table returns exactly the matching rows */
#include "sqlm.h"
static struct mtab t, u;

void harness(void)
{
	open_db();
	gen_schema(&t, chance(20) ? "a_table_with_quite_a_long_name_that_makes_qualified_column_names_exceed_the_limit_of_one_hundred_and_twenty_seven_char" : chance(2) ? "T" : "tbl_1", 1, chance(5) ? 20 : 5);
	gen_rows(&t, chance(4) ? 200 : 12);
	store(&t, rnd(3) ? 4 : 0);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	for (int round = 0; round < 2; round++) {
		bool sel[MAXC] = {0};
		int nsel = 0;
		ctab[0] = &t;
		nctab = 1;
		cstyle = 1;
		clitlit = true;
		begin();
		out("SELECT ");
		if (chance(3)) {
			out("*");
			for (int i = 0; i < t.nc; i++)
				sel[i] = true;
			nsel = t.nc;
		} else {
			int n = 1 + rnd(t.nc);
			for (int i = 0; i < n; i++) {
				int k = rnd(t.nc);
				if (sel[k])
					continue;
				sel[k] = true;
				if (nsel++)
					out(", ");
				if (chance(2))
					out("%s.", t.name);
				out("%s", t.c[k].name);
			}
		}
		out(" FROM %s", t.name);
		struct cond *c = chance(6) ? NULL : gen_where();
		if (c) {
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		out(";");
		struct query_output *o = run_sql();
		sql_ensure(o->status == ST_OK_WITH_RESULTS, "select.ok: a legal SELECT is executed");
		sql_ensure(o->results.table->column_count == nsel, "select.columns: exactly the selected columns");
		int at[MAXC];
		for (int i = 0; i < t.nc; i++)
			if (sel[i]) {
				at[i] = res_col(o, t.name, t.c[i].name);
				sql_ensure(at[i] >= 0, "select.column: each selected column is there under its name");
				sql_ensure(o->results.table->columns[at[i]].type == t.c[i].type, "select.type: with its type");
			}
		for (int r = 0; r < t.n; r++) {
			const struct mval *rows[1] = { t.r[r] };
			if (c && !truth(c, rows))
				continue;
			sql_ensure(query_cur_step(&o->results) == MIDORIDB_ROW, "select.rows: every row that satisfies the condition is returned");
			for (int i = 0; i < t.nc; i++)
				if (sel[i]) {
					struct mval v = res_val(o, at[i]);
					sql_ensure(val_same(t.c[i].type, &v, &t.r[r][i]), "select.value: with the values of the selected columns");
				}
		}
		sql_ensure(query_cur_step(&o->results) == MIDORIDB_OK, "select.rows: and no other");
		query_free(o);
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "select.leak: nothing stays allocated");
	VP_COVER("end");
}
