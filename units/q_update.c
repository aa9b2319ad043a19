/* C13 (run-time check of the statement-level contract): UPDATE changes exactly the named columns of the selected rows */
#include "sqlm.h"
static struct mtab t, u;

void harness(void)
{
	open_db();
	gen_schema(&t, chance(2) ? "T" : "tbl_1", 1, chance(5) ? 20 : 5);
	gen_rows(&t, chance(4) ? 300 : 12);
	store(&t, rnd(3) ? 4 : 0);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	for (int round = 0; round < 3; round++) {
		bool set[MAXC] = {0};
		struct mval v[MAXC];
		ctab[0] = &t;
		nctab = 1;
		cstyle = 0;
		clitlit = true;
		struct cond *c = chance(8) ? NULL : gen_where();
		begin();
		out("UPDATE %s SET ", t.name);
		int n = 1 + rnd(t.nc > 4 ? 4 : t.nc), first = 1;
		for (int i = 0; i < n; i++) {
			int k = rnd(t.nc);
			if (set[k])
				continue;
			set[k] = true;
			v[k] = gen_val(&t.c[k], t.c[k].nullable ? 3 : 0, true);
			out(first ? "%s = " : ", %s = ", t.c[k].name);
			first = 0;
			out_val(&t.c[k], &v[k]);
		}
		if (c) {
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		out(";");
		struct query_output *o = run_sql();
		sql_ensure(o->status == ST_OK_EXECUTED, "update.ok: a legal UPDATE is executed");
		int hit = 0;
		for (int r = 0; r < t.n; r++) {
			const struct mval *rows[1] = { t.r[r] };
			if (c && !truth(c, rows))
				continue;
			hit++;
			for (int k = 0; k < t.nc; k++)
				if (set[k])
					t.r[r][k] = v[k];
		}
		sql_ensure(o->n_rows_aff == (size_t)hit, "update.count: reports the number of rows it changed");
		query_free(o);
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "update.leak: nothing stays allocated");
	VP_COVER("end");
}
