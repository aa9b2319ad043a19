/* C18 (run-time check of the statement-level contract): an inner join returns exactly the matching pairs */
#include "sqlm.h"
static struct mtab t, u;

void harness(void)
{
	static int pa[MAXR * 40], pb[MAXR * 40];
	open_db();
	gen_schema(&t, chance(2) ? "A" : "tbl_1", 1, chance(6) ? 14 : 4);
	gen_schema(&u, chance(2) ? "B" : "tbl_12", 1, chance(6) ? 14 : 4);
	if (chance(2))
		for (int i = 0; i < t.nc && i < u.nc; i++) /* columns to compare */
			if (chance(2))
				u.c[i].type = t.c[i].type, u.c[i].prec = t.c[i].prec;
	gen_rows(&t, chance(6) ? 300 : 12);
	gen_rows(&u, t.n > 40 ? 12 : 30);
	if (chance(2)) { /* values in common */
		for (int r = 0; r < u.n && t.n; r++)
			for (int i = 0; i < u.nc; i++)
				for (int k = 0; k < t.nc; k++)
					if (u.c[i].type == t.c[k].type && u.c[i].prec == t.c[k].prec && u.c[i].nullable == t.c[k].nullable && chance(2))
						u.r[r][i] = t.r[rnd(t.n)][k];
	}
	struct mtab *x = &t, *y = &u;
	if (chance(2))
		x = &u, y = &t;
	store(&t, rnd(3) ? 4 : 0);
	store(&u, rnd(3) ? 4 : 0);
	for (int round = 0; round < 2; round++) {
		bool sel[2][MAXC] = {0};
		int nsel = 0;
		ctab[0] = x;
		ctab[1] = y;
		nctab = 2;
		cstyle = 1;
		begin();
		out("SELECT ");
		if (chance(3)) {
			out("*");
			for (int k = 0; k < 2; k++)
				for (int i = 0; i < ctab[k]->nc; i++, nsel++)
					sel[k][i] = true;
		} else {
			int n = 1 + rnd(x->nc + y->nc);
			for (int i = 0; i < n; i++) {
				int k = rnd(2), c = rnd(ctab[k]->nc);
				if (sel[k][c])
					continue;
				sel[k][c] = true;
				if (nsel++)
					out(", ");
				if (!bare_ok(k, c) || chance(2))
					out("%s.", ctab[k]->name);
				out("%s", ctab[k]->c[c].name);
			}
		}
		struct cond *on = NULL, *c = NULL;
		cpooln = 0;
		if (chance(3)) {
			out(" FROM %s, %s", x->name, y->name);
		} else {
			out(" FROM %s %sJOIN %s ON ", x->name, chance(2) ? "INNER " : "", y->name);
			cmponly = true;
			clitlit = true;
			on = gen_cond(rnd(3));
			out_cond(on, L_OR);
			cmponly = false;
		}
		if (!on || chance(2)) {
			clitlit = true;
			c = gen_cond(rnd(3));
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		out(";");
		int n = 0;
		for (int a = 0; a < x->n; a++)
			for (int b = 0; b < y->n; b++) {
				const struct mval *rows[2] = { x->r[a], y->r[b] };
				if ((!on || truth(on, rows)) && (!c || truth(c, rows))) {
					pa[n] = a;
					pb[n++] = b;
				}
			}
		struct query_output *o = run_sql();
		sql_ensure(o->status == ST_OK_WITH_RESULTS, "join.ok: a legal SELECT is executed");
		sql_ensure(o->results.table->column_count == nsel, "join.columns: exactly the selected columns");
		int at[2][MAXC];
		for (int k = 0; k < 2; k++)
			for (int i = 0; i < ctab[k]->nc; i++)
				if (sel[k][i]) {
					at[k][i] = res_col(o, ctab[k]->name, ctab[k]->c[i].name);
					sql_ensure(at[k][i] >= 0, "join.column: each selected column is there under its name");
				}
		int got = 0, from = 0;
		static bool used[MAXR * 40];
		memset(used, 0, n * sizeof(*used));
		while (query_cur_step(&o->results) == MIDORIDB_ROW) {
			struct mval v[2][MAXC];
			for (int k = 0; k < 2; k++)
				for (int i = 0; i < ctab[k]->nc; i++)
					if (sel[k][i])
						v[k][i] = res_val(o, at[k][i]);
			int p;
			for (p = from; p < n; p++) {
				bool same = !used[p];
				for (int k = 0; k < 2 && same; k++)
					for (int i = 0; i < ctab[k]->nc && same; i++)
						if (sel[k][i])
							same = val_same(ctab[k]->c[i].type, &v[k][i], &ctab[k]->r[k ? pb[p] : pa[p]][i]);
				if (same)
					break;
			}
			sql_ensure(p < n, "join.rows: each result row is a matching pair, with the values of both rows");
			used[p] = true;
			while (from < n && used[from])
				from++;
			got++;
		}
		sql_ensure(got == n, "join.rows: every matching pair is returned");
		query_free(o);
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "join.leak: nothing stays allocated");
	VP_COVER("end");
}
