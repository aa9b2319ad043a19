/* C17 (run-time check of the statement-level contract): COUNT(*) and GROUP BY */
#include "sqlm.h"
static struct mtab t;

void harness(void)
{
	static int first[MAXR], cnt[MAXR];
	open_db();
	gen_schema(&t, chance(2) ? "T" : "tbl_1", 1, chance(5) ? 12 : 4);
	gen_rows(&t, chance(4) ? 300 : 25);
	if (chance(2)) /* few distinct rows */
		for (int r = 2; r < t.n; r++)
			if (!chance(8))
				memcpy(t.r[r], t.r[rnd(2)], sizeof(t.r[r]));
	store(&t, rnd(3) ? 4 : 0);
	for (int round = 0; round < 2; round++) {
		bool grp[MAXC] = {0}, sel[MAXC] = {0}, qual[MAXC];
		for (int i = 0; i < t.nc; i++)
			qual[i] = rnd(2);
		int ng = 0, nsel = 0, gorder[MAXC];
		bool count = !chance(3);
		ctab[0] = &t;
		nctab = 1;
		cstyle = 1;
		clitlit = true;
		if (!chance(4)) {
			int n = 1 + rnd(t.nc < 4 ? t.nc : 4);
			for (int i = 0; i < n; i++) {
				int k = rnd(t.nc);
				if (!grp[k])
					gorder[ng++] = k;
				grp[k] = true;
			}
		} else
			count = true;
		begin();
		out("SELECT ");
		bool first_item = true, cdone = false;
		for (int i = 0; i < ng; i++) {
			if (count && !cdone && chance(3)) {
				out(first_item ? "COUNT(*)" : ", COUNT(*)");
				first_item = false;
				cdone = true;
			}
			if (chance(4) && (nsel || count || i + 1 < ng))
				continue;
			out(first_item ? "" : ", ");
			if (qual[gorder[i]]) /* written the same way in both places */
				out("%s.", t.name);
			out("%s", t.c[gorder[i]].name);
			first_item = false;
			sel[gorder[i]] = true;
			nsel++;
		}
		if (count && !cdone)
			out(first_item ? "COUNT(*)" : ", COUNT(*)");
		out(" FROM %s", t.name);
		struct cond *c = chance(2) ? NULL : gen_where();
		if (c) {
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		for (int i = 0; i < ng; i++) {
			out(i ? ", " : " GROUP BY ");
			if (qual[gorder[i]]) /* written the same way in both places */
				out("%s.", t.name);
			out("%s", t.c[gorder[i]].name);
		}
		out(";");
		/* the groups */
		int n = 0, total = 0;
		for (int r = 0; r < t.n; r++) {
			const struct mval *rows[1] = { t.r[r] };
			if (c && !truth(c, rows))
				continue;
			total++;
			int g;
			for (g = 0; g < n; g++) {
				bool same = true;
				for (int k = 0; k < ng; k++)
					same = same && val_same(t.c[gorder[k]].type, &t.r[first[g]][gorder[k]], &t.r[r][gorder[k]]);
				if (same)
					break;
			}
			if (g == n) {
				first[n] = r;
				cnt[n++] = 0;
			}
			cnt[g]++;
		}
		struct query_output *o = run_sql();
		sql_ensure(o->status == ST_OK_WITH_RESULTS, "group.ok: a legal SELECT is executed");
		sql_ensure(o->results.table->column_count == nsel + count, "group.columns: exactly the selected columns");
		int at[MAXC], cat = count ? res_col(o, NULL, "COUNT(*)") : -1;
		sql_ensure(!count || cat >= 0, "group.column: the count is there");
		for (int i = 0; i < t.nc; i++)
			if (sel[i]) {
				at[i] = res_col(o, t.name, t.c[i].name);
				sql_ensure(at[i] >= 0, "group.column: each selected column is there under its name");
			}
		if (total == 0 && ng == 0) { /* COUNT(*) over no row is not specified */
			query_free(o);
			continue;
		}
		static bool seen[MAXR];
		memset(seen, 0, sizeof(seen));
		int got = 0;
		while (query_cur_step(&o->results) == MIDORIDB_ROW) {
			struct mval v[MAXC], k = {0};
			int g;
			for (int i = 0; i < t.nc; i++)
				if (sel[i])
					v[i] = res_val(o, at[i]);
			if (count) {
				k = res_val(o, cat);
				sql_ensure(!k.null, "group.count: a count is not NULL");
			}
			for (g = 0; g < n; g++) {
				bool same = !seen[g] && (!count || cnt[g] == k.i);
				for (int i = 0; i < t.nc; i++)
					if (sel[i])
						same = same && val_same(t.c[i].type, &t.r[first[g]][i], &v[i]);
				if (same)
					break;
			}
			sql_ensure(g < n, "group.rows: each result row is one group, with its values and its number of rows");
			seen[g] = true;
			got++;
		}
		sql_ensure(got == n, "group.rows: every group is returned");
		query_free(o);
		check_table(&t);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "group.leak: nothing stays allocated");
	VP_COVER("end");
}
