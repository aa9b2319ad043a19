/* C20 (run-time check): a statement with one fault is rejected and changes nothing; the same statement without it is accepted */
#include "sqlm.h"
static struct mtab t, u;
enum { F_TABLE, F_COLUMN, F_DUP, F_COUNT, F_TYPE, F_LONG, F_DATE, F_NULL, F_FUNC, F_N };
static int fault;
static bool done;

static bool now(int f)
{
	return fault == f && !done && rnd(2) && (done = true); /* at any of the places where it may be */
}
/* text of a value that does not suit the column: of another kind, too long, no date, or an expression nothing evaluates */
static bool out_bad(const struct mcol *c)
{
	if (now(F_TYPE)) {
		switch (c->type) {
		case CT_INTEGER: out(rnd(2) ? "'abc'" : rnd(2) ? "TRUE" : "1.5"); break;
		case CT_TINYINT: out(rnd(2) ? "'abc'" : rnd(2) ? "7" : "1.5"); break;
		case CT_DOUBLE: out(rnd(2) ? "'abc'" : "TRUE"); break;
		case CT_VARCHAR: out(rnd(2) ? "12" : rnd(2) ? "1.5" : "FALSE"); break;
		default: out(rnd(2) ? "20200101" : rnd(2) ? "TRUE" : "1.5");
		}
		return true;
	}
	if (now(F_FUNC)) {
		static const char *const fun[] = { "CURRENT_DATE", "CURRENT_TIMESTAMP", "CASE WHEN 1 = 1 THEN 2 END", "CASE 1 WHEN 1 THEN 2 ELSE 3 END" };
		out("%s", fun[rnd(4)]);
		return true;
	}
	if ((c->type == CT_DATE || c->type == CT_DATETIME) && now(F_DATE)) {
		static const char *bad[] = { "abc", "2020-13-01", "2020-01-32", "2020/01/01", "01-01-2020x", "2020-00-10", "20200101" };
		out("'%s%s'", bad[rnd(7)], c->type == CT_DATETIME && rnd(2) ? " 10:00:00" : "");
		return true;
	}
	return false;
}
static void out_set(const struct mcol *c)
{
	struct mval v = gen_val(c, c->nullable ? 4 : 0, true);
	if (out_bad(c))
		return;
	if (c->type == CT_VARCHAR && now(F_LONG)) {
		int n = c->prec + (rnd(2) ? 0 : rnd(100));
		out("'");
		for (int i = 0; i < n; i++)
			out("x");
		out("'");
	} else if (!c->nullable && now(F_NULL))
		out("NULL");
	else
		out_val(c, &v);
}
static void out_col(const struct mcol *c)
{
	if (now(F_COLUMN))
		out(strlen(c->name) > 120 || rnd(2) ? "nosuch" : rnd(2) ? "%sx" : "x%s", c->name);
	else
		out("%s", c->name);
}
/* a condition with a place for the fault */
static void out_faulty(bool sel)
{
	const struct mcol *c = &t.c[rnd(t.nc)];
	if (fault == F_TYPE && !done && chance(4)) {
		/* literals, or columns, of kinds that have nothing in common */
		static const char *const lit[] = { "5", "'abc'", "TRUE" };
		int a = rnd(3), b = (a + 1 + rnd(2)) % 3;
		const struct mcol *d = &t.c[rnd(t.nc)];
		if ((c->type == CT_VARCHAR) != (d->type == CT_VARCHAR) && rnd(2))
			out("%s = %s", c->name, d->name);
		else
			out("%s %s %s", lit[a], rnd(2) ? "=" : "<>", lit[b]);
		done = true;
		return;
	}
	bool qual = sel && rnd(2);
	if (qual)
		out(now(F_TABLE) ? "Tx." : "T.");
	int k = rnd(3);
	out_col(c);
	if (k == 0)
		out(rnd(2) ? " IS NULL" : " IS NOT NULL");
	else {
		struct mval v = gen_val(c, 0, true);
		out(k == 1 ? (c->type == CT_VARCHAR || c->type == CT_TINYINT || rnd(2) ? " = " : " < ") : " IN (");
		if (!out_bad(c))
			out_val(c, &v);
		if (k == 2) {
			out(", ");
			v = gen_val(c, 0, true);
			if (!out_bad(c))
				out_val(c, &v);
			out(")");
		}
	}
}
static void where(bool sel)
{
	if (chance(6))
		return;
	cstyle = sel;
	clitlit = false;
	out(" WHERE ");
	int at = rnd(4);
	if (at == 1 || at == 2) {
		out("(");
		out_cond(gen_where(), L_OR);
		out(rnd(2) ? ") AND " : ") OR ");
	}
	out_faulty(sel);
	if (at == 2 || at == 3) {
		out(rnd(2) ? " AND (" : " OR (");
		out_cond(gen_where(), L_OR);
		out(")");
	}
}

void harness(void)
{
	open_db();
	gen_schema(&t, "T", 1, chance(5) ? 20 : 5);
	gen_rows(&t, 12);
	store(&t, 4);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	ctab[0] = &t;
	nctab = 1;
	for (int round = 0; round < 4; round++) {
		fault = chance(6) ? -1 : rnd(F_N);
		done = false;
		int kind = chance(4) ? 4 + rnd(2) : rnd(4), rows = 1 + rnd(3);
		const char *tab = now(F_TABLE) ? (rnd(2) ? "nosuch" : "Tx") : "T";
		begin();
		if (kind == 0) {
			int list[MAXC], n = t.nc;
			for (int i = 0; i < n; i++)
				list[i] = i;
			out("INSERT INTO %s ", tab);
			if (chance(2)) {
				for (int i = n - 1; i > 0; i--) {
					int j = rnd(i + 1), x = list[i];
					list[i] = list[j];
					list[j] = x;
				}
				int keep = 0;
				for (int i = 0; i < n; i++)
					if ((t.c[list[i]].nullable && chance(3) && n > 1) ? false : !(!t.c[list[i]].nullable && chance(3) && now(F_NULL)))
						list[keep++] = list[i];
				if (!keep)
					list[keep++] = 0;
				n = keep;
				out("(");
				for (int i = 0; i < n; i++) {
					out(i ? ", " : "");
					if (i && now(F_DUP))
						out("%s", t.c[list[rnd(i)]].name);
					else
						out_col(&t.c[list[i]]);
				}
				out(") ");
				if (fault == F_NULL)
					done = false;
				for (int c = 0; c < t.nc; c++) { /* the one column kept may not be the one that has to be there */
					bool there = t.c[c].nullable;
					for (int i = 0; i < n; i++)
						there = there || list[i] == c;
					VP_REQUIRE(there || fault == F_NULL || fault == F_DUP || fault == F_COLUMN);
					if (!there)
						done = true;
				}
			}
			out("VALUES ");
			for (int r = 0; r < rows; r++) {
				int m = n + (chance(rows) && now(F_COUNT) ? (n > 1 && rnd(2) ? -1 : 1) : 0);
				out(r ? ", (" : "(");
				for (int i = 0; i < m; i++) {
					out(i ? ", " : "");
					if (r == rows - 1 || rnd(2))
						out_set(&t.c[list[i < n ? i : 0]]);
					else {
						struct mval v = gen_val(&t.c[list[i < n ? i : 0]], 0, true);
						out_val(&t.c[list[i < n ? i : 0]], &v);
					}
				}
				out(")");
			}
		} else if (kind == 1) {
			out("UPDATE %s SET ", tab);
			int n = 1 + rnd(t.nc > 3 ? 3 : t.nc);
			for (int i = 0; i < n; i++) {
				out(i ? ", " : "");
				out_col(&t.c[i]);
				out(" = ");
				out_set(&t.c[i]);
			}
			where(false);
		} else if (kind == 2) {
			out("DELETE FROM %s", tab);
			where(false);
		} else if (kind == 4) { /* two tables: the names are where they may be wrong */
			const struct mcol *a = &t.c[rnd(t.nc)], *b = &u.c[rnd(u.nc)];
			bool alike = a->type == b->type;
			if (fault == F_TYPE && !done && (a->type == CT_VARCHAR) != (b->type == CT_VARCHAR) && a->type != CT_DATE && a->type != CT_DATETIME && b->type != CT_DATE && b->type != CT_DATETIME)
				done = alike = true;
			out("SELECT ");
			if (rnd(2))
				out("*");
			else {
				out(now(F_TABLE) ? "Tx." : "T.");
				out_col(a);
				out(rnd(2) && now(F_TABLE) ? ", T3." : ", T2.");
				out_col(b);
			}
			if (alike && (done || rnd(3))) {
				out(" FROM %s JOIN %s ON ", tab, chance(2) && now(F_TABLE) ? "T3" : "T2");
				out(chance(2) && now(F_TABLE) ? "Tx." : "T.");
				out_col(a);
				out(" = T2.");
				out_col(b);
			} else
				out(" FROM %s, %s", tab, now(F_TABLE) ? "T3" : "T2");
		} else if (kind == 5) { /* groups */
			int n = 1 + rnd(t.nc > 3 ? 3 : t.nc), f = rnd(n), g = rnd(2);
			out("SELECT ");
			for (int i = 0; i < n; i++) {
				out(i ? ", " : "");
				if (i == f && !g)
					out_col(&t.c[i]);
				else
					out("%s", t.c[i].name);
			}
			out(rnd(2) ? ", COUNT(*) FROM %s" : " FROM %s", tab);
			if (rnd(2))
				where(true);
			out(" GROUP BY ");
			for (int i = 0; i < n; i++) {
				out(i ? ", " : "");
				if (i == f && g)
					out_col(&t.c[i]);
				else
					out("%s", t.c[i].name);
			}
		} else {
			out("SELECT ");
			if (rnd(2))
				out("*");
			else
				for (int i = 0, n = 1 + rnd(t.nc); i < n; i++) {
					out(i ? ", " : "");
					out_col(&t.c[i]);
				}
			out(" FROM %s", tab);
			where(true);
		}
		out(";");
		bool bad = done;
		struct query_output *o = run_sql();
		if (bad) {
			sql_ensure(o->status == ST_ERROR, "reject: a statement with a fault is rejected");
			query_free(o);
		} else {
			sql_ensure(o->status != ST_ERROR, "accept: a statement without a fault is accepted");
			query_free(o);
			if (kind < 3)
				break; /* its effect is the business of C12, C13 and C15 */
		}
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "reject.leak: nothing stays allocated");
	VP_COVER("end");
}
