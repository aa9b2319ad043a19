/* C15, C16 (run-time check of the statement-level contracts): INSERT puts each value in its column, arithmetic is exact */
#include "sqlm.h"
static struct mtab t, u;

/* a random expression over the type's operands; text goes to sql, the value is returned */
static struct mval expr_i(int depth)
{
	struct mval v = {0};
	if (depth == 0 || chance(4)) {
		v.i = chance(3) ? gen_i64() : rnd(2000) - 1000;
		out("%ld", (long)v.i);
		return v;
	}
	if (chance(6)) {
		int at = sqln;
		out("-(");
		v = expr_i(depth - 1);
		out(")");
		if (!v.null && v.i == INT64_MIN) { /* the result has to fit */
			sqln = at;
			out("7");
			v.i = 7;
			return v;
		}
		v.i = -v.i;
		return v;
	}
	int op = rnd(5), at = sqln;
	/* the left operand needs no parentheses when it binds at least as tightly */
	out("(");
	struct mval a = expr_i(depth - 1);
	out(") %c (", "+-*/%"[op]);
	struct mval b = expr_i(depth - 1);
	out(")");
	v.null = a.null || b.null;
	if (v.null)
		return v;
	bool over = false;
	switch (op) {
	case 0: over = __builtin_add_overflow(a.i, b.i, &v.i); break;
	case 1: over = __builtin_sub_overflow(a.i, b.i, &v.i); break;
	case 2: over = __builtin_mul_overflow(a.i, b.i, &v.i); break;
	default:
		if (b.i == 0)
			v.null = true;
		else if (b.i == -1 && a.i == INT64_MIN)
			over = true;
		else
			v.i = op == 3 ? a.i / b.i : a.i % b.i;
	}
	if (over) {
		sqln = at;
		out("-3");
		v.i = -3;
		v.null = false;
	}
	return v;
}
static struct mval expr_d(int depth)
{
	struct mval v = {0};
	struct mcol c = { .type = CT_DOUBLE };
	if (depth == 0 || chance(4)) {
		v.d = gen_dbl();
		out_val(&c, &v);
		return v;
	}
	if (chance(6)) {
		out("-(");
		v = expr_d(depth - 1);
		out(")");
		v.d = -v.d;
		return v;
	}
	int op = rnd(5), at = sqln;
	out("(");
	struct mval a = expr_d(depth - 1);
	out(") %c (", "+-*/%"[op]);
	struct mval b = expr_d(depth - 1);
	out(")");
	v.null = a.null || b.null;
	if (v.null)
		return v;
	switch (op) {
	case 0: v.d = a.d + b.d; break;
	case 1: v.d = a.d - b.d; break;
	case 2: v.d = a.d * b.d; break;
	case 3: v.null = b.d == 0; if (!v.null) v.d = a.d / b.d; break;
	default: v.null = trunc(b.d) == 0; if (!v.null) v.d = fmod(trunc(a.d), trunc(b.d));
	}
	if (!v.null && !isfinite(v.d)) { /* the result has to fit */
		sqln = at;
		out("0.25");
		v.d = 0.25;
	}
	return v;
}
/* a flat chain: the usual precedence, left to right */
static struct mval chain_i(void)
{
	int n = 2 + rnd(4), at = sqln;
	int64_t x[6];
	int op[6];
	for (int i = 0; i < n; i++) {
		x[i] = rnd(2000) - 1000;
		op[i] = rnd(5);
		if (i)
			out(" %c ", "+-*/%"[op[i]]);
		out("%ld", (long)x[i]);
	}
	struct mval v = {0};
	int64_t sum = 0, term = x[0];
	int sign = 1;
	for (int i = 1; i < n; i++) {
		if (op[i] <= 1) {
			sum += sign * term;
			sign = op[i] ? -1 : 1;
			term = x[i];
		} else if (op[i] == 2) {
			term *= x[i];
		} else if (x[i] == 0) {
			v.null = true;
		} else
			term = op[i] == 3 ? term / x[i] : term % x[i];
	}
	v.i = sum + sign * term;
	(void)at;
	return v;
}

void harness(void)
{
	open_db();
	gen_schema(&t, chance(2) ? "T" : "tbl_1", 1, chance(5) ? 20 : 5);
	gen_rows(&t, chance(4) ? 100 : 12);
	store(&t, rnd(3) ? 4 : 0);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	for (int round = 0; round < 3; round++) {
		int ord[MAXC], n = 0;
		bool list = chance(2), bad = false;
		begin();
		out("INSERT %s%s ", chance(4) ? "" : "INTO ", t.name);
		for (int i = 0; i < t.nc; i++)
			if (!list || !t.c[i].nullable || chance(2))
				ord[n++] = i;
		if (list && n == 0)
			ord[n++] = rnd(t.nc);
		if (list) {
			for (int i = n - 1; i > 0; i--) {
				int j = rnd(i + 1), x = ord[i];
				ord[i] = ord[j];
				ord[j] = x;
			}
			for (int i = 0; i < n; i++)
				out(i ? ", %s" : "(%s", t.c[ord[i]].name);
			out(") ");
		}
		out("VALUES ");
		int rows = 1 + rnd(chance(6) ? 40 : 4);
		for (int r = 0; r < rows; r++) {
			struct mval *w = t.r[t.n + r];
			out(r ? ", (" : "(");
			for (int c = 0; c < t.nc; c++) {
				memset(&w[c], 0, sizeof(w[c]));
				w[c].null = true;
			}
			for (int i = 0; i < n; i++) {
				struct mcol *c = &t.c[ord[i]];
				out(i ? ", " : "");
				if (c->type == CT_INTEGER && chance(2))
					w[ord[i]] = chance(3) ? chain_i() : expr_i(1 + rnd(4));
				else if (c->type == CT_DOUBLE && chance(2))
					w[ord[i]] = expr_d(1 + rnd(4));
				else {
					w[ord[i]] = gen_val(c, c->nullable ? 4 : 0, true);
					out_val(c, &w[ord[i]]);
				}
				if (w[ord[i]].null && !c->nullable)
					bad = true;
			}
			out(")");
		}
		out(";");
		struct query_output *o = run_sql();
		if (bad) {
			sql_ensure(o->status == ST_ERROR, "insert.null: NULL for a NOT NULL column is rejected");
		} else {
			sql_ensure(o->status == ST_OK_EXECUTED, "insert.ok: a legal INSERT is executed");
			sql_ensure(o->n_rows_aff == (size_t)rows, "insert.count: reports the number of rows it added");
			t.n += rows;
		}
		query_free(o);
		check_table(&t);
		check_table(&u);
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "insert.leak: nothing stays allocated");
	VP_COVER("end");
}
