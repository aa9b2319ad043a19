/* C23 (run-time check): statements under failing allocations report an error, release nothing twice and leave the database usable */
#include <parser/syntax.h>
static int oom_at, armed;
static int q_parse(char *in, void *out)
{
	int r = syntax_parse(in, out);
	vp_oom_n = 0;
	vp_oom_at = oom_at; /* from here on */
	return r;
}
#define syntax_parse(in, out) q_parse(in, out)
#include "../src/engine/query.c"
#undef syntax_parse
#include "sqlm.h"
static struct mtab t, u;

static void values(struct mtab *x, int n)
{
	for (int r = 0; r < n; r++) {
		out(r ? ", (" : "(");
		for (int i = 0; i < x->nc; i++) {
			struct mval v = gen_val(&x->c[i], x->c[i].nullable ? 4 : 0, true);
			out(i ? ", " : "");
			if (x->c[i].type == CT_INTEGER && !v.null && chance(3))
				out("(%d + 2) * 3", rnd(100));
			else
				out_val(&x->c[i], &v);
		}
		out(")");
	}
	out(";");
}
static int count(const struct mtab *x)
{
	struct table *y = database_table_get(&db, (char*)x->name);
	size_t len = row_len(x);
	int n = 0;
	VP_ENSURE(y != NULL, "oom.table: the table is still there");
	for (struct list_head *p = y->datablock_head->next; p != y->datablock_head; p = p->next) {
		struct datablock *b = container_of(p, struct datablock, head);
		for (size_t off = 0; off + len < DATABLOCK_PAGE_SIZE; off += len) {
			struct row *w = (struct row*)&b->data[off];
			struct mval v[MAXC];
			if (w->flags.empty || w->flags.deleted)
				continue;
			n++;
			read_row(w, x, v);
			for (int c = 0; c < x->nc; c++)
				if (x->c[c].type == CT_VARCHAR && !v[c].null)
					n += strlen(v[c].s) == (size_t)-1; /* reads it */
		}
	}
	return n;
}

void harness(void)
{
	open_db();
	gen_schema(&t, "T", 1, chance(5) ? 20 : 5);
	gen_rows(&t, 12);
	store(&t, 4);
	gen_schema(&u, "T2", 1, 3);
	gen_rows(&u, 5);
	store(&u, 0);
	ctab[0] = &t;
	nctab = 1;
	clitlit = true;
	int kind = rnd(5), n = 1 + rnd(3), setc = 0;
	struct mval setv = {0};
	struct cond *c = kind < 2 || chance(6) ? NULL : gen_where();
	cstyle = kind == 4;
	begin();
	if (kind == 0) {
		out("INSERT INTO T ");
		if (chance(3)) {
			out("(");
			for (int i = 0; i < t.nc; i++)
				out(i ? ", %s" : "%s", t.c[i].name);
			out(") ");
		}
		out("VALUES ");
		values(&t, n);
	} else if (kind == 1) {
		static const char *ty[] = { "INT", "TINYINT", "DOUBLE", "DATE", "DATETIME", "VARCHAR(20)" };
		out("CREATE TABLE %s%s (", chance(4) ? "IF NOT EXISTS " : "", "NEWTAB");
		for (int i = 0; i < n; i++)
			out("%sc%d %s%s", i ? ", " : "", i, ty[rnd(6)], chance(3) ? " NOT NULL" : "");
		if (chance(3))
			out(", PRIMARY KEY (c0)");
		if (chance(3))
			out(", INDEX (c0)");
		out(");");
	} else {
		if (kind == 2)
			out("DELETE FROM T");
		else if (kind == 3) {
			setc = rnd(t.nc);
			setv = gen_val(&t.c[setc], t.c[setc].nullable ? 3 : 0, true);
			out("UPDATE T SET %s = ", t.c[setc].name);
			out_val(&t.c[setc], &setv);
		} else
			out(chance(4) ? "SELECT COUNT(*) FROM T" : "SELECT * FROM T");
		if (c) {
			out(" WHERE ");
			out_cond(c, L_OR);
		}
		out(";");
	}
	oom_at = chance(12) ? 0 : 1 + rnd(chance(3) ? 400 : 60);
	struct query_output *o = run_sql();
	bool failed = oom_at && vp_oom_n >= oom_at;
	vp_oom_at = 0;
	oom_at = 0;
	if (!failed)
		sql_ensure(o->status != ST_ERROR, "oom.ok: a legal statement succeeds while memory lasts");
	bool err = o->status == ST_ERROR;
	query_free(o);
	check_table(&u);
	int rows = count(&t);
	if (!err && (kind == 2 || kind == 3)) { /* an allocation it can do without: it is done in full */
		int k = 0;
		for (int r = 0; r < t.n; r++) {
			const struct mval *rows[1] = { t.r[r] };
			bool hit = !c || truth(c, rows);
			if (kind == 3 && hit)
				t.r[r][setc] = setv;
			if (kind == 3 || !hit)
				memmove(t.r[k++], t.r[r], sizeof(t.r[r]));
		}
		t.n = k;
	}
	if (kind != 0)
		check_table(&t);
	if (kind == 0)
		sql_ensure(err ? rows >= t.n && rows < t.n + n : rows == t.n + n, "oom.rows: a failed INSERT is reported");
	struct table *nt = database_table_get(&db, "NEWTAB");
	sql_ensure((nt != NULL) == (kind == 1 && !err), "oom.create: a table is there exactly if no error was reported");
	/* and the database still works */
	begin();
	out("INSERT INTO T2 VALUES ");
	int at = u.n;
	for (int i = 0; i < u.nc; i++) {
		u.r[at][i] = gen_val(&u.c[i], u.c[i].nullable ? 4 : 0, true);
		out(i ? ", " : "(");
		out_val(&u.c[i], &u.r[at][i]);
	}
	out(");");
	o = run_sql();
	sql_ensure(o->status == ST_OK_EXECUTED, "oom.after: the next statement succeeds");
	query_free(o);
	u.n++;
	check_table(&u);
	database_close(&db);
	if (!failed || kind != 4)
		VP_ENSURE(vp_live == 0, "oom.leak: nothing stays allocated");
	VP_COVER("end");
}
