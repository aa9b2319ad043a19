/*
 * Reference semantics of the statements, and generators of tables, conditions and statement texts.
 * The model is a plain list of rows; nothing of the code under test is used to compute it.
 */
#ifndef SQLM_H_
#define SQLM_H_
#define _GNU_SOURCE
#include <time.h>
#include <math.h>
#include <stdarg.h>
#include <engine/query.h>
#include <parser/ast.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <primitive/datablock.h>

#define MAXC 24
#define MAXR 420
struct mcol { char name[128]; int type, prec; bool nullable; };
struct mval { bool null; int64_t i; double d; const char *s; };
struct mtab { char name[128]; int nc, n; struct mcol c[MAXC]; struct mval r[MAXR][MAXC]; bool in_db; };

static struct database db;

#define rnd(n) ((int)vp_range(0, (n) - 1))
#define chance(k) (rnd(k) == 0)

/* ---- text ---- */
static char sql[1 << 18];
static int sqln;
static void out(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	sqln += vsnprintf(sql + sqln, sizeof(sql) - sqln, f, ap);
	va_end(ap);
}
static void begin(void) { sqln = 0; sql[0] = 0; }

/* ---- values ---- */
static char strpool[10][400];
static void gen_pool(void)
{
	static const char *fixed[6] = { "a", "b", "ab", "abc", "A", "b a" };
	for (int i = 0; i < 6; i++)
		strcpy(strpool[i], fixed[i]);
	static const char al[] = "abcXYZ019 _-.,:;()*=<>+%/?!";
	for (int i = 6; i < 10; i++) {
		int len = i == 6 && chance(8) ? 200 + rnd(199) : 1 + rnd(20);
		for (int k = 0; k < len; k++)
			strpool[i][k] = al[len > 100 ? (k * 7 + len) % 26 : rnd(26)];
		strpool[i][len] = 0;
		if (strpool[i][0] == ' ') strpool[i][0] = '_';
	}
	/* one that agrees with its neighbour in all but a late character, or in being longer */
	int n = strlen(strpool[8]);
	strcpy(strpool[9], strpool[8]);
	if (rnd(2))
		strcpy(strpool[9] + n, "z");
	else {
		int at = n - 1 - rnd(n > 3 ? 3 : n);
		strpool[9][at] = strpool[9][at] == 'q' ? 'r' : 'q';
	}
}

static int64_t gen_i64(void)
{
	static const int64_t v[] = { 0, 1, 2, 3, -1, -2, 7, 10, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
		4294967297LL, 9007199254740993LL, 9007199254740992LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1 };
	return chance(3) ? v[rnd(sizeof(v) / sizeof(*v))] : rnd(6) - 2;
}
static double gen_dbl(void)
{
	static const double v[] = { 0.0, 0.5, 1.5, -0.5, 1.0, 3.0, -2.25, 1e10, 1e-3, 1e300, -1e300, 0.1, 0.30000000000000004, 0.3, 123456789.125, 1.0000001, 1e6, 1234567.0, 2.5e-310 };
	return v[rnd(sizeof(v) / sizeof(*v))];
}
static void date_text(int64_t t, int type, char *b, size_t n)
{
	time_t x = t;
	struct tm tm;
	localtime_r(&x, &tm);
	strftime(b, n, type == CT_DATE ? "%Y-%m-%d" : "%Y-%m-%d %H:%M:%S", &tm);
}
static int64_t gen_date(int type)
{
	struct tm tm = {0};
	tm.tm_year = 60 + rnd(3) * 30 + rnd(2);
	tm.tm_mon = chance(3) ? rnd(12) : 1;
	tm.tm_mday = 1 + rnd(3) * 9;
	if (type == CT_DATETIME && !chance(3)) {
		tm.tm_hour = rnd(3) * 11;
		tm.tm_min = rnd(60);
		tm.tm_sec = rnd(3) * 29;
	}
	return mktime(&tm);
}
/* a value of the column's type, NULL one time in `nulls` (0: never) */
static struct mval gen_val(const struct mcol *c, int nulls, bool fit)
{
	struct mval v = {0};
	if (nulls && chance(nulls)) {
		v.null = true;
		return v;
	}
	switch (c->type) {
	case CT_INTEGER: v.i = gen_i64(); break;
	case CT_TINYINT: v.i = rnd(2); break;
	case CT_DOUBLE: v.d = gen_dbl(); break;
	case CT_DATE: case CT_DATETIME: v.i = gen_date(c->type); break;
	default:
		v.s = strpool[rnd(10)];
		if (fit && (int)strlen(v.s) + 1 > c->prec)
			v.s = strpool[rnd(2)];
	}
	return v;
}
static void out_val(const struct mcol *c, const struct mval *v)
{
	char b[64];
	if (v->null) {
		out("NULL");
		return;
	}
	switch (c->type) {
	case CT_INTEGER: out("%ld", (long)v->i); break;
	case CT_TINYINT: out(v->i ? "TRUE" : "FALSE"); break;
	case CT_DOUBLE:
		snprintf(b, sizeof(b), "%.17g", v->d);
		if (!strpbrk(b, ".e"))
			strcat(b, ".0");
		out("%s", b);
		break;
	case CT_DATE: case CT_DATETIME: date_text(v->i, c->type, b, sizeof(b)); out("'%s'", b); break;
	default: out("'%s'", v->s);
	}
}
static bool val_same(int type, const struct mval *a, const struct mval *b)
{
	if (a->null || b->null)
		return a->null == b->null;
	return type == CT_VARCHAR ? !strcmp(a->s, b->s) : type == CT_DOUBLE ? a->d == b->d : a->i == b->i;
}
static int val_cmp(int type, const struct mval *a, const struct mval *b)
{
	if (type == CT_VARCHAR)
		return strcmp(a->s, b->s);
	if (type == CT_DOUBLE)
		return (a->d > b->d) - (a->d < b->d);
	return (a->i > b->i) - (a->i < b->i);
}

/* ---- tables ---- */
static void gen_names(struct mtab *t, int set)
{
	static const char *base[] = { "a", "ab", "abc", "a_b", "B", "b", "c1", "c10", "c", "A", "x_1", "a1b", "zz", "Ab", "aa", "b_", "c100", "d", "dd", "q2", "q", "value1", "col", "k" };
	int off = rnd(24);
	for (int i = 0; i < t->nc; i++) {
		strcpy(t->c[i].name, base[(off + i) % 24]);
		if (set == 1) /* names of their own */
			snprintf(t->c[i].name, sizeof(t->c[i].name), "%s_%s", base[(off + i) % 24], t->name);
	}
	if (chance(12)) {
		int len = chance(2) ? 127 : 60 + rnd(60);
		memset(t->c[0].name, 'n', len);
		t->c[0].name[len] = 0;
	}
}
static void gen_schema(struct mtab *t, const char *name, int minc, int maxc)
{
	strcpy(t->name, name);
	t->nc = minc + rnd(maxc - minc + 1);
	t->n = 0;
	t->in_db = false;
	gen_names(t, 0);
	for (int i = 0; i < t->nc; i++) {
		struct mcol *c = &t->c[i];
		c->type = rnd(6);
		c->nullable = !chance(3);
		c->prec = c->type == CT_VARCHAR ? (chance(3) ? 2 + rnd(4) : chance(20) ? 400 : 21) : c->type == CT_TINYINT ? 1 : 8;
	}
}
static size_t col_space(const struct mcol *c) { return c->type == CT_TINYINT ? 1 : 8; }
static size_t row_len(const struct mtab *t)
{
	size_t n = offsetof(struct row, data);
	for (int i = 0; i < t->nc; i++)
		n += col_space(&t->c[i]);
	return n;
}
static void gen_rows(struct mtab *t, int maxrows)
{
	int want = chance(6) ? 0 : chance(2) ? rnd(maxrows + 1) : rnd(9);
	t->n = want > MAXR ? MAXR : want > maxrows ? maxrows : want;
	for (int r = 0; r < t->n; r++)
		for (int c = 0; c < t->nc; c++)
			t->r[r][c] = gen_val(&t->c[c], t->c[c].nullable ? 4 : 0, true);
}
static const char *nul_free[1];
/* put the model's table into the database through the storage functions (C01-C04, C10); some deleted rows in between */
static struct table *store(struct mtab *t, int holes)
{
	(void)nul_free;
	struct table *x = table_init(t->name);
	VP_REQUIRE(x != NULL);
	for (int i = 0; i < t->nc; i++) {
		struct column c = {0};
		strcpy(c.name, t->c[i].name);
		c.type = t->c[i].type;
		c.precision = t->c[i].prec;
		c.nullable = t->c[i].nullable;
		VP_REQUIRE(table_add_column(x, &c));
	}
	size_t len = row_len(t);
	static char img[4096] __attribute__((aligned(16)));
	static char strs[MAXC][10000];
	int slot = 0;
	bool dead[3 * MAXR];
	for (int r = 0; r < t->n || (holes && chance(3) && slot < MAXR); ) {
		bool hole = r >= t->n || (holes && chance(holes));
		struct row *w = (struct row*)img;
		memset(img, 0, len);
		size_t o = 0;
		for (int c = 0; c < t->nc; c++) {
			struct mval v = hole ? gen_val(&t->c[c], 4, true) : t->r[r][c];
			if (v.null)
				w->null_bitmap[c / 8] |= 1u << (c % 8);
			if (t->c[c].type == CT_VARCHAR) {
				memset(strs[c], 0, t->c[c].prec);
				if (!v.null)
					strcpy(strs[c], v.s);
				char *p = strs[c];
				memcpy(w->data + o, &p, 8);
			} else if (!v.null)
				memcpy(w->data + o, t->c[c].type == CT_DOUBLE ? (void*)&v.d : (void*)&v.i, col_space(&t->c[c]));
			o += col_space(&t->c[c]);
		}
		VP_REQUIRE(table_insert_row(x, w, len));
		if (slot < 3 * MAXR)
			dead[slot] = hole;
		slot++;
		if (!hole)
			r++;
		if (slot >= 3 * MAXR)
			break;
	}
	int i = 0;
	for (struct list_head *p = x->datablock_head->next; p != x->datablock_head; p = p->next) {
		struct datablock *b = container_of(p, struct datablock, head);
		for (size_t off = 0; off + len < DATABLOCK_PAGE_SIZE && i < slot; off += len, i++)
			if (dead[i])
				VP_REQUIRE(table_delete_row(x, b, off));
	}
	VP_REQUIRE(database_table_add(&db, x) == MIDORIDB_OK);
	t->in_db = true;
	return x;
}
static void read_row(const struct row *w, const struct mtab *t, struct mval *v)
{
	size_t o = 0;
	for (int c = 0; c < t->nc; c++) {
		memset(&v[c], 0, sizeof(v[c]));
		v[c].null = (((unsigned char*)w->null_bitmap)[c / 8] >> (c % 8)) & 1;
		if (!v[c].null) {
			if (t->c[c].type == CT_VARCHAR)
				memcpy(&v[c].s, w->data + o, 8);
			else if (t->c[c].type == CT_DOUBLE)
				memcpy(&v[c].d, w->data + o, 8);
			else
				memcpy(&v[c].i, w->data + o, col_space(&t->c[c]));
		}
		o += col_space(&t->c[c]);
	}
}
/* the stored table is exactly the model: schema, live rows in order, every value */
static const char *table_diff(const struct mtab *t)
{
	struct table *x = database_table_get(&db, (char*)t->name);
	if (!x)
		return "the table is gone";
	if (strcmp(x->name, t->name) || x->column_count != t->nc)
		return "the table's name or number of columns differs";
	for (int i = 0; i < t->nc; i++)
		if (strcmp(x->columns[i].name, t->c[i].name) || (int)x->columns[i].type != t->c[i].type ||
			x->columns[i].precision != t->c[i].prec || x->columns[i].nullable != t->c[i].nullable)
			return "a column's definition differs";
	size_t len = row_len(t);
	int r = 0;
	for (struct list_head *p = x->datablock_head->next; p != x->datablock_head; p = p->next) {
		struct datablock *b = container_of(p, struct datablock, head);
		for (size_t off = 0; off + len < DATABLOCK_PAGE_SIZE; off += len) {
			struct row *w = (struct row*)&b->data[off];
			struct mval v[MAXC];
			if (w->flags.empty || w->flags.deleted)
				continue;
			if (r >= t->n)
				return "there are more rows than there should be";
			read_row(w, t, v);
			for (int c = 0; c < t->nc; c++) {
				if (!val_same(t->c[c].type, &v[c], &t->r[r][c]))
					return "a row's value or NULL differs";
				if (t->c[c].type == CT_VARCHAR && !v[c].null && (int)strlen(v[c].s) >= t->c[c].prec)
					return "a string is longer than its column";
			}
			r++;
		}
	}
	return r == t->n ? NULL : "there are fewer rows than there should be";
}
static void check_table(const struct mtab *t)
{
	const char *d = table_diff(t);
	if (d) {
		static char m[512];
		snprintf(m, sizeof(m), "table %s: %s after: %.300s", t->name, d, sql);
		VP_ENSURE(!d, m);
	}
}
static struct query_output *run_sql(void)
{
	if (getenv("VP_TRACE"))
		fprintf(stderr, "SQL: %s\n", sql);
	struct query_output *o = query_execute(&db, sql);
	VP_REQUIRE(o != NULL);
	if (getenv("VP_TRACE") && o->status == ST_ERROR)
		fprintf(stderr, "  -> %s\n", o->error.message);
	return o;
}
static void sql_ensure(bool c, const char *name)
{
	if (!c) {
		static char m[512];
		snprintf(m, sizeof(m), "%s: %.400s", name, sql);
		VP_ENSURE(c, m);
	}
}

/* ---- conditions ---- */
enum { K_CMP, K_NULL, K_IN, K_LOG };
enum { L_AND, L_XOR, L_OR };
struct opnd { int tab, col; struct mval v; int type; }; /* tab < 0: literal */
struct cond { int kind, op, nch; bool neg; struct opnd l, r; struct mval list[6]; int nlist; struct cond *ch[3]; };
static struct cond cpool[64];
static int cpooln;
static struct mtab *ctab[3];
static int nctab;
static int cstyle; /* 0: bare column names (DELETE, UPDATE), 1: bare or qualified, 2: qualified */
static bool clitlit, cmponly;

/* may the column be named without its table? */
static bool bare_ok(int tab, int col)
{
	for (int k = 0; k < nctab; k++)
		for (int i = 0; k != tab && i < ctab[k]->nc; i++)
			if (!strcmp(ctab[k]->c[i].name, ctab[tab]->c[col].name))
				return false;
	return true;
}
static void out_opnd(const struct opnd *o)
{
	if (o->tab < 0) {
		struct mcol c = { .type = o->type };
		out_val(&c, &o->v);
	} else if (cstyle == 2 || (cstyle == 1 && (!bare_ok(o->tab, o->col) || chance(2))))
		out("%s.%s", ctab[o->tab]->name, ctab[o->tab]->c[o->col].name);
	else
		out("%s", ctab[o->tab]->c[o->col].name);
}
static struct cond *gen_leaf(void)
{
	struct cond *c = &cpool[cpooln++];
	memset(c, 0, sizeof(*c));
	int t = rnd(nctab), col = rnd(ctab[t]->nc);
	struct mcol *mc = &ctab[t]->c[col];
	c->l.tab = t;
	c->l.col = col;
	c->l.type = mc->type;
	int k = cmponly ? 7 : rnd(8);
	if (k == 0) {
		c->kind = K_NULL;
		c->neg = rnd(2);
	} else if (k <= 2) {
		c->kind = K_IN;
		c->neg = rnd(2);
		c->nlist = 1 + rnd(5);
		for (int i = 0; i < c->nlist; i++)
			c->list[i] = gen_val(mc, 12, false);
	} else {
		c->kind = K_CMP;
		bool eqonly = mc->type == CT_VARCHAR || mc->type == CT_TINYINT;
		c->op = eqonly ? (rnd(2) ? AST_CMP_EQUALS_OP : AST_CMP_DIFF_OP) : AST_CMP_LT_OP + rnd(6);
		c->r.tab = -1;
		c->r.type = mc->type;
		if (chance(3)) { /* a column of the same type */
			int t2 = rnd(nctab), tries = 0;
			do {
				c->r.tab = t2;
				c->r.col = rnd(ctab[t2]->nc);
			} while (ctab[t2]->c[c->r.col].type != mc->type && ++tries < 8);
			if (ctab[t2]->c[c->r.col].type != mc->type)
				c->r.tab = -1;
		}
		if (c->r.tab < 0) {
			int nullp = chance(16);
			if (nullp) {
				c->r.v.null = true;
				c->op = rnd(2) ? AST_CMP_EQUALS_OP : AST_CMP_DIFF_OP;
			} else
				c->r.v = gen_val(mc, 0, false);
			if (clitlit && !nullp && chance(12)) { /* literal against literal */
				c->l.tab = -1;
				c->l.v = gen_val(mc, 0, false);
				if (mc->type == CT_DATE || mc->type == CT_DATETIME) /* strings there */
					c->op = rnd(2) ? AST_CMP_EQUALS_OP : AST_CMP_DIFF_OP;
			}
		}
		if (rnd(2)) {
			struct opnd x = c->l;
			c->l = c->r;
			c->r = x;
		}
	}
	return c;
}
static struct cond *gen_cond(int depth)
{
	if (depth == 0 || cpooln > 50 || chance(3))
		return gen_leaf();
	struct cond *c = &cpool[cpooln++];
	memset(c, 0, sizeof(*c));
	c->kind = K_LOG;
	c->op = rnd(3);
	c->nch = chance(4) ? 3 : 2;
	for (int i = 0; i < c->nch; i++)
		c->ch[i] = gen_cond(depth - 1);
	return c;
}
static const char *cmp_text(int op)
{
	switch (op) {
	case AST_CMP_LT_OP: return "<";
	case AST_CMP_GT_OP: return ">";
	case AST_CMP_LTE_OP: return "<=";
	case AST_CMP_GTE_OP: return ">=";
	case AST_CMP_EQUALS_OP: return "=";
	default: return chance(2) ? "<>" : "!=";
	}
}
static void out_cond(const struct cond *c, int parent)
{
	bool par = chance(8) || (c->kind == K_LOG && (c->op > parent || (c->op == parent && chance(2))));
	if (par)
		out("(");
	switch (c->kind) {
	case K_CMP:
		out_opnd(&c->l);
		out(" %s ", cmp_text(c->op));
		out_opnd(&c->r);
		break;
	case K_NULL:
		out_opnd(&c->l);
		out(c->neg ? " IS NOT NULL" : " IS NULL");
		break;
	case K_IN:
		out_opnd(&c->l);
		out(c->neg ? " NOT IN (" : " IN (");
		for (int i = 0; i < c->nlist; i++) {
			struct mcol m = { .type = c->l.type };
			out(i ? ", " : "");
			out_val(&m, &c->list[i]);
		}
		out(")");
		break;
	default:
		for (int i = 0; i < c->nch; i++) {
			if (i)
				out(c->op == L_AND ? " AND " : c->op == L_OR ? " OR " : " XOR ");
			out_cond(c->ch[i], c->op);
		}
	}
	if (par)
		out(")");
}
static const struct mval *opnd_val(const struct opnd *o, const struct mval *const *rows)
{
	return o->tab < 0 ? &o->v : &rows[o->tab][o->col];
}
static bool truth(const struct cond *c, const struct mval *const *rows)
{
	bool t;
	switch (c->kind) {
	case K_CMP: {
		const struct mval *a = opnd_val(&c->l, rows), *b = opnd_val(&c->r, rows);
		if (a->null || b->null)
			return false;
		int k = val_cmp(c->l.type, a, b);
		switch (c->op) {
		case AST_CMP_LT_OP: return k < 0;
		case AST_CMP_GT_OP: return k > 0;
		case AST_CMP_LTE_OP: return k <= 0;
		case AST_CMP_GTE_OP: return k >= 0;
		case AST_CMP_EQUALS_OP: return k == 0;
		default: return k != 0;
		}
	}
	case K_NULL:
		return opnd_val(&c->l, rows)->null != c->neg;
	case K_IN: {
		const struct mval *a = opnd_val(&c->l, rows);
		if (a->null)
			return false;
		for (int i = 0; i < c->nlist; i++) {
			bool eq = !c->list[i].null && val_cmp(c->l.type, a, &c->list[i]) == 0;
			bool ne = !c->list[i].null && val_cmp(c->l.type, a, &c->list[i]) != 0;
			if (!c->neg && eq)
				return true;
			if (c->neg && !ne)
				return false;
		}
		return c->neg;
	}
	default:
		t = truth(c->ch[0], rows);
		for (int i = 1; i < c->nch; i++) {
			bool x = truth(c->ch[i], rows);
			t = c->op == L_AND ? t && x : c->op == L_OR ? t || x : t != x;
		}
		return t;
	}
}
static struct cond *gen_where(void)
{
	cpooln = 0;
	return gen_cond(rnd(4));
}
static void open_db(void)
{
	memset(&db, 0, sizeof(db));
	gen_pool();
	VP_REQUIRE(database_open(&db) == MIDORIDB_OK);
}

/* ---- results ---- */
static int res_col(const struct query_output *o, const char *tab, const char *col)
{
	char n[300];
	int hit = -1;
	if (tab)
		snprintf(n, sizeof(n), "%s.%s", tab, col);
	else
		snprintf(n, sizeof(n), "%s", col);
	for (int i = 0; i < o->results.table->column_count; i++)
		if (!strcmp(o->results.table->columns[i].name, n)) {
			sql_ensure(hit < 0, "select.column: a column is in the result once");
			hit = i;
		}
	return hit;
}
/* value of a column of the row the cursor is at */
static struct mval res_val(const struct query_output *o, int col)
{
	const struct table *x = o->results.table;
	const struct row *w = (const struct row*)&o->results.cursor_blk->data[o->results.cursor_offset];
	struct mval v = {0};
	size_t off = 0;
	for (int i = 0; i < col; i++)
		off += x->columns[i].type == CT_TINYINT ? 1 : 8;
	v.null = (((const unsigned char*)w->null_bitmap)[col / 8] >> (col % 8)) & 1;
	if (v.null)
		return v;
	switch (x->columns[col].type) {
	case CT_VARCHAR: memcpy(&v.s, w->data + off, 8); break;
	case CT_DOUBLE: memcpy(&v.d, w->data + off, 8); break;
	case CT_TINYINT: v.i = *(unsigned char*)(w->data + off); break;
	default: memcpy(&v.i, w->data + off, 8);
	}
	if (x->columns[col].type != CT_VARCHAR && x->columns[col].type != CT_DOUBLE)
		sql_ensure(query_column_int64((struct result_set*)&o->results, col) == v.i, "select.int64: reading the column gives its value");
	return v;
}
#endif
