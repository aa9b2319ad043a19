/* C22, and C20 for CREATE TABLE (run-time check of the statement-level contract) */
#include "sqlm.h"
#define NT 6
static struct mtab t[NT];
static int nt;

static void out_case(const char *s)
{
	int k = rnd(4);
	for (; *s; s++)
		out("%c", k == 0 ? *s | (*s >= 'A' && *s <= 'Z' ? 32 : 0) : *s);
}
static bool valid_name(const char *s)
{
	int n = strlen(s);
	if (n < 1 || n > 127)
		return false;
	for (int i = 0; i < n; i++)
		if (!((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (i && (s[i] == '_' || (s[i] >= '0' && s[i] <= '9')))))
			return false;
	return true;
}
static void gen_name(char *b, size_t n, const char *base)
{
	snprintf(b, n, "%s", base);
	int k = rnd(24);
	if (k == 0) {
		int len = 120 + rnd(20);
		memset(b, 'k', len);
		b[len] = 0;
	} else if (k == 1)
		snprintf(b, n, "%s b", base);
	else if (k == 2)
		snprintf(b, n, "%s-%s", base, base);
	else if (k == 3)
		snprintf(b, n, "_%s", base);
	else if (k == 4)
		snprintf(b, n, "7%s", base);
}
static void out_name(const char *s)
{
	bool plain = (s[0] >= 'a' && s[0] <= 'z') || (s[0] >= 'A' && s[0] <= 'Z');
	for (const char *p = s; *p; p++)
		plain = plain && (*p == '_' || (*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'));
	out(plain && !chance(6) ? "%s" : "`%s`", s);
}

void harness(void)
{
	open_db();
	nt = 0;
	for (int round = 0; round < NT; round++) {
		struct mtab *x = &t[nt], *old = NULL;
		static const char *names[] = { "A", "a", "Ab", "tbl_1", "tbl_12", "x", "T" };
		static char tn[300], cn[MAXC][300];
		bool bad = false, pk[MAXC] = {0}, ine = chance(3);
		memset(x, 0, sizeof(*x));
		x->nc = 1 + rnd(chance(5) ? 20 : 5);
		gen_schema(x, "t", x->nc, x->nc);
		gen_name(tn, sizeof(tn), names[rnd(7)]);
		if (!valid_name(tn))
			bad = true;
		for (int i = 0; i < nt; i++)
			if (!strcmp(t[i].name, tn))
				old = &t[i];
		for (int i = 0; i < x->nc; i++) {
			gen_name(cn[i], sizeof(cn[i]), chance(30) ? x->c[0].name : x->c[i].name);
			if (!valid_name(cn[i]))
				bad = true;
			for (int k = 0; k < i; k++)
				if (!strcmp(cn[k], cn[i]))
					bad = true;
		}
		begin();
		out_case("CREATE TABLE ");
		if (ine)
			out_case("IF NOT EXISTS ");
		out_name(tn);
		out(" (");
		int inline_pk = chance(4) ? rnd(x->nc) : -1;
		int tail_pk = chance(4) ? 1 + rnd(x->nc) : 0, front = tail_pk && chance(4), idx = chance(4) ? rnd(x->nc) : -1;
		for (int pass = 0; pass < 3; pass++) {
			if (pass == (front ? 0 : 2) && tail_pk) {
				out(front ? "PRIMARY KEY (" : ", PRIMARY KEY (");
				for (int i = 0; i < tail_pk; i++) {
					int c = (i * 5 + tail_pk) % x->nc;
					bool dup = pk[c];
					pk[c] = true;
					if (chance(40)) {
						out(i ? ", nonesuch" : "nonesuch");
						bad = true;
						continue;
					}
					out(i ? ", " : "");
					out_name(cn[c]);
					(void)dup;
				}
				out(front ? "), " : ")");
			}
			if (pass == 2 && idx >= 0) {
				out(", INDEX (");
				out_name(cn[idx]);
				out(")");
			}
			if (pass != 1)
				continue;
			for (int i = 0; i < x->nc; i++) {
				struct mcol *c = &x->c[i];
				if (i)
					out(chance(2) ? "," : ", ");
				out_name(cn[i]);
				out(" ");
				switch (c->type) {
				case CT_INTEGER: out_case(chance(2) ? "INT" : "INTEGER"); break;
				case CT_TINYINT: out_case("TINYINT"); break;
				case CT_DOUBLE: out_case("DOUBLE"); break;
				case CT_DATE: out_case("DATE"); break;
				case CT_DATETIME: out_case("DATETIME"); break;
				default:
					c->prec = chance(3) ? 1 + rnd(9999) : 1 + rnd(30);
					if (chance(60)) {
						c->prec = chance(2) ? 0 : 10000 + rnd(3);
						bad = true;
					}
					out_case("VARCHAR");
					out("(%d)", c->prec);
				}
				if (!c->nullable || (i == inline_pk && chance(2)))
					out_case(" NOT NULL");
				else if (chance(4) && i != inline_pk && !pk[i])
					out_case(" NULL");
				if (i == inline_pk)
					out_case(" PRIMARY KEY"), pk[i] = true;
				if (chance(5))
					out_case(" UNIQUE");
				if (chance(5) && c->type == CT_INTEGER)
					out_case(" AUTO_INCREMENT");
			}
		}
		out(");");
		for (int i = 0; i < x->nc; i++) {
			if (pk[i])
				x->c[i].nullable = false;
			snprintf(x->c[i].name, sizeof(x->c[i].name), "%s", cn[i]);
		}
		struct query_output *o = run_sql();
		if (bad || (old && !ine)) {
			sql_ensure(o->status == ST_ERROR, "create.reject: an invalid or taken name, a repeated or unknown column is rejected");
		} else {
			sql_ensure(o->status == ST_OK_EXECUTED, "create.ok: a legal CREATE TABLE is executed");
			if (!old) {
				snprintf(x->name, sizeof(x->name), "%s", tn);
				/* the size the storage layer gives the type, VARCHAR: the declared one */
				nt++;
			}
		}
		query_free(o);
		for (int i = 0; i < nt; i++)
			check_table(&t[i]);
		int count = (int)db.tables->count;
		sql_ensure(count == nt, "create.only: and no other table");
		if (nt && chance(2)) { /* some rows, so that the tables to come have something to leave alone */
			struct mtab *y = &t[rnd(nt)];
			if (y->n < 8 && y->nc <= 20) {
				begin();
				out("INSERT INTO `%s` VALUES (", y->name);
				for (int i = 0; i < y->nc; i++) {
					y->r[y->n][i] = gen_val(&y->c[i], y->c[i].nullable ? 4 : 0, false);
					if (y->c[i].type == CT_VARCHAR && (int)strlen(y->r[y->n][i].null ? "" : y->r[y->n][i].s) + 1 > y->c[i].prec)
						y->r[y->n][i].null = y->c[i].nullable, y->r[y->n][i].s = y->c[i].nullable ? NULL : "a";
					out(i ? ", " : "");
					out_val(&y->c[i], &y->r[y->n][i]);
				}
				out(");");
				o = run_sql();
				if (o->status == ST_OK_EXECUTED)
					y->n++;
				query_free(o);
				check_table(y);
			}
		}
	}
	database_close(&db);
	VP_ENSURE(vp_live == 0, "create.leak: nothing stays allocated");
	VP_COVER("end");
}
