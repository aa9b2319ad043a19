/*
 * C21 (run-time check): for random statements of the grammar, written with the fewest parentheses the documented
 * precedence allows (or more), the tree built from the text is the tree the statement was written with; releasing
 * it releases everything; an allocation failing anywhere while it is built leaves nothing behind.
 */
#include "sqlm.h"
#include <parser/syntax.h>

/* ---- a statement under construction: its text and the tree it stands for, as text ---- */
struct ex { char *s, *t; int prec, nodes; };
static char arena[1 << 26];
static size_t an;
static char *fmt(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	char *r = arena + an;
	an += vsnprintf(r, sizeof(arena) - an, f, ap) + 1;
	va_end(ap);
	return r;
}
static int budget;
static bool longish; /* one long list per statement at most */
/* how many entries a list has: mostly few, sometimes more digits than one */
static int many(int few)
{
	if (!longish && chance(12)) {
		longish = true;
		return chance(3) ? 95 + rnd(40) : 9 + rnd(30);
	}
	return 1 + rnd(few);
}
static char *gname(void)
{
	static const char *v[] = { "a", "A", "b1", "col_x", "STMT", "NAMEs", "selecta", "orx", "Nulls", "x_y_z", "COLUMNs", "t2", "VALUESx", "andy" };
	if (chance(12)) {
		int n = 100 + rnd(28);
		char *r = arena + an;
		an += n + 1;
		memset(r, 'n', n);
		r[n] = 0;
		r[n - 1] = 'a' + rnd(26);
		return r;
	}
	return (char *)v[rnd(14)];
}
enum { P_OR = 1, P_XOR, P_AND, P_IS, P_CMP, P_ADD, P_MUL, P_NEG, P_LEAF };
static struct ex paren(struct ex e, int least)
{
	if (e.prec < least || chance(15)) {
		e.s = fmt("(%s)", e.s);
		e.prec = P_LEAF;
	}
	return e;
}
static struct ex leaf(bool names, bool sel)
{
	struct ex e = { .prec = P_LEAF, .nodes = 1 };
	int k = rnd(names ? 8 : 5);
	budget--;
	if (k == 0) {
		int64_t v = gen_i64();
		e.s = fmt("%ld", (long)v);
		e.t = fmt("(int %ld)", (long)v);
	} else if (k == 1) {
		static const char *v[] = { "1.5", "0.25", "-3.75", "100000000.5", "2.", ".5", "1E10", "2.5E-3", "-.5E3", "0.1", "123456.789", "1.7976931348623157E308" };
		e.s = fmt("%s", v[rnd(12)]);
		e.t = fmt("(float %.17g)", strtod(e.s, NULL));
	} else if (k == 2) {
		const char *w = strpool[rnd(10)];
		if (strchr(w, '\'') || strchr(w, '\\'))
			w = "x";
		e.s = fmt("'%s'", w);
		e.t = fmt("(str %s)", w);
	} else if (k == 3) {
		bool b = rnd(2);
		e.s = fmt(b ? "TRUE" : "false");
		e.t = fmt("(bool %d)", b);
	} else if (k == 4) {
		e.s = fmt("NULL");
		e.t = fmt("(null)");
	} else if (k == 5 && sel) {
		char *a = gname(), *b = gname();
		e.s = fmt("%s.%s", a, b);
		e.t = fmt("(field %s.%s)", a, b);
	} else {
		char *a = gname();
		e.s = fmt(chance(6) ? "`%s`" : "%s", a);
		e.t = fmt("(name %s)", a);
	}
	return e;
}
#define M_ARITH 1
#define M_BOOL 2
#define M_NAMES 4
#define M_SEL 8
static struct ex gexpr(int m, int depth)
{
	struct ex e = {0}, a, b;
	if (depth <= 0 || budget <= 1 || chance(5))
		return leaf(m & M_NAMES, m & M_SEL);
	int k = rnd(16);
	budget--;
	if (k < 6 && (m & M_BOOL)) {
		int o = rnd(3);
		static const char *w[][2] = { { "AND", "&&" }, { "OR", "||" }, { "XOR", "xor" } };
		int p = o == 0 ? P_AND : o == 1 ? P_OR : P_XOR;
		a = paren(gexpr(m, depth - 1), p);
		b = paren(gexpr(m, depth - 1), p + 1);
		e.s = fmt("%s %s %s", a.s, w[o][rnd(2)], b.s);
		e.t = fmt("(logop %d %s%s)", o, a.t, b.t);
		e.prec = p;
		e.nodes = a.nodes + b.nodes + 1;
	} else if (k < 9 && (m & M_BOOL)) {
		int o = rnd(6);
		static const char *w[] = { "<", ">", "<>", "=", "<=", ">=" };
		a = paren(gexpr(m, depth - 1), P_CMP);
		b = paren(gexpr(m, depth - 1), P_CMP + 1);
		e.s = fmt("%s %s %s", a.s, o == 2 && chance(2) ? "!=" : w[o], b.s);
		e.t = fmt("(cmp %d %s%s)", o + 1, a.t, b.t);
		e.prec = P_CMP;
		e.nodes = a.nodes + b.nodes + 1;
	} else if (k == 9 && (m & M_BOOL)) {
		bool neg = rnd(2);
		a = paren(gexpr(m, depth - 1), P_LEAF);
		e.s = fmt("%s %s", a.s, neg ? "IS NOT NULL" : "is null");
		e.t = fmt("(isnull %d %s)", neg, a.t);
		e.prec = P_IS;
		e.nodes = a.nodes + 1;
	} else if (k < 12 && (m & M_BOOL)) {
		bool neg = rnd(2);
		int n = many(4);
		a = paren(gexpr(m, depth - 1), P_LEAF);
		char *s = "", *t = "";
		e.nodes = a.nodes + 1;
		for (int i = 0; i < n; i++) {
			b = gexpr(m, chance(4) ? depth - 1 : 0);
			s = fmt("%s%s%s", s, i ? ", " : "", b.s);
			t = fmt("%s%s", t, b.t);
			e.nodes += b.nodes;
		}
		e.s = fmt("%s %s (%s)", a.s, neg ? "NOT IN" : "IN", s);
		e.t = fmt("(isin %d %s%s)", neg, a.t, t);
		e.prec = P_IS;
	} else if (k == 12 && (m & M_SEL)) {
		bool neg = rnd(2);
		a = paren(gexpr(m, depth - 1), P_LEAF);
		b = paren(gexpr(m, depth - 1), P_LEAF);
		e.s = fmt("%s %s %s", a.s, neg ? "NOT LIKE" : "LIKE", b.s);
		e.t = fmt("(like %d %s%s)", neg, a.t, b.t);
		e.prec = P_IS;
		e.nodes = a.nodes + b.nodes + 1;
	} else if (k == 13 && (m & M_SEL)) {
		if (chance(2)) {
			e.s = fmt("COUNT(*)");
			e.t = fmt("(count 1 )");
			e.nodes = 1;
		} else {
			a = gexpr(m, depth - 1);
			e.s = fmt("count(%s)", a.s);
			e.t = fmt("(count 0 %s)", a.t);
			e.nodes = a.nodes + 1;
		}
		e.prec = P_LEAF;
	} else if (m & M_ARITH) {
		int o = rnd(6);
		static const char w[] = "+-*/%";
		if (o == 5) {
			a = paren(gexpr(m, depth - 1), P_LEAF);
			e.s = fmt("- %s", a.s);
			e.t = fmt("(op 2 %s(minus))", a.t);
			e.prec = P_NEG;
			e.nodes = a.nodes + 2;
		} else {
			int p = o < 2 ? P_ADD : P_MUL;
			a = paren(gexpr(m, depth - 1), p);
			b = paren(gexpr(m, depth - 1), p + 1);
			e.s = fmt("%s %c %s", a.s, w[o], b.s);
			e.t = fmt("(op %d %s%s)", o, a.t, b.t);
			e.prec = p;
			e.nodes = a.nodes + b.nodes + 1;
		}
	} else
		return leaf(m & M_NAMES, m & M_SEL);
	return e;
}

static struct ex gcreate(void)
{
	struct ex e = {0};
	bool ine = rnd(2);
	char *tab = gname(), *s = "", *t = "";
	int n = many(5);
	for (int i = 0; i < n; i++) {
		char *d, *c;
		if (i && chance(6)) {
			bool pk = rnd(2);
			int k = 1 + rnd(4);
			d = fmt(pk ? "PRIMARY KEY (" : "INDEX (");
			c = fmt("(index %d %d ", pk, !pk);
			for (int j = 0; j < k; j++) {
				char *x = gname();
				d = fmt("%s%s%s", d, j ? ", " : "", x);
				c = fmt("%s(indexcol %s)", c, x);
			}
			d = fmt("%s)", d);
			c = fmt("%s)", c);
		} else {
			static const struct { const char *w; int type, prec; } ty[] = { { "INT", CT_INTEGER, 8 }, { "INTEGER", CT_INTEGER, 8 }, { "tinyint", CT_TINYINT, 1 },
				{ "DOUBLE", CT_DOUBLE, 8 }, { "DATE", CT_DATE, 8 }, { "datetime", CT_DATETIME, 8 }, { "VARCHAR", CT_VARCHAR, 0 } };
			int k = rnd(7), p = ty[k].prec;
			char *x = gname();
			d = fmt("%s %s", x, ty[k].w);
			if (k == 6) {
				p = 1 + (chance(2) ? rnd(9999) : rnd(30));
				d = fmt("%s(%d)", d, p);
			}
			bool nul = true, nn = false, uq = false, ai = false, pk = false;
			while (chance(3)) {
				int a = rnd(5);
				d = fmt("%s %s", d, a == 0 ? "NOT NULL" : a == 1 ? "NULL" : a == 2 ? "AUTO_INCREMENT" : a == 3 ? "UNIQUE" : "PRIMARY KEY");
				if (a == 0 || a == 4) nul = false, nn = true;
				if (a == 2) ai = true;
				if (a == 3 || a == 4) uq = true;
				if (a == 4) pk = true;
			}
			c = fmt("(col %s %d %d %d%d%d%d%d)", x, ty[k].type, p, nul, nn, uq, ai, pk);
		}
		s = fmt("%s%s%s", s, i ? ", " : "", d);
		t = fmt("%s%s", t, c);
	}
	e.s = fmt("CREATE TABLE %s%s (%s);", ine ? "IF NOT EXISTS " : "", tab, s);
	e.t = fmt("(create %d %s %s)", ine, tab, t);
	return e;
}
static struct ex ginsert(void)
{
	struct ex e = {0};
	char *tab = gname(), *s, *t = "";
	bool cols = rnd(2);
	int rows = many(3);
	s = fmt("INSERT %s%s ", rnd(2) ? "INTO " : "", tab);
	if (cols) {
		int n = many(4);
		s = fmt("%s(", s);
		t = fmt("(inscols %d ", n);
		for (int i = 0; i < n; i++) {
			char *x = gname();
			s = fmt("%s%s%s", s, i ? ", " : "", x);
			t = fmt("%s(column %s)", t, x);
		}
		s = fmt("%s) ", s);
		t = fmt("%s)", t);
	}
	s = fmt("%sVALUES ", s);
	for (int r = 0; r < rows; r++) {
		int n = many(4);
		s = fmt("%s%s(", s, r ? ", " : "");
		t = fmt("%s(values %d ", t, n);
		for (int i = 0; i < n; i++) {
			struct ex v = gexpr(M_ARITH, 4);
			s = fmt("%s%s%s", s, i ? ", " : "", v.s);
			t = fmt("%s%s", t, v.t);
		}
		s = fmt("%s)", s);
		t = fmt("%s)", t);
	}
	e.s = fmt("%s;", s);
	e.t = fmt("(insert %s %d %d %s)", tab, rows, cols, t);
	return e;
}
static struct ex gdelete(void)
{
	struct ex e = {0}, w;
	char *tab = gname();
	if (chance(4)) {
		e.s = fmt("DELETE FROM %s;", tab);
		e.t = fmt("(delete %s )", tab);
	} else {
		w = gexpr(M_BOOL | M_NAMES, 5);
		e.s = fmt("DELETE FROM %s WHERE %s;", tab, w.s);
		e.t = fmt("(delete %s %s)", tab, w.t);
	}
	return e;
}
static struct ex gupdate(void)
{
	struct ex e = {0}, w;
	char *tab = gname(), *s, *t = "";
	int n = many(4);
	s = fmt("UPDATE %s SET ", tab);
	for (int i = 0; i < n; i++) {
		char *x = gname();
		w = gexpr(M_BOOL | M_NAMES, chance(5) ? 3 : 0);
		s = fmt("%s%s%s = %s", s, i ? ", " : "", x, w.s);
		t = fmt("%s(assign %s %s)", t, x, w.t);
	}
	if (!chance(3)) {
		w = gexpr(M_BOOL | M_NAMES, 5);
		s = fmt("%s WHERE %s", s, w.s);
		t = fmt("%s%s", t, w.t);
	}
	e.s = fmt("%s;", s);
	e.t = fmt("(update %s %s)", tab, t);
	return e;
}
#define M_ALL (M_ARITH | M_BOOL | M_NAMES | M_SEL)
static struct ex gtable(void)
{
	struct ex e = {0};
	char *x = gname();
	e.s = fmt("%s", x);
	e.t = fmt("(table %s)", x);
	if (chance(3)) {
		char *y = gname();
		e.s = fmt("%s %s%s", e.s, rnd(2) ? "AS " : "", y);
		e.t = fmt("(alias %s %s)", y, e.t);
	}
	return e;
}
static struct ex gselect(void)
{
	struct ex e = {0}, w;
	int dis = chance(4) ? 1 : 0, n = many(4);
	char *s = fmt("SELECT %s", dis ? "DISTINCT " : ""), *t = "";
	if (chance(3)) {
		s = fmt("%s*", s);
		t = fmt("(all)");
	} else
		for (int i = 0; i < n; i++) {
			w = gexpr(M_ALL, 4);
			if (chance(3)) {
				char *y = gname();
				w.s = fmt("%s %s%s", w.s, rnd(2) ? "AS " : "", y);
				w.t = fmt("(alias %s %s)", y, w.t);
			}
			s = fmt("%s%s%s", s, i ? ", " : "", w.s);
			t = fmt("%s%s", t, w.t);
		}
	if (!chance(8)) {
		int nt = 1 + rnd(3);
		s = fmt("%s FROM ", s);
		for (int i = 0; i < nt; i++) {
			struct ex tb = gtable();
			while (chance(3)) {
				struct ex r = gtable(), on = gexpr(M_ALL, 3);
				static const struct { const char *w; int k; } j[] = { { "JOIN", 1 }, { "INNER JOIN", 1 }, { "LEFT JOIN", 2 }, { "RIGHT JOIN", 4 }, { "LEFT OUTER JOIN", 8 }, { "RIGHT OUTER JOIN", 10 } };
				int k = rnd(6);
				tb.s = fmt("%s %s %s ON %s", tb.s, j[k].w, r.s, on.s);
				tb.t = fmt("(join %d %s%s(on %s))", j[k].k, tb.t, r.t, on.t);
			}
			s = fmt("%s%s%s", s, i ? ", " : "", tb.s);
			t = fmt("%s%s", t, tb.t);
		}
		if (chance(2)) {
			w = gexpr(M_ALL, 5);
			s = fmt("%s WHERE %s", s, w.s);
			t = fmt("%s(where %s)", t, w.t);
		}
		for (int kind = 0; kind < 2; kind++) {
			if (kind == 0 && chance(2)) {
				int k = many(4);
				s = fmt("%s GROUP BY ", s);
				t = fmt("%s(groupby ", t);
				for (int i = 0; i < k; i++) {
					w = gexpr(M_ALL, 2);
					s = fmt("%s%s%s", s, i ? ", " : "", w.s);
					t = fmt("%s%s", t, w.t);
				}
				t = fmt("%s)", t);
			}
			if (kind == 0 && chance(4)) {
				w = gexpr(M_ALL, 3);
				s = fmt("%s HAVING %s", s, w.s);
				t = fmt("%s(having %s)", t, w.t);
			}
			if (kind == 1 && chance(3)) {
				int k = many(4);
				s = fmt("%s ORDER BY ", s);
				t = fmt("%s(orderby ", t);
				for (int i = 0; i < k; i++) {
					int d = rnd(3);
					w = gexpr(M_ALL, 2);
					s = fmt("%s%s%s%s", s, i ? ", " : "", w.s, d == 0 ? "" : d == 1 ? " ASC" : " DESC");
					t = fmt("%s(item %d %s)", t, d == 2, w.t);
				}
				t = fmt("%s)", t);
			}
			if (kind == 1 && chance(4)) {
				w = gexpr(M_ALL, 1);
				s = fmt("%s LIMIT %s", s, w.s);
				t = fmt("%s(limit %s", t, w.t);
				if (chance(2)) {
					w = gexpr(M_ALL, 1);
					s = fmt("%s, %s", s, w.s);
					t = fmt("%s%s", t, w.t);
				}
				t = fmt("%s)", t);
			}
		}
	}
	e.s = fmt("%s;", s);
	e.t = fmt("(select %d %s)", dis, t);
	return e;
}

/* ---- the tree that was built, as text ---- */
static char got[1 << 21];
static int gn;
static void put(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	gn += vsnprintf(got + gn, sizeof(got) - gn, f, ap);
	va_end(ap);
}
static void dump(struct ast_node *n);
static void kids(struct ast_node *n)
{
	struct ast_node *v[256];
	int c = 0;
	struct list_head *h = n->node_children_head, *p = h;
	VP_ENSURE(h != NULL, "tree.list: every node has a list of children");
	for (; p->next != h; p = p->next) {
		VP_ENSURE(p->next->prev == p && c < 256, "tree.list: the list is linked both ways");
		v[c++] = list_entry(p->next, struct ast_node, head);
	}
	VP_ENSURE(h->prev == p, "tree.list: the list is linked both ways");
	if (n->node_type == AST_TYPE_INS_EXPROP || n->node_type == AST_TYPE_SEL_EXPROP) {
		/* arithmetic keeps its right operand first */
		VP_ENSURE(c == 2, "tree.op: arithmetic has two operands");
		if (((v[0]->node_type == AST_TYPE_INS_EXPRVAL && ((struct ast_ins_exprval_node *)v[0])->value_type.is_negation))
				|| (v[0]->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node *)v[0])->value_type.is_negation)) {
			dump(v[1]);
			put("(minus)");
			return;
		}
		dump(v[1]);
		dump(v[0]);
		return;
	}
	for (int i = 0; i < c; i++)
		dump(v[i]);
}
#define VAL(T, names) { \
		struct T *v = (struct T *)n; \
		int set = names + v->value_type.is_intnum + v->value_type.is_str + v->value_type.is_approxnum + v->value_type.is_bool + v->value_type.is_null; \
		VP_ENSURE(set == 1, "tree.value: a value has one type"); \
		if (v->value_type.is_intnum) put("(int %ld", (long)v->int_val); \
		else if (v->value_type.is_str) put("(str %s", v->str_val); \
		else if (v->value_type.is_approxnum) put("(float %.17g", v->double_val); \
		else if (v->value_type.is_bool) put("(bool %d", v->bool_val); \
		else if (v->value_type.is_null) put("(null"); \
		else put("(name %s", v->str_val); \
		break; \
	}
static void dump(struct ast_node *n)
{
	switch (n->node_type) {
	case AST_TYPE_CRT_CREATE: put("(create %d %s ", ((struct ast_crt_create_node *)n)->if_not_exists, ((struct ast_crt_create_node *)n)->table_name); break;
	case AST_TYPE_CRT_COLUMNDEF: {
		struct ast_crt_column_def_node *c = (void *)n;
		put("(col %s %d %zu %d%d%d%d%d", c->name, c->type, c->precision, c->attr_null, c->attr_not_null, c->attr_uniq_key, c->attr_auto_inc, c->attr_prim_key);
		break;
	}
	case AST_TYPE_CRT_INDEXDEF: put("(index %d %d ", ((struct ast_crt_index_def_node *)n)->is_pk, ((struct ast_crt_index_def_node *)n)->is_index); break;
	case AST_TYPE_CRT_INDEXCOL: put("(indexcol %s", ((struct ast_crt_index_column_node *)n)->name); break;
	case AST_TYPE_INS_COLUMN: put("(column %s", ((struct ast_ins_column_node *)n)->name); break;
	case AST_TYPE_INS_INSCOLS: put("(inscols %d ", ((struct ast_ins_inscols_node *)n)->column_count); break;
	case AST_TYPE_INS_EXPRVAL: VAL(ast_ins_exprval_node, 0)
	case AST_TYPE_INS_EXPROP: put("(op %d ", ((struct ast_ins_exprop_node *)n)->op_type); break;
	case AST_TYPE_INS_VALUES: put("(values %d ", ((struct ast_ins_values_node *)n)->value_count); break;
	case AST_TYPE_INS_INSVALS: {
		struct ast_ins_insvals_node *c = (void *)n;
		put("(insert %s %d %d ", c->table_name, c->row_count, c->opt_column_list);
		break;
	}
	case AST_TYPE_DEL_DELETEONE: put("(delete %s ", ((struct ast_del_deleteone_node *)n)->table_name); break;
	case AST_TYPE_DEL_EXPRVAL: VAL(ast_del_exprval_node, v->value_type.is_name)
	case AST_TYPE_DEL_CMP: put("(cmp %d ", ((struct ast_del_cmp_node *)n)->cmp_type); break;
	case AST_TYPE_DEL_LOGOP: put("(logop %d ", ((struct ast_del_logop_node *)n)->logop_type); break;
	case AST_TYPE_DEL_EXPRISXIN: put("(isin %d ", ((struct ast_del_isxin_node *)n)->is_negation); break;
	case AST_TYPE_DEL_EXPRISXNULL: put("(isnull %d ", ((struct ast_del_isxnull_node *)n)->is_negation); break;
	case AST_TYPE_UPD_UPDATE: put("(update %s ", ((struct ast_upd_update_node *)n)->table_name); break;
	case AST_TYPE_UPD_ASSIGN: put("(assign %s ", ((struct ast_upd_assign_node *)n)->field_name); break;
	case AST_TYPE_UPD_EXPRVAL: VAL(ast_upd_exprval_node, v->value_type.is_name)
	case AST_TYPE_UPD_CMP: put("(cmp %d ", ((struct ast_upd_cmp_node *)n)->cmp_type); break;
	case AST_TYPE_UPD_LOGOP: put("(logop %d ", ((struct ast_upd_logop_node *)n)->logop_type); break;
	case AST_TYPE_UPD_EXPRISXIN: put("(isin %d ", ((struct ast_upd_isxin_node *)n)->is_negation); break;
	case AST_TYPE_UPD_EXPRISXNULL: put("(isnull %d ", ((struct ast_upd_isxnull_node *)n)->is_negation); break;
	case AST_TYPE_SEL_EXPRVAL: VAL(ast_sel_exprval_node, v->value_type.is_name)
	case AST_TYPE_SEL_EXPROP: put("(op %d ", ((struct ast_sel_exprop_node *)n)->op_type); break;
	case AST_TYPE_SEL_ALIAS: put("(alias %s ", ((struct ast_sel_alias_node *)n)->alias_value); break;
	case AST_TYPE_SEL_TABLE: put("(table %s", ((struct ast_sel_table_node *)n)->table_name); break;
	case AST_TYPE_SEL_FIELDNAME: put("(field %s.%s", ((struct ast_sel_fieldname_node *)n)->table_name, ((struct ast_sel_fieldname_node *)n)->col_name); break;
	case AST_TYPE_SEL_SELECTALL: put("(all"); break;
	case AST_TYPE_SEL_CMP: put("(cmp %d ", ((struct ast_sel_cmp_node *)n)->cmp_type); break;
	case AST_TYPE_SEL_LOGOP: put("(logop %d ", ((struct ast_sel_logop_node *)n)->logop_type); break;
	case AST_TYPE_SEL_EXPRISXIN: put("(isin %d ", ((struct ast_sel_isxin_node *)n)->is_negation); break;
	case AST_TYPE_SEL_EXPRISXNULL: put("(isnull %d ", ((struct ast_sel_isxnull_node *)n)->is_negation); break;
	case AST_TYPE_SEL_COUNT: put("(count %d ", ((struct ast_sel_count_node *)n)->all); break;
	case AST_TYPE_SEL_LIKE: put("(like %d ", ((struct ast_sel_like_node *)n)->negate); break;
	case AST_TYPE_SEL_ONEXPR: put("(on "); break;
	case AST_TYPE_SEL_JOIN: put("(join %d ", ((struct ast_sel_join_node *)n)->join_type); break;
	case AST_TYPE_SEL_WHERE: put("(where "); break;
	case AST_TYPE_SEL_GROUPBY: put("(groupby "); break;
	case AST_TYPE_SEL_ORDERBYLIST: put("(orderby "); break;
	case AST_TYPE_SEL_ORDERBYITEM: put("(item %d ", ((struct ast_sel_orderbyitem_node *)n)->direction); break;
	case AST_TYPE_SEL_HAVING: put("(having "); break;
	case AST_TYPE_SEL_LIMIT: put("(limit "); break;
	case AST_TYPE_SEL_SELECT: put("(select %d ", ((struct ast_sel_select_node *)n)->distinct); break;
	default: put("(unknown node %d", n->node_type);
	}
	kids(n);
	put(")");
}

void harness(void)
{
	gen_pool();
	an = 0;
	longish = false;
	budget = 6 + rnd(60);
	int k = rnd(8);
	struct ex e = k == 0 ? gcreate() : k == 1 ? ginsert() : k == 2 ? gdelete() : k == 3 ? gupdate() : k == 4 ? ginsert() : gselect();
	begin();
	VP_REQUIRE(strlen(e.s) < sizeof(sql) - 1 && strlen(e.t) < sizeof(got) / 2 && an < sizeof(arena) / 2);
	out("%s", e.s);
	long live0 = vp_live;
	int fail_at = 0, allocs = 0;
	for (int try = 0; try < 5; try++) {
		struct queue q = {0};
		VP_REQUIRE(queue_init(&q));
		VP_ENSURE(syntax_parse(sql, &q) == 0, "tree.parse: a statement of the grammar is parsed");
		vp_oom_n = 0;
		vp_oom_at = fail_at ? fail_at : 1 << 30;
		struct ast_node *n = ast_build_tree(&q);
		vp_oom_at = 0;
		int total = vp_oom_n;
		queue_free(&q);
		if (fail_at && total >= fail_at) {
			VP_ENSURE(n == NULL, "tree.oom: no tree comes out of a failed construction");
		} else {
			VP_ENSURE(n != NULL, "tree.built: a tree is built");
			gn = 0;
			dump(n);
			VP_ENSURE(!strcmp(got, e.t), "tree.same: the tree is the one the statement was written with");
			ast_free(n);
		}
		VP_ENSURE(vp_live == live0, "tree.leak: nothing is left behind");
		if (!fail_at)
			allocs = total;
		if (!allocs || (!try && chance(2)))
			break;
		fail_at = 1 + rnd(allocs);
	}
	VP_COVER("tree");
}
