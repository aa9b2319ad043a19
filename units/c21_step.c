/*
 * C21: one token of the statement, whatever was built before it. From a stack of trees (any trees: only the topmost can
 * matter, and the code has no access to their content but through its own list functions) and the token, the builder
 * takes exactly the token's operands off the stack, makes the token's node with them as children in the order they were
 * written, and puts it on the stack. The tree of a whole statement follows by induction over its tokens (they are in
 * postfix order). When any allocation fails, nothing is returned and everything built so far is released.
 *
 * The stack and the queue are their C08 contracts (a sequence); the regular expression match hands out the groups of the
 * token, and atoi and the like read the numbers in them. Everything else is the code that runs.
 */
#include <parser/ast.h>
#include <datastructure/stack.h>
#include <datastructure/queue.h>
#include <lib/regex.h>

#ifndef VP_CBMC
#error "a proof; the run-time check of the same contract on whole statements is c21_tree.c"
#endif

#define MAXOP 12
static int k;          /* operands the token takes */
static int extra;      /* trees below them */
static bool reversed;  /* arithmetic keeps its right operand first */
static bool negated;   /* minus: the operand and the constant -1, the constant first */
static bool discarded; /* the token makes no node */
static bool is_stmt;
static bool unknown;   /* a token no builder knows (CASE, CURRENT_DATE): the statement is rejected */
static char g0[300], g1[300], g2[300];
static char *const grp[3] = { g0, g1, g2 };
static long long gint[3];
static double gdbl;
static struct ast_node *operand[MAXOP], *below[4];
static const char *tok[8];
static int ntok, tok_at, op, count, where;
static struct stack *main_st;
static struct ast_node *st_n[MAXOP + 8];
static int st_len;
static long live0;

static size_t glen[3];
static bool texted;
static bool has_args, matched;
/* the group as the node must hold it: cut to the room there is, and NUL behind it */
static bool same(const char *a, int g, size_t room)
{
	bool eq = true;
	for (size_t i = 0; i < room; i++)
		eq = eq & (a[i] == (i < glen[g] && i < room - 1 ? grp[g][i] : 0));
	return eq;
}
static void text(int g, int most)
{
	if (texted) return;
	glen[g] = vp_range(1, most);
	for (int i = 0; i < most; i++) {
		char c = (char)vp_u8();
		VP_REQUIRE(c != 0);
		grp[g][i] = (size_t)i < glen[g] ? c : 0;
	}
	grp[g][most] = 0;
}
/* a token: its keyword, and its arguments, which only the regular expression reads */
static void token(const char *word, bool args)
{
	size_t n = strlen(word);
	has_args |= args;
	char *t = malloc(n + 5);
	VP_REQUIRE(t != NULL);
	for (size_t i = 0; i < n; i++) t[i] = word[i];
	t[n] = args ? ' ' : 0;
	for (int i = 1; i < 4; i++) t[n + i] = args ? (char)vp_u8() : 0;
	t[n + 4] = 0;
	tok[ntok++] = t;
}
static struct ast_node *tree(void)
{
	struct ast_node *n = malloc(sizeof(*n));
	struct list_head *h = malloc(sizeof(*h));
	VP_REQUIRE(n && h);
	n->node_type = (enum ast_node_type)vp_range(0, AST_TYPE_SEL_SELECT);
	n->node_children_head = h;
	list_head_init(h);
	list_head_init(&n->head);
	return n;
}
#define LONG(room) ((int)(room) + 2 < 299 ? (int)(room) + 2 : 299)

/* the driver's choices are asked for once, and repeat */
static uint64_t asked[12];
static int asked_n, asked_at;
static uint64_t choice(uint64_t lo, uint64_t hi)
{
	if (asked_at == asked_n) asked[asked_n++] = vp_choice(lo, hi);
	return asked[asked_at++];
}
static void again(void)
{
	asked_at = 0;
	k = 0;
	has_args = matched = false;
	reversed = negated = discarded = is_stmt = unknown = false;
}

/* ---- the tokens of each statement: what they are made of, and what their nodes hold ---- */
#define SETUP 0
#define CHECK 1
#define NODE(T, S) struct S *v = (struct S *)n; if (mode == CHECK) VP_ENSURE(v->node_type == T, "step.type: the node is of the token's type")
#define NAMEFLD(f, g) do { if (mode == SETUP) text(g, LONG(sizeof(((typeof(v))0)->f))); else VP_ENSURE(same(v->f, g, sizeof(v->f)), "step.name: the node holds the name written"); } while (0)
#define INTFLD(f, g, lo, hi) do { if (mode == SETUP) { gint[g] = vp_i64(); VP_REQUIRE(gint[g] >= (lo) && gint[g] <= (hi)); } else VP_ENSURE(v->f == (typeof(v->f))gint[g], "step.number: the node holds the number written"); } while (0)
#define COUNT(g, lo) do { if (mode == SETUP) { count = choice(lo, 6); gint[g] = count; k += count; } } while (0)
#define FLAGS(x) VP_ENSURE(v->value_type.is_intnum == (x == 0) && v->value_type.is_str == (x == 1) && v->value_type.is_approxnum == (x == 2) && v->value_type.is_bool == (x == 3) && v->value_type.is_null == (x == 4), "step.flags: the value's type is the one written, and only that")
#define VALUES_(T, S, NAMES) \
	case 0: case 1: case 2: case 3: case 4: { NODE(T, S); \
		static const char *const w[] = { "NUMBER", "STRING", "FLOAT", "BOOL", "NULL" }; \
		if (mode == SETUP) { token(w[op], op != 4); gint[0] = vp_i64(); gdbl = (double)vp_i64() / 64; \
			if (op == 1) text(0, LONG(sizeof(((typeof(v))0)->str_val))); if (op == 3) VP_REQUIRE(gint[0] == 0 || gint[0] == 1); } \
		else { FLAGS(op); NAMES; \
			if (op == 0) VP_ENSURE(v->int_val == gint[0], "step.value: the value is the one written"); \
			if (op == 1) VP_ENSURE(same(v->str_val, 0, sizeof(v->str_val)), "step.value: the value is the one written"); \
			if (op == 2) VP_ENSURE(v->double_val == gdbl, "step.value: the value is the one written"); \
			if (op == 3) VP_ENSURE(v->bool_val == (gint[0] == 1), "step.value: the value is the one written"); } \
		break; }
#define NAME_(N, T, S) case N: { NODE(T, S); if (mode == SETUP) token("NAME", true); else { FLAGS(9); VP_ENSURE(v->value_type.is_name, "step.flags: a name"); } NAMEFLD(name_val, 0); break; }
#define CMP_(N, T, S) case N: { NODE(T, S); if (mode == SETUP) { token("CMP", true); k = 2; } INTFLD(cmp_type, 0, 1, 6); break; }
#define LOGOP_(N, T, S) case N: case N + 1: case N + 2: { NODE(T, S); static const char *const w[] = { "AND", "OR", "XOR" }; \
	if (mode == SETUP) { token(w[op - N], false); k = 2; } else VP_ENSURE((int)v->logop_type == op - N, "step.logop: the operator is the one written"); break; }
#define ISNULL_(N, T, S) case N: case N + 1: { NODE(T, S); if (mode == SETUP) { token(op == N ? "ISNULL" : "ISNOTNULL", false); k = 1; } else VP_ENSURE(v->is_negation == (op != N), "step.not: NOT is kept"); break; }
#define ISIN_(N, T, S) case N: case N + 1: { NODE(T, S); if (mode == SETUP) { token(op == N ? "ISIN" : "ISNOTIN", true); k = 1; } else VP_ENSURE(v->is_negation == (op != N), "step.not: NOT is kept"); COUNT(0, 1); break; }
#define OPS_(N, T, S) case N: case N + 1: case N + 2: case N + 3: case N + 4: { NODE(T, S); static const char *const w[] = { "ADD", "SUB", "MUL", "DIV", "MOD" }; \
	if (mode == SETUP) { token(w[op - N], false); k = 2; reversed = true; } else VP_ENSURE((int)v->op_type == op - N, "step.op: the operator is the one written"); break; }
#define NEG_(N, T, S, MUL) case N: { NODE(T, S); if (mode == SETUP) { token("NEG", false); k = 1; negated = true; } else VP_ENSURE(v->op_type == MUL, "step.neg: minus multiplies"); break; }
#define LIST_(N, T, S, W, lo) case N: { NODE(T, S); if (mode == SETUP) token(W, true); (void)v; COUNT(0, lo); break; }
#define WRAP_(N, T, S, W, pops) case N: { NODE(T, S); (void)v; if (mode == SETUP) { token(W, false); k = pops; } break; }
#define STMT_(N) case N: { if (mode == SETUP) { token("STMT", false); k = 1; is_stmt = true; } break; }

static void spec(int mode, struct ast_node *n)
{
	switch (op) {
#if MOD == 1
#define BUILD ast_insert_build_tree
	VALUES_(AST_TYPE_INS_EXPRVAL, ast_ins_exprval_node, (void)0)
	OPS_(5, AST_TYPE_INS_EXPROP, ast_ins_exprop_node)
	NEG_(10, AST_TYPE_INS_EXPROP, ast_ins_exprop_node, AST_INS_EXPR_OP_MUL)
	case 11: { NODE(AST_TYPE_INS_COLUMN, ast_ins_column_node); if (mode == SETUP) token("COLUMN", true); NAMEFLD(name, 0); break; }
	case 12: { NODE(AST_TYPE_INS_INSCOLS, ast_ins_inscols_node); if (mode == SETUP) token("INSERTCOLS", true); else VP_ENSURE(v->column_count == count, "step.count"); COUNT(0, 1); break; }
	case 13: { NODE(AST_TYPE_INS_VALUES, ast_ins_values_node); if (mode == SETUP) token("VALUES", true); else VP_ENSURE(v->value_count == count, "step.count"); COUNT(0, 1); break; }
	case 14: { NODE(AST_TYPE_INS_INSVALS, ast_ins_insvals_node);
		if (mode == SETUP) { token("INSERTVALS", true); where = choice(0, 1); gint[0] = where; k = where; }
		else VP_ENSURE(v->opt_column_list == where && v->row_count == count, "step.count");
		COUNT(1, 1); NAMEFLD(table_name, 2); break; }
	STMT_(15)
#elif MOD == 2
#define BUILD ast_delete_build_tree
	VALUES_(AST_TYPE_DEL_EXPRVAL, ast_del_exprval_node, VP_ENSURE(!v->value_type.is_name, "step.flags: not a name"))
	NAME_(5, AST_TYPE_DEL_EXPRVAL, ast_del_exprval_node)
	CMP_(6, AST_TYPE_DEL_CMP, ast_del_cmp_node)
	LOGOP_(7, AST_TYPE_DEL_LOGOP, ast_del_logop_node)
	ISNULL_(10, AST_TYPE_DEL_EXPRISXNULL, ast_del_isxnull_node)
	ISIN_(12, AST_TYPE_DEL_EXPRISXIN, ast_del_isxin_node)
	case 14: { NODE(AST_TYPE_DEL_DELETEONE, ast_del_deleteone_node); if (mode == SETUP) { token("DELETEONE", true); k = choice(0, 1); extra = 0; } NAMEFLD(table_name, 0); break; }
	case 15: { if (mode == SETUP) { token("WHERE", false); discarded = true; } break; }
	STMT_(16)
#elif MOD == 3
#define BUILD ast_update_build_tree
	VALUES_(AST_TYPE_UPD_EXPRVAL, ast_upd_exprval_node, VP_ENSURE(!v->value_type.is_name, "step.flags: not a name"))
	NAME_(5, AST_TYPE_UPD_EXPRVAL, ast_upd_exprval_node)
	CMP_(6, AST_TYPE_UPD_CMP, ast_upd_cmp_node)
	LOGOP_(7, AST_TYPE_UPD_LOGOP, ast_upd_logop_node)
	ISNULL_(10, AST_TYPE_UPD_EXPRISXNULL, ast_upd_isxnull_node)
	ISIN_(12, AST_TYPE_UPD_EXPRISXIN, ast_upd_isxin_node)
	case 14: { NODE(AST_TYPE_UPD_UPDATE, ast_upd_update_node); if (mode == SETUP) { token("UPDATE", true); where = choice(0, 1); gint[2] = where; k = where; } COUNT(1, 1); NAMEFLD(table_name, 0); break; }
	case 15: { if (mode == SETUP) { token("WHERE", false); discarded = true; } break; }
	case 16: { NODE(AST_TYPE_UPD_ASSIGN, ast_upd_assign_node); if (mode == SETUP) { token("ASSIGN", true); k = 1; } NAMEFLD(field_name, 0); break; }
	STMT_(17)
#elif MOD == 4
#define BUILD ast_select_build_tree
	VALUES_(AST_TYPE_SEL_EXPRVAL, ast_sel_exprval_node, VP_ENSURE(!v->value_type.is_name, "step.flags: not a name"))
	NAME_(5, AST_TYPE_SEL_EXPRVAL, ast_sel_exprval_node)
	CMP_(6, AST_TYPE_SEL_CMP, ast_sel_cmp_node)
	LOGOP_(7, AST_TYPE_SEL_LOGOP, ast_sel_logop_node)
	ISNULL_(10, AST_TYPE_SEL_EXPRISXNULL, ast_sel_isxnull_node)
	ISIN_(12, AST_TYPE_SEL_EXPRISXIN, ast_sel_isxin_node)
	OPS_(14, AST_TYPE_SEL_EXPROP, ast_sel_exprop_node)
	NEG_(19, AST_TYPE_SEL_EXPROP, ast_sel_exprop_node, AST_SEL_EXPR_OP_MUL)
	case 20: { NODE(AST_TYPE_SEL_ALIAS, ast_sel_alias_node); if (mode == SETUP) { token("ALIAS", true); k = 1; } NAMEFLD(alias_value, 0); break; }
	case 21: { NODE(AST_TYPE_SEL_FIELDNAME, ast_sel_fieldname_node); if (mode == SETUP) token("FIELDNAME", true); NAMEFLD(table_name, 0); NAMEFLD(col_name, 1); break; }
	WRAP_(22, AST_TYPE_SEL_SELECTALL, ast_sel_selectall_node, "SELECTALL", 0)
	case 23: { NODE(AST_TYPE_SEL_TABLE, ast_sel_table_node); if (mode == SETUP) token("TABLE", true); NAMEFLD(table_name, 0); break; }
	case 24: case 25: { NODE(AST_TYPE_SEL_COUNT, ast_sel_count_node); if (mode == SETUP) { token(op == 24 ? "COUNTALL" : "COUNTFIELD", false); k = op - 24; } else VP_ENSURE(v->all == (op == 24), "step.count: COUNT(*) or COUNT of a column"); break; }
	case 26: case 27: { NODE(AST_TYPE_SEL_LIKE, ast_sel_like_node); if (mode == SETUP) { token(op == 26 ? "LIKE" : "NOTLIKE", false); k = 2; } else VP_ENSURE(v->negate == (op == 27), "step.not: NOT is kept"); break; }
	WRAP_(28, AST_TYPE_SEL_ONEXPR, ast_sel_onexpr_node, "ONEXPR", 1)
	case 29: { NODE(AST_TYPE_SEL_JOIN, ast_sel_join_node); if (mode == SETUP) { token("JOIN", true); k = 3; } INTFLD(join_type, 0, 1, 10); break; }
	WRAP_(30, AST_TYPE_SEL_WHERE, ast_sel_where_node, "WHERE", 1)
	LIST_(31, AST_TYPE_SEL_GROUPBY, ast_sel_groupby_node, "GROUPBYLIST", 1)
	LIST_(32, AST_TYPE_SEL_ORDERBYLIST, ast_sel_orderbylist_node, "ORDERBYLIST", 1)
	case 33: { NODE(AST_TYPE_SEL_ORDERBYITEM, ast_sel_orderbyitem_node); if (mode == SETUP) { token("ORDERBYITEM", true); k = 1; } INTFLD(direction, 0, 0, 1); break; }
	LIST_(34, AST_TYPE_SEL_LIMIT, ast_sel_limit_node, "LIMIT", 1)
	WRAP_(35, AST_TYPE_SEL_HAVING, ast_sel_having_node, "HAVING", 1)
	case 36: { NODE(AST_TYPE_SEL_SELECT, ast_sel_select_node); if (mode == SETUP) token("SELECT", true); COUNT(1, 1);
		if (mode == SETUP) { gint[0] = vp_range(0, 1) * 2; } else VP_ENSURE(v->distinct == (gint[0] != 0), "step.distinct"); break; }
	STMT_(37)
#elif MOD == 5
#define BUILD ast_create_build_tree
	case 0: { NODE(AST_TYPE_CRT_COLUMNDEF, ast_crt_column_def_node);
		static int nn, ai, uq, pk, ty, prec;
		if (mode == SETUP) {
			token("STARTCOL", false);
			nn = ai = uq = pk = 0;
			int attrs = choice(0, 3);
			for (int i = 0; i < attrs; i++) {
				int a = choice(0, 3);
				token(a == 0 ? "ATTR NOTNULL" : a == 1 ? "ATTR AUTOINC" : a == 2 ? "ATTR UNIQUEKEY" : "ATTR PRIKEY", false);
				if (a == 0) nn = 1; else if (a == 1) ai = 1; else if (a == 2) uq = 1; else pk = 1;
			}
			token("COLUMNDEF", true);
			ty = choice(0, 6);
			static const int code[] = { 4, 5, 6, 8, 10, 11, 13 };
			prec = ty == 6 ? (int)vp_range(1, 9999) : 0;
			gint[0] = code[ty] * 10000 + prec;
		} else {
			static const int kind[] = { CT_INTEGER, CT_INTEGER, CT_TINYINT, CT_DOUBLE, CT_DATE, CT_DATETIME, CT_VARCHAR };
			VP_ENSURE((int)v->type == kind[ty], "step.coltype: the column's type is the one written");
			VP_ENSURE(v->precision == (size_t)(ty == 6 ? prec : ty == 2 ? 1 : 8), "step.precision: and its size");
			VP_ENSURE(v->attr_not_null == (nn || pk) && v->attr_null == !(nn || pk), "step.attr: NOT NULL as written, or implied by PRIMARY KEY");
			VP_ENSURE(v->attr_uniq_key == (uq || pk) && v->attr_auto_inc == ai && v->attr_prim_key == pk, "step.attr: the attributes are the ones written");
		}
		NAMEFLD(name, 1); break; }
	case 1: { NODE(AST_TYPE_CRT_CREATE, ast_crt_create_node); if (mode == SETUP) { token("CREATE", true); gint[0] = vp_range(0, 1); } else VP_ENSURE(v->if_not_exists == (gint[0] == 1), "step.ine: IF NOT EXISTS is kept"); COUNT(1, 1); NAMEFLD(table_name, 2); break; }
	case 2: { NODE(AST_TYPE_CRT_INDEXCOL, ast_crt_index_column_node); if (mode == SETUP) token("COLUMN", true); NAMEFLD(name, 0); break; }
	case 3: case 4: { NODE(AST_TYPE_CRT_INDEXDEF, ast_crt_index_def_node); if (mode == SETUP) token(op == 3 ? "PRIKEY" : "KEY", true); else VP_ENSURE(v->is_pk == (op == 3) && v->is_index == (op == 4), "step.index: a primary key or an index"); COUNT(0, 1); break; }
	STMT_(5)
#endif
	case 39: { static const char *const w[] = { "NOW", "CASE", "CASEVAL" }; if (mode == SETUP) { token(w[choice(0, 2)], false); k = choice(0, 2); unknown = true; } break; }
	default: VP_REQUIRE(false);
	}
}

static bool is_minus(struct ast_node *c)
{
#if MOD == 1
	struct ast_ins_exprval_node *v = (void *)c;
	return v->node_type == AST_TYPE_INS_EXPRVAL && v->int_val == -1 && v->value_type.is_negation && !v->value_type.is_intnum && !v->value_type.is_str && !v->value_type.is_approxnum && !v->value_type.is_bool && !v->value_type.is_null;
#elif MOD == 4
	struct ast_sel_exprval_node *v = (void *)c;
	return v->node_type == AST_TYPE_SEL_EXPRVAL && v->int_val == -1 && v->value_type.is_negation && !v->value_type.is_name && !v->value_type.is_intnum && !v->value_type.is_str && !v->value_type.is_approxnum && !v->value_type.is_bool && !v->value_type.is_null;
#else
	return false;
#endif
}
static void check(struct ast_node *n)
{
	VP_ENSURE(n != NULL, "step.node: the token's node is made");
	VP_ENSURE(n->head.next == &n->head && n->head.prev == &n->head, "step.head: it is not in any list yet");
	spec(CHECK, n);
	struct list_head *h = n->node_children_head, *p = h;
	VP_ENSURE(h != NULL, "step.children: it has a list of children");
	if (negated) {
		VP_ENSURE(p->next != h && is_minus(list_entry(p->next, struct ast_node, head)), "step.minus: the constant -1");
		VP_ENSURE(p->next->prev == p, "step.linked");
		p = p->next;
	}
	for (int i = 0; i < k; i++) {
		struct ast_node *want = operand[reversed ? k - 1 - i : i];
		VP_ENSURE(p->next == &want->head, "step.order: every operand is a child, in the order they were written");
		VP_ENSURE(p->next->prev == p, "step.linked: the list is linked both ways");
		p = &want->head;
	}
	VP_ENSURE(p->next == h && h->prev == p, "step.only: nothing else is a child");
}
static void done(void)
{
	VP_COVER("done");
	__CPROVER_assume(0);
}
static void arrived(void)
{
	/* the step is over */
	VP_ENSURE(matched || !has_args, "model.regex: the token's arguments are read by the regular expression");
	int top = extra + (discarded ? k : 0);
	VP_ENSURE(st_len == top + !discarded, "step.pop: exactly the operands have left the stack, and the node is on it");
	for (int i = 0; i < extra; i++)
		VP_ENSURE(st_n[i] == below[i], "step.below: the trees below stay as they were");
	if (!discarded)
		check(st_n[extra]);
	VP_ENSURE(vp_live == live0 - ntok + 1 + (discarded ? 0 : 2) + (negated ? 2 : 0), "step.leak: the node and its list of children are all that is new");
	done();
}
bool queue_empty(struct queue *q)
{
	if (tok_at == ntok && !is_stmt)
		arrived();
	return tok_at == ntok;
}
void *queue_peek(struct queue *q) { return tok_at < ntok ? (void *)tok[tok_at] : NULL; }
void *queue_peek_pos(struct queue *q, size_t i) { return (void *)tok[tok_at + i]; }
size_t queue_length(struct queue *q) { return ntok - tok_at; }
void *queue_poll(struct queue *q)
{
	VP_ENSURE(tok_at < ntok, "step.token: only the token is consumed");
	return (void *)tok[tok_at++];
}
static bool refuse(void) { return vp_oom_at && ++vp_oom_n == vp_oom_at; }
bool stack_init(struct stack *s)
{
	if (refuse()) return false;
	if (!main_st) {
		main_st = s;
		for (int i = 0; i < extra; i++) st_n[i] = below[i];
		for (int i = 0; i < k; i++) st_n[extra + i] = operand[i];
		st_len = extra + k;
	}
	vp_live++;
	return true;
}
void stack_free(struct stack *s)
{
	if (s == main_st) VP_ENSURE(st_len == 0, "step.dropped: no tree is left on a stack that is released");
	vp_live--;
}
bool stack_empty(struct stack *s) { return s == main_st ? st_len == 0 : false; }
bool stack_unsafe_push(struct stack *s, void *d)
{
	VP_ENSURE(s == main_st, "model.push: trees are kept on the builder's own stack");
	VP_ENSURE(st_len < MAXOP + 8, "step.push");
	if (refuse()) return false;
	st_n[st_len++] = d;
	return true;
}
uintptr_t *stack_pop(struct stack *s)
{
	VP_ENSURE(s == main_st, "model.pop: trees are kept on the builder's own stack");
	VP_ENSURE(st_len > 0, "step.pop: the operands are there");
	return (uintptr_t *)st_n[--st_len];
}
uintptr_t *stack_peek(struct stack *s)
{
	VP_ENSURE(s == main_st, "model.pop: trees are kept on the builder's own stack");
	VP_ENSURE(st_len > 0, "step.pop: the operands are there");
	return (uintptr_t *)st_n[st_len - 1];
}
uintptr_t *stack_peek_pos(struct stack *s, int i)
{
	VP_ENSURE(s != main_st && i >= 0 && i < 3, "model.group: a group of the token");
	return (uintptr_t *)(i == 0 ? g0 : i == 1 ? g1 : g2);
}
bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
{
	matched = true;
	return !refuse();
}
static long long number(const char *s)
{
	VP_ENSURE(s == g0 || s == g1 || s == g2, "model.number: a group of the token is read as a number");
	return s == g0 ? gint[0] : s == g1 ? gint[1] : gint[2];
}
int atoi(const char *s) { return (int)number(s); }
long atol(const char *s) { return number(s); }
long long atoll(const char *s) { return number(s); }
double atof(const char *s) { number(s); return gdbl; }
static char end_of_number;
long strtol(const char *s, char **end, int base) { if (end) *end = &end_of_number; return number(s); }
long long strtoll(const char *s, char **end, int base) { if (end) *end = &end_of_number; return number(s); }
double strtod(const char *s, char **end) { if (end) *end = &end_of_number; number(s); return gdbl; }
static size_t length(const char *s)
{
	VP_ENSURE(s == g0 || s == g1 || s == g2, "model.copy: a group of the token is copied");
	return s == g0 ? glen[0] : s == g1 ? glen[1] : glen[2];
}
char *strncpy(char *d, const char *s, size_t n)
{
	size_t len = length(s);
	for (size_t i = 0; i < n; i++)
		d[i] = i < len ? s[i] : 0;
	return d;
}
int snprintf(char *d, size_t n, const char *f, ...)
{
	if (f[0] == '%' && f[1] == 's' && f[2] == 0) {
		va_list ap;
		va_start(ap, f);
		const char *s = va_arg(ap, const char *);
		va_end(ap);
		size_t len = length(s);
		for (size_t i = 0; i < n; i++)
			d[i] = i < len && i < n - 1 ? s[i] : 0;
		return (int)len;
	}
	VP_ENSURE(false, "model.format: a group of the token is copied");
	return 0;
}

void harness(void)
{
	op = vp_choice(0, 40);
	extra = vp_choice(0, 2);
	/* the first allocation fails, the second, ...; when there is none left to fail, the step is made (and the path ends there) */
	for (int oom = 1; ; oom++) {
		long before = vp_live;
		main_st = NULL;
		ntok = tok_at = 0;
		again();
		spec(SETUP, NULL);
		texted = true;
		if (is_stmt) extra = 0;
		for (int i = 0; i < k; i++) operand[i] = tree();
		for (int i = 0; i < extra; i++) below[i] = tree();
		live0 = vp_live;
		vp_oom_at = oom;
		vp_oom_n = 0;
		struct ast_node *r = BUILD(NULL);
		vp_oom_at = 0;
		bool failed = vp_oom_n >= oom;
		VP_ENSURE((failed || unknown) == (r == NULL) && (failed || unknown || is_stmt), "step.oom: it comes back with a tree at the statement's end, and without one when an allocation failed");
		if (!failed && unknown)
			;
		else if (!failed) {
			VP_ENSURE(r == operand[0], "step.root: the statement's tree is what is on the stack");
			VP_ENSURE(vp_live == live0 - (tok_at ? 1 : 0), "step.leak: nothing new");
			ast_free(r);
		} else if (!main_st) {
			for (int i = 0; i < k; i++) ast_free(operand[i]);
			for (int i = 0; i < extra; i++) ast_free(below[i]);
		}
		while (tok_at < ntok) free((void *)tok[tok_at++]);
		VP_ENSURE(vp_live == before, "step.oom: everything built so far is released");
		if (!failed)
			done();
	}
}
