/* C16: every expression of a VALUES list becomes its value, as the operators and the nesting written say */
#include <parser/ast.h>
#include <engine/optimiser.h>
#include <engine/executor.h>
#include <math.h>

#ifdef VP_CBMC
/*
 * Contracts of the arithmetic steps (discharged by c16_ops, where the operator is the machine's own): the result is
 * the operator applied to the left and the right operand, whatever the operator does.
 */
int64_t __CPROVER_uninterpreted_opi(int, int64_t, int64_t);
uint64_t __CPROVER_uninterpreted_opd(int, uint64_t, uint64_t);
/* a double by its bits, all NaNs being the same one */
#define CANON(u) (((u) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull ? 0x7ff8000000000000ull : (u))
#define OPI(op, l, r) __CPROVER_uninterpreted_opi(op, l, r)
#define OPD(op, l, r) CANON(__CPROVER_uninterpreted_opd(op, CANON(l), CANON(r)))
#define NEVER(n) (!(n)->value_type.is_str && !(n)->value_type.is_bool && !(n)->value_type.is_negation)
static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1, struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
__CPROVER_requires(op->op_type >= AST_INS_EXPR_OP_ADD && op->op_type <= AST_INS_EXPR_OP_MOD && NEVER(val_1) && NEVER(val_2) && !val_1->value_type.is_approxnum && !val_2->value_type.is_approxnum)
__CPROVER_assigns(out->int_val, out->value_type)
__CPROVER_ensures(NEVER(out) && !out->value_type.is_approxnum && out->value_type.is_intnum == !out->value_type.is_null)
__CPROVER_ensures(out->value_type.is_null == (__CPROVER_old(val_1->value_type.is_null) || __CPROVER_old(val_2->value_type.is_null) || (op->op_type >= AST_INS_EXPR_OP_DIV && __CPROVER_old(val_1->int_val) == 0)))
__CPROVER_ensures(out->value_type.is_null || out->int_val == OPI(op->op_type, __CPROVER_old(val_2->int_val), __CPROVER_old(val_1->int_val)));
static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1, struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
__CPROVER_requires(op->op_type >= AST_INS_EXPR_OP_ADD && op->op_type <= AST_INS_EXPR_OP_MOD && NEVER(val_1) && NEVER(val_2) && !val_1->value_type.is_intnum && !val_2->value_type.is_intnum)
__CPROVER_assigns(out->int_val, out->value_type)
__CPROVER_ensures(NEVER(out) && !out->value_type.is_intnum && out->value_type.is_approxnum == !out->value_type.is_null)
__CPROVER_ensures(out->value_type.is_null == (__CPROVER_old(val_1->value_type.is_null) || __CPROVER_old(val_2->value_type.is_null) ||
	(op->op_type == AST_INS_EXPR_OP_DIV && __CPROVER_old(val_1->double_val) == 0) ||
	(op->op_type == AST_INS_EXPR_OP_MOD && __CPROVER_old(val_1->double_val) > -1 && __CPROVER_old(val_1->double_val) < 1)))
__CPROVER_ensures(out->value_type.is_null || CANON((uint64_t)out->int_val) == OPD(op->op_type, (uint64_t)__CPROVER_old(val_2->int_val), (uint64_t)__CPROVER_old(val_1->int_val))); /* int_val: the bits of double_val */
#include "../src/engine/optimiser_insert.c"
#else
#define OPI(op, l, r) (op == AST_INS_EXPR_OP_ADD ? (l) + (r) : op == AST_INS_EXPR_OP_SUB ? (l) - (r) : op == AST_INS_EXPR_OP_MUL ? (l) * (r) : op == AST_INS_EXPR_OP_DIV ? (l) / (r) : (l) % (r))
#define OPD(op, l, r) (op == AST_INS_EXPR_OP_ADD ? (l) + (r) : op == AST_INS_EXPR_OP_SUB ? (l) - (r) : op == AST_INS_EXPR_OP_MUL ? (l) * (r) : op == AST_INS_EXPR_OP_DIV ? (l) / (r) : fmod(trunc(l), trunc(r)))
#endif
struct num {
	bool null;
	int64_t i;
	double d;
};
static bool dbl;

static struct list_head *head(void)
{
	struct list_head *h = malloc(sizeof(*h));
	VP_REQUIRE(h != NULL);
	h->next = h->prev = h;
	return h;
}
static void link(struct list_head *n, struct list_head *h)
{
	n->next = h;
	n->prev = h->prev;
	h->prev->next = n;
	h->prev = n;
}
static struct ast_ins_exprval_node *lit(void)
{
	struct ast_ins_exprval_node *n = malloc(sizeof(*n));
	VP_REQUIRE(n != NULL);
	memset(n, 0, sizeof(*n));
	n->node_type = AST_TYPE_INS_EXPRVAL;
	n->node_children_head = head();
	return n;
}
static struct num apply(int op, struct num l, struct num r)
{
	struct num x = { l.null || r.null, 0, 0 };
	if (x.null)
		return x;
	x.null = dbl ? (op == AST_INS_EXPR_OP_DIV && r.d == 0) || (op == AST_INS_EXPR_OP_MOD && r.d > -1 && r.d < 1) : op >= AST_INS_EXPR_OP_DIV && r.i == 0;
	if (x.null)
		return x;
	if (dbl) {
#ifdef VP_CBMC
		uint64_t a, b, c;
		memcpy(&a, &l.d, 8);
		memcpy(&b, &r.d, 8);
		c = OPD(op, a, b);
		memcpy(&x.d, &c, 8);
#else
		x.d = OPD(op, l.d, r.d);
#endif
		return x;
	}
#ifndef VP_CBMC
	int64_t v; /* results that fit */
	VP_REQUIRE(op < AST_INS_EXPR_OP_DIV || r.i != -1 || l.i != INT64_MIN);
	VP_REQUIRE(!(op == AST_INS_EXPR_OP_ADD ? __builtin_add_overflow(l.i, r.i, &v) : op == AST_INS_EXPR_OP_SUB ? __builtin_sub_overflow(l.i, r.i, &v) : op == AST_INS_EXPR_OP_MUL ? __builtin_mul_overflow(l.i, r.i, &v) : 0));
#endif
	x.i = OPI(op, l.i, r.i);
	return x;
}
/* a tree of the shape the inputs say: 0 literal, 1-5 operator, 6 sign; and what it means */
static struct list_head *tree(int depth, struct num *x)
{
	int kind = vp_choice(0, 6);
	VP_REQUIRE(depth < 4 || kind == 0);
	if (kind == 0) {
		struct ast_ins_exprval_node *n = lit();
		x->null = false;
		x->i = 0;
		x->d = 0;
		if (dbl) {
			uint64_t u = vp_u64();
			memcpy(&x->d, &u, 8);
			n->double_val = x->d;
			n->value_type.is_approxnum = true;
		} else {
			n->int_val = x->i = vp_i64();
			n->value_type.is_intnum = true;
		}
		return &n->head;
	}
	struct ast_ins_exprop_node *op = malloc(sizeof(*op));
	VP_REQUIRE(op != NULL);
	op->node_type = AST_TYPE_INS_EXPROP;
	op->node_children_head = head();
	struct num l;
	if (kind == 6) {
		struct ast_ins_exprval_node *n = lit();
		op->op_type = AST_INS_EXPR_OP_MUL;
		n->int_val = -1;
		n->value_type.is_negation = true;
		link(&n->head, op->node_children_head);
		link(tree(depth + 1, &l), op->node_children_head);
		VP_REQUIRE(dbl || l.null || l.i != INT64_MIN);
		x->null = l.null;
		x->i = l.null ? 0 : -l.i;
		x->d = -l.d;
		return &op->head;
	}
	struct num r;
	op->op_type = AST_INS_EXPR_OP_ADD + kind - 1;
	struct list_head *a = tree(depth + 1, &l), *b = tree(depth + 1, &r);
	link(b, op->node_children_head);
	link(a, op->node_children_head);
	*x = apply(op->op_type, l, r);
	return &op->head;
}
#define NV 3
void harness(void)
{
	static struct num want[NV];
	struct ast_ins_insvals_node *s = malloc(sizeof(*s));
	struct ast_ins_values_node *v = malloc(sizeof(*v));
	VP_REQUIRE(s != NULL && v != NULL);
	memset(s, 0, sizeof(*s));
	s->node_type = AST_TYPE_INS_INSVALS;
	s->node_children_head = head();
	s->row_count = 1;
	v->node_type = AST_TYPE_INS_VALUES;
	v->node_children_head = head();
	v->value_count = vp_choice(1, NV);
	link(&v->head, s->node_children_head);
	dbl = vp_choice(0, 1);
	int nv = v->value_count;
	for (int i = 0; i < NV; i++)
		if (i < nv)
			link(tree(0, &want[i]), v->node_children_head);
	struct query_output out;
	struct database db;
	int rc = optimiser_run_insertvals_stmt(&db, s, &out);
	VP_ENSURE(rc == MIDORIDB_OK, "math.ok: evaluating the expressions succeeds");
	struct list_head *p = v->node_children_head->next;
	for (int i = 0; i < NV; i++)
		if (i < nv) {
			VP_ENSURE(p != v->node_children_head, "math.number: no value is lost");
			struct ast_ins_exprval_node *n = list_entry(p, struct ast_ins_exprval_node, head);
			VP_ENSURE(n->node_type == AST_TYPE_INS_EXPRVAL, "math.value: every expression has become a value");
			VP_ENSURE(n->value_type.is_null == want[i].null, "math.null: NULL exactly after a division or modulo by zero");
			VP_ENSURE(want[i].null || (n->value_type.is_intnum == !dbl && n->value_type.is_approxnum == dbl), "math.kind: a number of the operands' kind");
			VP_ENSURE(want[i].null || dbl || n->int_val == want[i].i, "math.int: the result, in the order and nesting written");
			VP_ENSURE(want[i].null || !dbl || n->double_val == want[i].d || (want[i].d != want[i].d && n->double_val != n->double_val), "math.double: the result, in the order and nesting written");
			p = p->next;
		}
	VP_ENSURE(p == v->node_children_head && v->value_count == nv, "math.number: no value is added");
	ast_free((struct ast_node*)s);
	VP_ENSURE(vp_live == 0, "math.leak: the operator nodes are released");
	VP_COVER("end");
}
