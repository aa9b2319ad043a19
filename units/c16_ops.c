/* C16: one arithmetic step, for all operand values (no bound) */
#ifdef VP_CBMC
double __CPROVER_uninterpreted_fmod(double, double);
double fmod(double x, double y) /* assumed: libm's fmod is a function of its arguments */
{
	return __CPROVER_uninterpreted_fmod(x, y);
}
#endif
#include "../src/engine/optimiser_insert.c"

static struct ast_ins_exprval_node a, b, o;
static struct ast_ins_exprop_node op;

static void flags(struct ast_ins_exprval_node *n, bool dbl, bool null)
{
	n->value_type.is_intnum = !dbl && !null;
	n->value_type.is_approxnum = dbl && !null;
	n->value_type.is_null = null;
	n->value_type.is_str = n->value_type.is_bool = n->value_type.is_negation = false;
}
static bool only(const struct ast_ins_exprval_node *n, bool dbl, bool null)
{
	return n->value_type.is_intnum == (!dbl && !null) && n->value_type.is_approxnum == (dbl && !null) && n->value_type.is_null == null &&
		!n->value_type.is_str && !n->value_type.is_bool && !n->value_type.is_negation;
}
/* the step writes its result over the first operand, as its caller has it; a is the right-hand operand, b the left-hand one */
void harness(void)
{
	bool dbl = vp_choice(0, 1);
	int kind = vp_choice(0, 5); /* + - * / % negation */
	bool na = vp_bool(), nb = vp_bool();
	flags(&b, dbl, nb);
	flags(&a, dbl, na);
	double x = 0, y = 0, d = 0;
	int64_t i = 0, j = 0, n = 0;
	if (dbl) {
		uint64_t u = vp_u64(), v = vp_u64();
		memcpy(&x, &u, 8);
		memcpy(&y, &v, 8);
		b.double_val = x;
		a.double_val = y;
	} else {
		i = vp_i64();
		j = vp_i64();
		b.int_val = i;
		a.int_val = j;
		/* the property is about results that fit */
		int64_t r;
		if (kind == 0)
			VP_REQUIRE(!__builtin_add_overflow(i, j, &r));
		if (kind == 1)
			VP_REQUIRE(!__builtin_sub_overflow(i, j, &r));
		if (kind == 2)
			VP_REQUIRE(!__builtin_mul_overflow(i, j, &r));
		if (kind >= 3)
			VP_REQUIRE(i != INT64_MIN || (kind < 5 && j != -1));
	}
	bool null = na || nb;
	op.op_type = kind;
	if (kind == 5) {
		null = nb;
		flags(&a, dbl, false);
		a.value_type.is_intnum = a.value_type.is_approxnum = false;
		a.value_type.is_negation = true;
		negate(&b, &a);
		d = -x;
		n = -i;
	} else if (dbl) {
		calcd(&op, &a, &b, &a);
		switch (kind) {
		case 0: d = x + y; break;
		case 1: d = x - y; break;
		case 2: d = x * y; break;
		case 3: null = null || y == 0; if (!null) d = x / y; break;
		default: null = null || trunc(y) == 0; if (!null) d = fmod(trunc(x), trunc(y)); break;
		}
	} else {
		calci(&op, &a, &b, &a);
		switch (kind) {
		case 0: n = i + j; break;
		case 1: n = i - j; break;
		case 2: n = i * j; break;
		case 3: null = null || j == 0; if (!null) n = i / j; break;
		default: null = null || j == 0; if (!null) n = i % j; break;
		}
	}
	VP_ENSURE(only(&a, dbl, null), "step.null: NULL exactly for a NULL operand or a zero divisor; a number keeps its kind");
	if (dbl)
		VP_ENSURE(null || a.double_val == d || (d != d && a.double_val != a.double_val), "step.double: the operator's result in floating point");
	else
		VP_ENSURE(null || a.int_val == n, "step.int: the operator's result in 64-bit integers");
	VP_COVER("end");
}
