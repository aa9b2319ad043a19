/* C08: stack and queue operations on any number of elements: elements are told apart by their pointers */
#include <datastructure/stack.h>
#include <datastructure/queue.h>
#ifdef VP_CBMC
#define BIG (1ull << 20)
#define ELM (1ull << 20)
#else
#define BIG 300
#define ELM 64
#endif
#ifdef VP_CBMC
/* memmove's contract, as far as it is needed: the bytes of the observed element arrive; nothing is assumed about the others */
static size_t ghost; /* offset of the observed element in the source */
void *memmove(void *d, const void *s, size_t n)
{
	__CPROVER_precondition(__CPROVER_r_ok(s, n), "memmove source region readable");
	__CPROVER_precondition(__CPROVER_w_ok(d, n), "memmove destination region writeable");
	uint64_t v = 0;
	if (ghost + 8 <= n) v = *(uint64_t *)((char *)s + ghost);
	__CPROVER_havoc_object(d);
	if (ghost + 8 <= n) __CPROVER_assume(*(uint64_t *)((char *)d + ghost) == v);
	return d;
}
#else
static size_t ghost;
#endif
static struct vector vec;
static char some[2];
static char **slot(size_t i) { return (char **)vec.data + i; }
void harness(void)
{
	int op = vp_choice(0, 9);
	long live0 = vp_live;
	size_t cap = vp_range(2, BIG), n = vp_range(0, BIG);
	VP_REQUIRE(n <= cap);
	vec.data = malloc(cap * 8); vec.capacity = cap * 8; vec.len = n * 8;
	VP_REQUIRE(vec.data);
#ifndef VP_CBMC
	for (size_t i = 0; i < n; i++) *slot(i) = (char *)(i * 16 + 8);
#endif
	struct stack st = { .arr = &vec, .idx = (int)n - 1 };
	struct queue q = { .arr = &vec };
	size_t g = vp_range(0, BIG); /* any element */
	VP_REQUIRE(g < n || n == 0);
	if (op != 0 && op != 1 && op != 5 && op != 9) VP_REQUIRE(n > 0);
	uint64_t tag = vp_u64() | 1;
	if (n) *slot(g) = (char *)tag;
	char *top = n ? *slot(n - 1) : NULL, *first = n ? *slot(0) : NULL;
	char *odata = vec.data;
	size_t el = vp_range(1, ELM), eg = vp_range(0, ELM);
	VP_REQUIRE(eg < el);
	char *data = malloc(el);
	VP_REQUIRE(data);
#ifndef VP_CBMC
	for (size_t i = 0; i < el; i++) data[i] = i + tag;
#endif
	char eb = data[eg];
	bool same = true;
	ghost = g ? (g - 1) * 8 : 0;
	long l1 = vp_live;
	if (op == 0) { /* push, queue offer: the same contract */
		vp_oom = true;
		bool ok = stack_push(&st, data, el);
		vp_oom = false;
		VP_ENSURE(vec.len == 8 * (n + ok) && st.idx == (int)(n + ok) - 1, "stack.push.size");
		VP_ENSURE(vp_live == l1 + ok, "stack.push.leak");
		if (ok) {
			char *e = *slot(n);
			VP_ENSURE(e != data && e[eg] == eb, "stack.push.copy: a copy of the content is on top");
			VP_ENSURE((char *)stack_peek(&st) == e && !stack_empty(&st), "stack.peek: the top is what was pushed");
			free(e);
		}
	} else if (op == 1) {
		vp_oom = true;
		bool ok = stack_unsafe_push(&st, some);
		vp_oom = false;
		VP_ENSURE(vec.len == 8 * (n + ok) && st.idx == (int)(n + ok) - 1 && vp_live == l1, "stack.push.size");
		VP_ENSURE(!ok || *slot(n) == some, "stack.push.top");
	} else if (op == 2) {
		VP_ENSURE(!stack_empty(&st), "stack.empty");
		char *e = (char *)stack_pop(&st);
		VP_ENSURE(e == top && vec.len == 8 * (n - 1) && st.idx == (int)n - 2, "stack.pop: last in, first out");
		VP_ENSURE(stack_empty(&st) == (n == 1), "stack.empty");
	} else if (op == 3) {
		VP_ENSURE((char *)stack_peek(&st) == top && st.idx == (int)n - 1 && vec.len == 8 * n, "stack.peek: the top, unchanged");
	} else if (op == 4) {
		VP_ENSURE((char *)stack_peek_pos(&st, (int)g) == (char *)tag && st.idx == (int)n - 1 && vec.len == 8 * n, "stack.peek_pos: the element at that position");
	} else if (op == 5) {
		vp_oom = true;
		bool ok = queue_offer(&q, data, el);
		vp_oom = false;
		VP_ENSURE(vec.len == 8 * (n + ok) && queue_length(&q) == n + ok, "queue.offer.size");
		VP_ENSURE(vp_live == l1 + ok, "queue.offer.leak");
		if (ok) {
			char *e = *slot(n);
			VP_ENSURE(e != data && e[eg] == eb, "queue.offer.copy: a copy of the content is at the end");
			free(e);
		}
	} else if (op == 6) {
		char *e = queue_poll(&q);
		VP_ENSURE(e == first && vec.len == 8 * (n - 1) && queue_length(&q) == n - 1, "queue.poll: first in, first out");
		VP_ENSURE(g == 0 || *slot(g - 1) == (char *)tag, "queue.poll.rest: the others keep their order");
		VP_ENSURE(queue_empty(&q) == (n == 1), "queue.empty");
		same = false;
	} else if (op == 7) {
		VP_ENSURE((char *)queue_peek(&q) == first && vec.len == 8 * n, "queue.peek: the first, unchanged");
	} else if (op == 8) {
		VP_ENSURE((char *)queue_peek_pos(&q, g) == (char *)tag && vec.len == 8 * n, "queue.peek_pos: the element at that position");
	} else {
		VP_REQUIRE(n == 0);
		VP_ENSURE(queue_poll(&q) == NULL && queue_peek(&q) == NULL && queue_empty(&q) && stack_empty(&st) && queue_length(&q) == 0, "queue.empty: nothing comes out of an empty one");
	}
	if (same && n && g < vec.len / 8)
		VP_ENSURE(*slot(g) == (char *)tag, "stack.rest: the other elements stay as they were");
	VP_ENSURE(data[eg] == eb, "stack.source: the source is untouched");
	VP_COVER("stack");
	free(data);
	free(vec.data);
	(void)odata;
}
