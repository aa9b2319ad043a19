/* C08, run-time check: long histories of vector, stack, queue and list, with allocations that fail */
#include <datastructure/stack.h>
#include <datastructure/queue.h>
#include <datastructure/linkedlist.h>
static char mv[1 << 16]; static size_t ml;
static char img[512][40]; static int il[512]; static int first, last;
static void fill(char *b, int n, uint32_t s) { for (int i = 0; i < n; i++) b[i] = s * 7 + i * 3 + (s >> 5); }
void harness(void)
{
	long live0 = vp_live;
	int what = vp_range(0, 2), ops = vp_range(0, 400), bias = vp_range(1, 3);
	char b[300];
	first = last = 0; ml = 0;
	struct vector v; struct stack st; struct queue q;
	vp_oom = vp_range(0, 9) == 0;
	bool up = what == 0 ? vector_init(&v) : what == 1 ? stack_init(&st) : queue_init(&q);
	vp_oom = false;
	VP_ENSURE(up || vp_live == live0, "init.fail: nothing is leaked");
	if (!up) return;
	for (int i = 0; i < ops; i++) {
		int op = vp_range(0, 3);
		uint32_t s = vp_range(0, 0xffff);
		vp_oom = vp_range(0, 7) == 0;
		long l = vp_live;
		if (what == 0) {
			int n = vp_range(1, 300);
			if (op == 0 && s < 2000) { vector_clear(&v); ml = 0; }
			else if (ml + n < sizeof(mv)) {
				fill(b, n, s);
				bool ok = vector_push(&v, b, n);
				VP_ENSURE(ok || vp_oom, "vector.push.ok");
				if (ok) { memcpy(mv + ml, b, n); ml += n; }
			}
			VP_ENSURE(v.len == ml && !memcmp(v.data, mv, ml) && v.capacity >= v.len && vp_live == l, "vector.content: everything pushed, in order");
		} else {
			if (op <= bias && last < 512) {
				int n = vp_range(1, 40);
				fill(img[last], n, s); il[last] = n;
				bool ok = what == 1 ? stack_push(&st, img[last], n) : queue_offer(&q, img[last], n);
				VP_ENSURE(ok || vp_oom, "push.ok");
				VP_ENSURE(vp_live == l + ok, "push.leak");
				last += ok;
			} else if (last > first) {
				char *e = what == 1 ? (char *)stack_pop(&st) : queue_poll(&q);
				int k = what == 1 ? --last : first++;
				VP_ENSURE(e && !memcmp(e, img[k], il[k]), "pop: the right element comes out");
				free(e);
			}
			VP_ENSURE((what == 1 ? stack_empty(&st) : queue_empty(&q)) == (first == last), "empty");
			if (what == 2) VP_ENSURE(queue_length(&q) == (size_t)(last - first), "queue.length");
			for (int j = first; j < last; j++) {
				char *e = what == 1 ? (char *)stack_peek_pos(&st, j) : queue_peek_pos(&q, j - first);
				VP_ENSURE(!memcmp(e, img[j], il[j]), "peek_pos: the element at that position");
			}
			if (last > first) {
				char *e = what == 1 ? (char *)stack_peek(&st) : queue_peek(&q);
				int k = what == 1 ? last - 1 : first;
				VP_ENSURE(!memcmp(e, img[k], il[k]), "peek");
			}
		}
		vp_oom = false;
	}
	if (what == 0) vector_free(&v); else if (what == 1) stack_free(&st); else queue_free(&q);
	VP_ENSURE(vp_live == live0, "free: everything is released");
}
