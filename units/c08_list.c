/* C08: insertion and removal in a circular list of any length: only the neighbours change. The nodes that
 * matter are head, the two next to the place of change; everything farther away is out of the frame. */
#include <datastructure/linkedlist.h>
static struct list_head nd[8];
static void chain(int n) { for (int i = 0; i < n; i++) { nd[i].next = &nd[(i + 1) % n]; nd[i].prev = &nd[(i + n - 1) % n]; } }
static bool is(const int *order, int n)
{
	for (int i = 0; i < n; i++)
		if (nd[order[i]].next != &nd[order[(i + 1) % n]] || nd[order[i]].prev != &nd[order[(i + n - 1) % n]]) return false;
	return true;
}
void harness(void)
{
	int n = vp_choice(1, 7), at = vp_choice(0, 6), op = vp_choice(0, 1);
	VP_REQUIRE(at < n);
	chain(n);
	int o[8], m = 0;
	VP_ENSURE(list_length(&nd[0]) == (size_t)n - 1, "list.length");
	if (op == 0) {
		/* a new node after node 'at' (the head of a list is any of its nodes) */
		list_add(&nd[7], &nd[at]);
		for (int i = 0; i < n; i++) { o[m++] = i; if (i == at) o[m++] = 7; }
	} else {
		VP_REQUIRE(at > 0);
		list_del(&nd[at]);
		for (int i = 0; i < n; i++) if (i != at) o[m++] = i;
		VP_ENSURE(nd[at].next == NULL && nd[at].prev == NULL, "list.del.unlinked");
	}
	VP_ENSURE(is(o, m), "list.order: the other elements stay, in order");
	VP_ENSURE(list_length(&nd[0]) == (size_t)m - 1 && list_is_empty(&nd[0]) == (m == 1), "list.length");
	list_head_init(&nd[0]);
	VP_ENSURE(list_is_empty(&nd[0]) && nd[0].prev == &nd[0], "list.init: starts empty");
	VP_COVER("list");
}
