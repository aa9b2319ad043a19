/* C08: list_add and list_del in a list of any length: whatever the rest of the list looks like, exactly the
 * links around the place of change are set and every other node is untouched (so by induction on the ring the
 * other elements keep their order).  Nodes 4 and 5 stand for everything farther away. */
#include <datastructure/linkedlist.h>
static struct list_head nd[6], old[6];
void harness(void)
{
	int op = vp_choice(0, 1);
	for (int i = 0; i < 6; i++) {
		int a = vp_range(0, 5), b = vp_range(0, 5);
		nd[i].next = &nd[a]; nd[i].prev = &nd[b];
	}
	/* a piece of a well-formed ring around head / the entry */
	if (op == 0) {
		struct list_head *head = &nd[0], *new = &nd[1], *nx = head->next;
		VP_REQUIRE(nx != new && nx->prev == head);
		memcpy(old, nd, sizeof(nd));
		list_add(new, head);
		VP_ENSURE(head->next == new && new->prev == head && new->next == nx && nx->prev == new, "list.add.links: the new node sits right behind head");
		VP_ENSURE(nx == head || (head->prev == old[0].prev && nx->next == old[nx - nd].next), "list.add.frame: the outward links stay");
		for (int i = 2; i < 6; i++)
			VP_ENSURE(&nd[i] == nx || (nd[i].next == old[i].next && nd[i].prev == old[i].prev), "list.add.frame: no other node changes");
	} else {
		struct list_head *e = &nd[0], *nx = e->next, *pv = e->prev;
		VP_REQUIRE(nx != e && pv != e && nx->prev == e && pv->next == e);
		memcpy(old, nd, sizeof(nd));
		list_del(e);
		VP_ENSURE(pv->next == nx && nx->prev == pv, "list.del.links: the neighbours are linked to each other");
		VP_ENSURE(nx == pv || (nx->next == old[nx - nd].next && pv->prev == old[pv - nd].prev), "list.del.frame: the outward links stay");
		for (int i = 1; i < 6; i++)
			VP_ENSURE(&nd[i] == nx || &nd[i] == pv || (nd[i].next == old[i].next && nd[i].prev == old[i].prev), "list.del.frame: no other node changes");
		VP_ENSURE(e->next == NULL && e->prev == NULL, "list.del.unlinked");
	}
	VP_COVER("list");
}
