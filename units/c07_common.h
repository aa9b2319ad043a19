/* C07: what it means to be a B-tree and which map it holds */
#include "../src/datastructure/btree.c"
#define MAXN 600
static uint64_t vk[MAXN], vv[MAXN];
static int vn, leafdepth, nodes;
static bool ok_tree;
static void walk(struct btree_head *h, struct btree_node *n, int depth, bool root)
{
	nodes++;
	if (n->key_count > 2 * h->min_degree - 1 || n->key_count < 0) { ok_tree = false; return; }
	if (n->key_count < (root ? 1 : h->min_degree - 1)) ok_tree = false;
	if (n->is_leaf) {
		if (leafdepth < 0) leafdepth = depth;
		if (leafdepth != depth) ok_tree = false;
	}
	for (int i = 0; i <= n->key_count; i++) {
		if (!n->is_leaf) walk(h, &n->children[i], depth + 1, false);
		if (i < n->key_count && vn < MAXN) {
			vk[vn] = *(uint64_t *)n->keys[i].key;
			vv[vn] = *(uint64_t *)n->keys[i].value;
			vn++;
		}
	}
}
/* shape invariant; fills vk/vv[0..vn) with the map, in order */
static bool spec_btree(struct btree_head *h)
{
	ok_tree = true; vn = 0; leafdepth = -1; nodes = 0;
	if (h->root) walk(h, h->root, 0, true);
	for (int i = 1; i < vn; i++) if (vk[i - 1] >= vk[i]) ok_tree = false;
	return ok_tree;
}
