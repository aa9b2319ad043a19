/* C07: one operation on any B-tree of the given shape: the map afterwards, the ordering, the fill of every node,
 * the depth of every leaf, and the memory.  Keys are compared only through cmp_fn, so only their order matters:
 * the keys present are 2, 4, .. and the key of the operation is any number from 1 to beyond the last. */
#include "c07_common.h"
#define BK 40
static uint64_t key[BK], val[BK], opkey, opval;
static int n, T, nr, op, stale, oom, grand;
static uint64_t cc;
static uint64_t junk = 1000;
static void mk(struct btree_node *x, int cnt, bool leaf, int stale)
{
	x->keys = calloc(2 * T, sizeof(struct btree_node_tuple));
	x->children = calloc(2 * T, sizeof(struct btree_node));
	VP_REQUIRE(x->keys && x->children);
	x->key_count = cnt;
	x->is_leaf = leaf;
	/* slots beyond the count may hold what was there before */
	for (int i = cnt; i < 2 * T; i++)
		if (stale == 1) { x->keys[i].key = &opkey; x->keys[i].value = &junk; }
		else if (stale == 2) { x->keys[i].key = &junk; x->keys[i].value = &junk; }
}
static void put(struct btree_node *x, int i) { x->keys[i].key = &key[n]; x->keys[i].value = &val[n]; n++; }

static void one(uint64_t k)
{
	int live0 = vp_live;
	n = 0;
	struct btree_head *h = btree_init(T, btree_cmp_ul);
	VP_REQUIRE(h);
	if (nr > 0) {
		struct btree_node *root = calloc(1, sizeof(*root));
		VP_REQUIRE(root);
		mk(root, nr, cc == 0, stale);
		for (int i = 0; i <= nr; i++) {
			if (cc) {
				int cnt = (cc >> (3 * i)) & 7;
				VP_REQUIRE(cnt >= T - 1 && cnt <= 2 * T - 1);
				struct btree_node *c = &root->children[i];
				mk(c, cnt, grand == 0, stale);
				for (int j = 0; j <= cnt; j++) {
					if (grand) {
						VP_REQUIRE(grand >= T - 1);
						mk(&c->children[j], grand, true, stale);
						for (int k = 0; k < grand; k++) { VP_REQUIRE(n < BK); put(&c->children[j], k); }
					}
					if (j < cnt) { VP_REQUIRE(n < BK); put(c, j); }
				}
			}
			if (i < nr) { VP_REQUIRE(n < BK); put(root, i); }
		}
		h->root = root;
	}
	VP_REQUIRE(k <= 2 * n + 1);
	opkey = k;
	int pos = (opkey - 1) / 2;                 /* keys below opkey */
	bool present = opkey % 2 == 0;
	int d = 0, ret = 0;
	bool built = spec_btree(h);
	VP_ENSURE(built && vn == n, "btree.build (harness)");

	vp_oom_at = oom; vp_oom_n = 0;
	if (op == 0) {
		uint64_t *v = btree_lookup(h, &opkey);
		VP_ENSURE(present ? v == &val[pos] : v == NULL, "btree.lookup: the value of the key, or nothing");
	} else if (op == 1) {
		bool r = btree_update(h, &opkey, &opval);
		VP_ENSURE(r == present, "btree.update: reports whether the key is there");
	} else if (op == 2) {
		ret = btree_insert(h, &opkey, &opval);
		VP_ENSURE(oom || ret == 0, "btree.insert.ok");
		if (ret == 0) d = 1;
	} else {
		ret = btree_remove(h, &opkey);
		VP_ENSURE(ret == 0, "btree.remove.ok");
		if (present) d = -1;
	}
	vp_oom_at = 0;

	bool shape = spec_btree(h);
	VP_ENSURE(shape || ret != 0, "btree.shape: ordered keys, node fill within bounds, leaves at one depth");
	VP_ENSURE(vn == n + d, "btree.count: no key lost or duplicated");
	for (int i = 0; i < vn; i++) {
		int m = d == -1 && i >= pos ? i + 1 : d == 1 && i > pos ? i - 1 : i;
		bool isop = d == 1 && i == pos;
		VP_ENSURE(vk[i] == (isop ? opkey : key[m]), "btree.keys: the keys are those expected");
		VP_ENSURE(vv[i] == (isop || (op == 1 && present && i == pos) ? opval : val[m]), "btree.values: every key keeps its value");
	}
	VP_ENSURE(vp_live - live0 == 1 + (vn || nodes ? 1 : 0) + 2 * nodes, "btree.memory: exactly the nodes in the tree are allocated");
	btree_destroy(&h);
	VP_ENSURE(h == NULL && vp_live == live0, "btree.destroy: everything is released");
}

void harness(void)
{
	T = vp_choice(2, 3);
	nr = vp_choice(0, 2 * T - 1);      /* keys in the root (0: an empty tree) */
	cc = vp_choice(0, 1000000);        /* 0: the root is a leaf; else child key counts, base 8 digits */
	op = vp_choice(0, 3);
	stale = vp_choice(0, 2);
	oom = vp_choice(0, 7);
	grand = vp_choice(0, 2 * T - 1);   /* keys of every grandchild, 0: none */
	int total = vp_choice(0, BK - 1);  /* all keys */
	int lo = vp_choice(1, 2 * BK), hi = vp_choice(1, 2 * BK);
	VP_REQUIRE(hi <= 2 * total + 1);
	VP_REQUIRE(op != 3 || oom == 0);   /* removal without memory is not covered */
	for (int i = 0; i < BK; i++) { key[i] = 2 * (i + 1); val[i] = vp_u64(); }
	opval = vp_u64();
	for (int k = lo; k <= hi; k++)
		if (op != 2 || k % 2) one(k);
	VP_COVER("btree");
}
