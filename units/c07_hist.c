/* C07, run-time check: long histories over any minimum degree, checked against an array */
#include "c07_common.h"
static uint64_t key[MAXN], val[MAXN];
static bool in[MAXN];
static uint64_t *cur[MAXN];
void harness(void)
{
	long live0 = vp_live;
	int t = vp_range(2, 6), nk = vp_range(1, 200), ops = vp_range(0, 500), bias = vp_range(1, 5), n = 0;
	memset(in, 0, sizeof(in));
	struct btree_head *h = btree_init(t, btree_cmp_ul);
	for (int i = 0; i < nk; i++) { key[i] = i * 3 + 1; val[i] = i; }
	for (int i = 0; i < ops; i++) {
		int k = vp_range(0, nk - 1), op = vp_range(0, 7);
		uint64_t *nv = &val[vp_range(0, nk - 1)];
		if (op <= bias) {
			if (!in[k]) { int r = btree_insert(h, &key[k], nv); VP_ENSURE(r == 0, "btree.insert.ok"); in[k] = true; cur[k] = nv; n++; }
		} else if (op <= 6) {
			int r = btree_remove(h, &key[k]);
			VP_ENSURE(r == 0, "btree.remove.ok");
			n -= in[k]; in[k] = false;
		} else {
			bool r = btree_update(h, &key[k], nv);
			VP_ENSURE(r == in[k], "btree.update");
			if (r) cur[k] = nv;
		}
		VP_ENSURE(spec_btree(h) && vn == n, "btree.shape");
		for (int j = 0, p = 0; j < nk; j++) {
			uint64_t *v = btree_lookup(h, &key[j]);
			VP_ENSURE(in[j] ? v == cur[j] : v == NULL, "btree.lookup: the value of the key, or nothing");
			if (in[j]) { VP_ENSURE(vk[p] == key[j] && vv[p] == *cur[j], "btree.map"); p++; }
		}
		VP_ENSURE(vp_live - live0 == 1 + (nodes ? 1 : 0) + 2 * nodes, "btree.memory");
	}
	btree_destroy(&h);
	VP_ENSURE(vp_live == live0, "btree.destroy: everything is released");
}
