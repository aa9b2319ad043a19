/* C08: the vector, for any content, length and capacity */
#include <datastructure/vector.h>
#ifdef VP_CBMC
#define BIG (1ull << 32)
#define VP_FILL(p, n) ((void)0) /* a fresh object has arbitrary content */
#else
#define BIG 3000
#define VP_FILL(p, n) do { uint64_t vp_s = vp_u64(); for (size_t vp_i = 0; vp_i < (n); vp_i++) ((char *)(p))[vp_i] = vp_s >> (8 * (vp_i % 7)) ^ vp_i; } while (0)
#endif
void harness(void)
{
	int op = vp_choice(0, 2);
	long live0 = vp_live;
	struct vector v;
	if (op == 2) {
		vp_oom = true;
		bool ok = vector_init(&v);
		if (!ok) { VP_ENSURE(vp_live == live0, "vector.init.fail"); return; }
		VP_ENSURE(v.len == 0 && v.data && vp_live == live0 + 1, "vector.init: starts empty");
		vector_free(&v);
		VP_ENSURE(v.len == 0 && v.data == NULL && vp_live == live0, "vector.free: everything is released");
		goto done;
	}
	size_t cap = vp_range(1, BIG), len = vp_range(0, BIG), n = vp_range(1, BIG);
	VP_REQUIRE(len <= cap);
	v.data = malloc(cap); v.capacity = cap; v.len = len;
	char *src = malloc(n);
	VP_REQUIRE(v.data && src);
	VP_FILL(v.data, cap);
	VP_FILL(src, n);
	char *odata = v.data;
	if (op == 1) {
		vector_clear(&v);
		VP_ENSURE(v.len == 0 && v.capacity == cap && v.data == odata, "vector.clear: empties the vector");
		free(src);
		vector_free(&v);
		goto done;
	}
	size_t g = vp_range(0, 2 * BIG); /* any byte of the result */
	VP_REQUIRE(g < len + n);
	size_t h = g < len ? g : 0;
	char oldb = v.data[h], sb = g >= len ? src[g - len] : 0;
	bool inlen = g < len;
	vp_oom = true;
	bool ok = vector_push(&v, src, n);
	vp_oom = false;
	VP_ENSURE(vp_live == live0 + 2, "vector.push.leak");
	if (!ok) {
		VP_ENSURE(v.len == len && v.capacity == cap && v.data == odata && (len == 0 || v.data[h] == oldb), "vector.push.fail: a refused push leaves the vector as it was");
	} else {
		VP_ENSURE(v.len == len + n && v.capacity >= v.len, "vector.push.len");
		VP_ENSURE(inlen ? v.data[g] == oldb : v.data[g] == sb, "vector.push.content: what was there, then what was pushed");
		VP_ENSURE(g < len || src[g - len] == sb, "vector.push.source: the source is untouched");
	}
	vp_oom = true;
	VP_ENSURE(!vector_push(&v, src, 0) && !vector_push(&v, NULL, 1), "vector.push.nothing");
	free(src);
	vector_free(&v);
	VP_ENSURE(v.data == NULL && v.len == 0 && vp_live == live0, "vector.free: everything is released");
done:
	VP_COVER("vector");
}
