/* C06, run-time check: long histories with the real string hash, checked against an array */
#include <datastructure/hashtable.h>
#define NK 96
#define OPS 400
static bool present[NK];
static uint32_t val[NK];
static size_t vl[NK];
static int seen[NK];
static int mode;
static void name(int k, char *s)
{
	if (mode == 0) sprintf(s, "key%d", k);
	else { /* "Ab"/"BA"-style strings of one length with equal djb2 hashes in pairs */
		int p = 0;
		for (int b = 0; b < 7; b++)
			if ((k >> b) & 1) { s[p++] = 'b'; s[p++] = 'A' ; } else { s[p++] = 'a'; s[p++] = 'b'; }
		s[p] = 0;
	}
}
static int ident(const void *key)
{
	char s[32];
	for (int k = 0; k < NK; k++) { name(k, s); if (!strcmp(s, key)) return k; }
	return -1;
}
static void cb(struct hashtable *ht, const void *key, size_t klen, const void *value, size_t vlen, void *arg)
{
	int k = ident(key);
	VP_ENSURE(k >= 0 && present[k] && vlen == vl[k] && klen == strlen(key) + 1 && arg == seen, "hash.foreach.entry: only present entries are visited");
	seen[k]++;
}
static void cb_rm(struct hashtable *ht, const void *key, size_t klen, const void *value, size_t vlen, void *arg)
{
	struct hashtable_entry *e = hashtable_remove(ht, key, klen);
	VP_ENSURE(e != NULL, "hash.foreach.remove: removing the visited entry works");
	hashtable_free_entry(e);
}
static void fill(char *b, size_t n, uint32_t v) { for (size_t i = 0; i < n; i++) b[i] = (v >> (8 * (i % 4))) + i; }

void harness(void)
{
	struct hashtable ht;
	long live0 = vp_live;
	mode = vp_range(0, 1);
	memset(present, 0, sizeof(present));
	VP_REQUIRE(hashtable_init(&ht, &hashtable_str_compare, &hashtable_str_hash));
	int n = 0, ops = vp_range(0, OPS), nk = vp_range(1, NK), bias = vp_range(1, 3);
	for (int i = 0; i < ops; i++) {
		int k = vp_range(0, nk - 1);
		char s[32], buf[64];
		name(k, s);
		size_t l = strlen(s) + 1;
		int op = vp_range(0, 4);
		if (op <= bias) {
			uint32_t v = vp_range(0, 0xffffff);
			size_t len = vp_range(1, 64);
			fill(buf, len, v);
			vp_oom = vp_range(0, 9) == 0;
			bool oom = vp_oom;
			long l0 = vp_live;
			bool ok = hashtable_put(&ht, s, l, buf, len);
			vp_oom = false;
			VP_ENSURE(!(ok && present[k]), "hash.put.taken");
			VP_ENSURE(oom || ok == !present[k], "hash.put.new");
			if (ok) { present[k] = true; val[k] = v; vl[k] = len; n++; }
			else VP_ENSURE(vp_live == l0, "hash.put.leak");
		} else if (op == 4) {
			struct hashtable_entry *e = hashtable_remove(&ht, s, l);
			VP_ENSURE((e != NULL) == present[k], "hash.remove");
			if (e) { VP_ENSURE(!strcmp(e->key.content, s), "hash.remove.entry"); hashtable_free_entry(e); present[k] = false; n--; }
		}
		VP_ENSURE(ht.count == (size_t)n, "hash.count");
		if (i % 16 == 0 || i == ops - 1) {
			memset(seen, 0, sizeof(seen));
			hashtable_foreach(&ht, cb, seen);
			for (k = 0; k < NK; k++) {
				name(k, s);
				struct hashtable_value *v = hashtable_get(&ht, s, strlen(s) + 1);
				VP_ENSURE((v != NULL) == present[k] && seen[k] == present[k], "hash.get: found and visited exactly when present");
				if (v) { fill(buf, vl[k], val[k]); VP_ENSURE(v->len == vl[k] && !memcmp(v->content, buf, vl[k]), "hash.value"); }
			}
		}
	}
	hashtable_foreach(&ht, cb_rm, NULL);
	VP_ENSURE(ht.count == 0, "hash.drain: removing while visiting reaches every entry");
	hashtable_free(&ht);
	VP_ENSURE(vp_live == live0, "hash.leak: everything is released in the end");
}
