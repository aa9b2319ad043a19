/* C06: one operation of the hash table from an arbitrary well-formed state (induction step over histories) */
#include <datastructure/hashtable.h>

#define NK 4
static uint8_t h[NK];

static size_t hfn(const void *key, size_t len) { return h[*(const uint8_t*)key]; }
static bool cfn(const void *a, size_t al, const void *b, size_t bl) { return *(const uint8_t*)a == *(const uint8_t*)b; }

static bool present[NK];
static uint64_t val[NK];
static int seen[NK];
static int visits;

static void cb(struct hashtable *ht, const void *key, size_t klen, const void *value, size_t vlen, void *arg)
{
	uint8_t k = *(const uint8_t*)key;
	VP_ENSURE(k < NK && klen == 1 && vlen == 8, "hash.foreach.entry");
	uint64_t v;
	memcpy(&v, value, 8);
	VP_ENSURE(present[k] && v == val[k], "hash.foreach.value: every entry visited is present, with its value");
	seen[k]++;
	visits++;
}

static void check(struct hashtable *ht, int n)
{
	VP_ENSURE(ht->count == (size_t)n, "hash.count: the count is the number of keys present");
	for (int k = 0; k < NK; k++) {
		uint8_t key = k;
		struct hashtable_value *v = hashtable_get(ht, &key, 1);
		VP_ENSURE((v != NULL) == present[k], "hash.get: a key is found exactly when it is present");
		if (v) {
			uint64_t x;
			memcpy(&x, v->content, 8);
			VP_ENSURE(v->len == 8 && x == val[k], "hash.value: with the value stored under it");
		}
		seen[k] = 0;
	}
	visits = 0;
	hashtable_foreach(ht, cb, NULL);
	for (int k = 0; k < NK; k++)
		VP_ENSURE(seen[k] == (present[k] ? 1 : 0), "hash.foreach: every present key is visited once");
}

void harness(void)
{
	struct hashtable ht;
	int cap = vp_choice(1, 4);
	ht.capacity = cap;
	ht.count = 0;
	ht.compare_fn = cfn;
	ht.hash_fn = hfn;
	ht.array = malloc(sizeof(uintptr_t) * cap);
	VP_REQUIRE(ht.array != NULL);
	struct list_head *bucket[4];
	for (int i = 0; i < 4; i++) {
		if (i >= cap)
			break;
		bucket[i] = malloc(sizeof(struct list_head));
		VP_REQUIRE(bucket[i] != NULL);
		bucket[i]->next = bucket[i]->prev = bucket[i];
		((struct list_head**)ht.array)[i] = bucket[i];
	}
	int mask = vp_choice(0, (1 << NK) - 1);
	int hp = vp_choice(0, 255);
	int n = 0;
	for (int k = 0; k < NK; k++) {
		h[k] = (hp >> (2 * k)) & 3;
		present[k] = (mask >> k) & 1;
		seen[k] = 0;
		if (!present[k])
			continue;
		struct hashtable_entry *e = malloc(sizeof(struct hashtable_entry));
		VP_REQUIRE(e != NULL);
		uint8_t *kc = malloc(1);
		uint64_t *vc = malloc(8);
		VP_REQUIRE(kc != NULL && vc != NULL);
		*kc = k;
		val[k] = *vc = vp_u64();
		e->key.content = kc;
		e->key.len = 1;
		e->value.content = vc;
		e->value.len = 8;
		struct list_head *b = bucket[h[k] % cap];
		e->head.next = b->next;
		e->head.prev = b;
		b->next->prev = &e->head;
		b->next = &e->head;
		ht.count++;
		n++;
	}
	uint8_t key = vp_choice(0, NK - 1);
	uint64_t nv = vp_u64();
	int op = vp_choice(0, 2);
	long live0 = vp_live;
	if (op == 0) {
		vp_oom_at = vp_choice(0, 7);
		vp_oom_n = 0;
		bool oom = vp_oom_at;
		bool ok = hashtable_put(&ht, &key, 1, &nv, 8);
		vp_oom_at = 0;
		VP_ENSURE(!(ok && present[key]), "hash.put.taken: a key that is present is refused");
		if (!oom)
			VP_ENSURE(ok == !present[key], "hash.put.new: a new key is accepted while memory lasts");
		if (ok) {
			present[key] = true;
			val[key] = nv;
			n++;
		} else {
			VP_ENSURE(vp_live == live0, "hash.put.leak: a refused insertion keeps no memory");
		}
	} else if (op == 1) {
		struct hashtable_entry *e = hashtable_remove(&ht, &key, 1);
		VP_ENSURE((e != NULL) == present[key], "hash.remove: an entry comes back exactly when the key is present");
		if (e) {
			VP_ENSURE(*(uint8_t*)e->key.content == key && *(uint64_t*)e->value.content == val[key], "hash.remove.entry: the entry removed is the key's");
			hashtable_free_entry(e);
			present[key] = false;
			n--;
			VP_ENSURE(vp_live == live0 - 3, "hash.remove.memory: the entry is released whole");
		}
	} else {
		struct hashtable_value *v = hashtable_get(&ht, &key, 1);
		VP_ENSURE((v != NULL) == present[key], "hash.get.present");
	}
	check(&ht, n);
	VP_COVER("end");
}
