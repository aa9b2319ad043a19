/* C10 against the hash table's contract (C06): any names, any content of the catalogue.  The map is a ghost array
 * of (key bytes, value); hashtable_get and hashtable_put are their contracts. */
#include <engine/database.h>
#define K 3
#define L (TABLE_MAX_NAME + 1)
struct { char key[L]; size_t klen; struct table *t; bool in; } m[K];
static struct hashtable the_ht;
static struct hashtable_value val;
static struct table tbl[K + 1], *cell;
static bool put_called, put_ok;
static char gk[L]; static size_t gl; static struct table *gv; static size_t gvl;
static bool eq(int i, const void *key, size_t n)
{
	if (m[i].klen != n) return false;
	for (size_t j = 0; j < L; j++) if (j < n && m[i].key[j] != ((const char *)key)[j]) return false;
	return true;
}
struct hashtable_value *hashtable_get(struct hashtable *ht, const void *key, size_t klen)
{
	VP_ENSURE(ht == &the_ht && key && klen > 0 && klen <= L, "db.get.pre: the look-up is made in the catalogue");
	for (int i = 0; i < K; i++)
		if (m[i].in && eq(i, key, klen)) { cell = m[i].t; val.content = (void *)&cell; val.len = 8; return &val; }
	return NULL;
}
bool hashtable_put(struct hashtable *ht, const void *key, size_t klen, const void *value, size_t vlen)
{
	VP_ENSURE(ht == &the_ht && klen > 0 && klen <= L && vlen == sizeof(void *), "db.put.pre");
	put_called = true;
	if (!put_ok) return false;
	gl = klen; gv = *(struct table **)value; gvl = vlen;
	for (size_t j = 0; j < L; j++) if (j < klen) gk[j] = ((const char *)key)[j];
	return true;
}
static void anyname(char *s)
{
	for (int i = 0; i < L - 1; i++) { s[i] = vp_u8(); }
	s[L - 1] = 0;
}
static bool same(const char *a, const char *b)
{
	for (int i = 0; i < L; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; }
	return true;
}
void harness(void)
{
	struct database db = { .tables = &the_ht };
	char q[L];
	int n = vp_range(0, K), found = -1;
	for (int i = 0; i < K; i++) {
		m[i].t = &tbl[i]; m[i].in = i < n;
		anyname(tbl[i].name);
		/* the catalogue's invariant: the key of a table is its name with the terminator; names are distinct */
		m[i].klen = strlen(tbl[i].name) + 1;
		for (size_t j = 0; j < L; j++) m[i].key[j] = tbl[i].name[j];
		for (int j = 0; j < i; j++) VP_REQUIRE(i >= n || !same(tbl[i].name, tbl[j].name));
	}
	anyname(q);
	for (int i = 0; i < n; i++) if (same(q, tbl[i].name)) found = i;
	VP_ENSURE(database_table_get(&db, q) == (found < 0 ? NULL : &tbl[found]), "db.get: exactly the table added under that name");
	VP_ENSURE(database_table_exists(&db, q) == (found >= 0), "db.exists");
	struct table *nt = &tbl[K];
	for (size_t j = 0; j < L; j++) nt->name[j] = q[j];
	put_ok = vp_bool();
	int rc = database_table_add(&db, nt);
	VP_ENSURE(put_called == (found < 0), "db.add.taken: a taken name leaves the catalogue alone");
	VP_ENSURE((rc == MIDORIDB_OK) == (found < 0 && put_ok), "db.add: refused exactly when the name is taken or memory is out");
	if (rc == MIDORIDB_OK) {
		VP_ENSURE(gv == nt && gl == strlen(q) + 1, "db.add.entry: the table is stored under its whole name");
		for (size_t j = 0; j < L; j++) VP_ENSURE(j >= gl || gk[j] == q[j], "db.add.key: the table is stored under its whole name");
	}
	VP_COVER("catalogue");
}
