/* C10: the catalogue over the real hash table: tables with names that are prefixes of each other, that differ in
 * one character, that have equal hashes and that have the greatest length */
#include <engine/database.h>
#define NN 8
#ifdef MIDORIDB_VERIF_SMALL
#define LONG1 "aaaaaaaaaaaaaaa"
#define LONG2 "aaaaaaaaaaaaaab"
#else
static char LONG1[TABLE_MAX_NAME + 1], LONG2[TABLE_MAX_NAME + 1];
/* names of the greatest length, or almost, which agree to the last character, or to the last but one */
static void gen_long(void)
{
	int n = TABLE_MAX_NAME - (vp_range(0, 2) ? 0 : vp_range(0, 3));
	memset(LONG1, 0, sizeof(LONG1));
	memset(LONG2, 0, sizeof(LONG2));
	for (int i = 0; i < n; i++)
		LONG1[i] = 'a' + vp_range(0, 25);
	strcpy(LONG2, LONG1);
	if (vp_range(0, 1))
		LONG2[n - 1] = LONG1[n - 1] == 'z' ? 'a' : LONG1[n - 1] + 1;
	else
		LONG2[n - 1] = 0;
}
#endif
static char *const names[NN] = { "T", "t", "T1", "T12", "ab", "bA", LONG1, LONG2 };
static struct table *own[NN];
void harness(void)
{
	long live0 = vp_live;
	struct database db = { 0 };
#ifndef MIDORIDB_VERIF_SMALL
	gen_long();
#endif
	int oom = vp_choice(0, 9);
	VP_ENSURE(sizeof(names[0]) == 8, "x");
	int rc = database_open(&db);
	VP_ENSURE(rc == MIDORIDB_OK, "db.open");
	uint64_t seq = vp_choice(0, 0xffffff); /* names added, 4 bits each, 15: none */
	memset(own, 0, sizeof(own));
#ifndef MIDORIDB_VERIF_SMALL
	/* a catalogue that has grown */
	static char fill[64][TABLE_MAX_NAME + 1];
	struct table *ft[64];
	int nf = vp_range(0, 2) ? 0 : vp_range(0, 64);
	for (int i = 0; i < nf; i++) {
		snprintf(fill[i], sizeof(fill[i]), "%cill_%d", 'g' + (int)vp_range(0, 9), i);
		ft[i] = table_init(fill[i]);
		VP_REQUIRE(ft[i] && database_table_add(&db, ft[i]) == MIDORIDB_OK);
	}
#endif
	for (int i = 0; i < 6; i++) {
		int k = (seq >> (4 * i)) & 15;
		if (k >= NN) continue;
		struct table *t = table_init(names[k]);
		VP_REQUIRE(t);
		long l = vp_live;
		vp_oom_at = i >= 2 ? oom : 0; vp_oom_n = 0;
		rc = database_table_add(&db, t);
		bool failed = vp_oom_at && vp_oom_n >= vp_oom_at;
		vp_oom_at = 0;
		VP_ENSURE((rc == MIDORIDB_OK) == (own[k] == NULL && !failed) || (rc == MIDORIDB_OK && own[k] == NULL), "db.add: refused exactly when the name is taken or memory is out");
		if (rc != MIDORIDB_OK) {
			VP_ENSURE(vp_live == l, "db.add.leak");
			table_destroy(&t);
		} else
			own[k] = t;
		for (int j = 0; j < NN; j++) {
			char nm[TABLE_MAX_NAME + 1];
			strcpy(nm, names[j]);
			VP_ENSURE(database_table_get(&db, nm) == own[j], "db.get: exactly the table added under that name");
			VP_ENSURE(database_table_exists(&db, nm) == (own[j] != NULL), "db.exists");
		}
	}
#ifndef MIDORIDB_VERIF_SMALL
	for (int i = 0; i < nf; i++)
		VP_ENSURE(database_table_get(&db, fill[i]) == ft[i], "db.get: exactly the table added under that name");
#endif
	VP_ENSURE(database_table_get(&db, "") == NULL && database_table_get(&db, "T123") == NULL && database_table_get(&db, "aB") == NULL, "db.get.other: nothing for any other name");
	database_close(&db);
	VP_ENSURE(db.tables == NULL && vp_live == live0, "db.close: every table and everything the catalogue owns is released");
	/* a database that cannot be opened */
	vp_oom_at = oom; vp_oom_n = 0;
	rc = database_open(&db);
	bool failed = oom && vp_oom_n >= oom;
	vp_oom_at = 0;
	VP_ENSURE((rc == MIDORIDB_OK) == !failed, "db.open");
	if (rc == MIDORIDB_OK) database_close(&db);
	VP_ENSURE(vp_live == live0, "db.open.leak");
	VP_COVER("catalogue");
}
