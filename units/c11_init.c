/* C11: creating a table */
#include <primitive/table.h>
#include <primitive/column.h>
#define L (TABLE_MAX_NAME + 2)
static char s[L + 1], c0[L + 1];
static size_t zero;
void harness(void)
{
	long live0 = vp_live;
	int len = vp_choice(0, L);
	for (int i = 0; i < len; i++) {
		uint8_t c = vp_u8();
#ifndef VP_CBMC
		if (c < 253) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[(c + i * 7) % (i ? 63 : 52)];
#endif
		VP_REQUIRE(c != 0);
		s[i] = c; c0[i] = c;
	}
	s[len] = c0[len] = 0;
	bool valid = table_validate_name(s);
	int oom = vp_choice(0, 3);
	vp_oom_at = oom; vp_oom_n = 0;
	struct table *t = table_init(s);
	vp_oom_at = 0;
	VP_ENSURE(valid || !t, "table.init.refused: no table under a name that is not accepted");
	VP_ENSURE(!valid || (oom && oom <= vp_oom_n) || t, "table.init.made: an accepted name makes a table");
	if (!t) { VP_ENSURE(vp_live == live0, "table.init.leak"); }
	else {
		for (int i = 0; i <= len; i++) VP_ENSURE(t->name[i] == c0[i], "table.init.name: the table keeps its name exactly");
		VP_ENSURE(t->column_count == 0 && list_is_empty(t->datablock_head) && t->free_dtbkl_offset == 0, "table.init.empty: no columns, no rows");
		VP_ENSURE(vp_live == live0 + 2, "table.init.memory");
		bool d = table_destroy(&t);
		VP_ENSURE(d && t == NULL && vp_live == live0, "table.destroy: everything is released");
	}
	VP_ENSURE(!table_init(NULL), "table.init.null");
	for (int i = 0; i <= len; i++) VP_ENSURE(s[i] == c0[i], "table.init.frame: the name given is untouched");
	VP_COVER("init");
}
