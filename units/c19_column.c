/*
 * C19 at the real constants: query_column_int64 reads the bytes of its column, for any schema of up to 128 columns.
 * Where a column starts is what the columns before it take (C05 decides that).
 */
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <engine/query.h>

void harness(void)
{
	struct table *t = malloc(sizeof(*t)); /* arbitrary content */
	struct datablock *b = malloc(sizeof(*b));
	struct result_set rs;
	VP_REQUIRE(t && b);
	t->column_count = vp_range(1, TABLE_MAX_COLUMNS);
	int col = vp_choice(0, TABLE_MAX_COLUMNS - 1);
	VP_REQUIRE(col < t->column_count);
	size_t off = 0;
#ifndef VP_CBMC
	for (int i = 0; i < t->column_count; i++) {
		t->columns[i].type = vp_range(CT_VARCHAR, CT_DATETIME);
		t->columns[i].precision = t->columns[i].type == CT_TINYINT ? 1 : 8;
	}
	for (int i = 0; i < DATABLOCK_PAGE_SIZE; i++)
		b->data[i] = vp_u8();
#endif
	for (int i = 0; i < col; i++) {
		VP_REQUIRE(t->columns[i].type >= CT_VARCHAR && t->columns[i].type <= CT_DATETIME);
		VP_REQUIRE(t->columns[i].precision == (t->columns[i].type == CT_TINYINT ? 1 : 8) || t->columns[i].type == CT_VARCHAR);
		off += t->columns[i].type == CT_TINYINT ? 1 : 8;
	}
	VP_REQUIRE(t->columns[col].type >= CT_VARCHAR && t->columns[col].type <= CT_DATETIME);
	bool byte = t->columns[col].type == CT_TINYINT;
	rs.table = t;
	rs.cursor_blk = b;
	rs.cursor_offset = vp_choice(0, DATABLOCK_PAGE_SIZE);
	VP_REQUIRE(rs.cursor_offset + offsetof(struct row, data) + off + (byte ? 1 : 8) <= DATABLOCK_PAGE_SIZE);
	struct row *r = (struct row*)&b->data[rs.cursor_offset];
#ifndef VP_CBMC
	r->flags.empty = r->flags.deleted = false;
	if (byte)
		r->data[off] &= 1;
#endif
	VP_REQUIRE(!r->flags.empty && !r->flags.deleted);
	int64_t want = byte ? (unsigned char)r->data[off] : *(int64_t*)&r->data[off];
	VP_REQUIRE(!byte || want == 0 || want == 1);
	int64_t got = query_column_int64(&rs, col);
	VP_ENSURE(got == want, "column.value: reading a column gives the stored value");
	VP_COVER("end");
	free(t);
	free(b);
}
