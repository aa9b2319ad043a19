/* C19: one step of the cursor leads from any row to the next one, reading a column gives its value */
#include "vp_table.h"
#include <engine/query.h>

static struct vp_model m;

void harness(void)
{
	struct table *t = vp_table(1, VP_MAXCOLS);
	vp_rows(t, &m);
	for (int i = 0; i < VP_MAXROWS; i++)
		VP_REQUIRE(i >= m.n || !m.r[i].deleted);
	struct result_set rs;
	rs.table = t;
	struct datablock *end = container_of(t->datablock_head, struct datablock, head);
	/* where the cursor is: 0 not started, k at the k-th row, n + 1 at the end */
	int at = vp_choice(0, VP_MAXROWS + 1);
	VP_REQUIRE(at <= m.n + 1);
	if (at == 0) {
		rs.cursor_blk = NULL;
		rs.cursor_offset = vp_range(0, 5000);
	} else if (at <= m.n) {
		rs.cursor_blk = m.r[at - 1].b;
		rs.cursor_offset = m.r[at - 1].off;
	} else {
		rs.cursor_blk = end;
		rs.cursor_offset = vp_range(0, 5000);
	}
	long live0 = vp_live;
	int rc = query_cur_step(&rs);
	VP_ENSURE(rc == (at < m.n ? MIDORIDB_ROW : MIDORIDB_OK), "step.result: a row is announced exactly while there is a next one");
	if (at < m.n) {
		VP_ENSURE(rs.cursor_blk == m.r[at].b && rs.cursor_offset == m.r[at].off, "step.next: the cursor is at the next row");
		int col = vp_choice(0, VP_MAXCOLS - 1);
		if (col < t->column_count) {
			int64_t v = query_column_int64(&rs, col);
			if (!m.r[at].c[col].null && t->columns[col].type != CT_VARCHAR)
				VP_ENSURE((uint64_t)v == m.r[at].c[col].v, "column.value: reading a column gives the stored value");
		}
	} else
		VP_ENSURE(rs.cursor_blk == end, "step.end: after the last row the cursor stays at the end");
	VP_ENSURE(rs.table == t && vp_live == live0 && spec_in_place(t, &m), "step.frame: the result itself does not change");
	VP_COVER("end");
}
