/*
 * C19 at the real page size: the cursor's step for rows of any size, from any slot of any of the result's pages.
 * The row size is an arbitrary one (C05 says what it is); the pages' content is arbitrary. Rows are back to back from the
 * start of a page and used slots are a prefix, so the next row is in the slot after the cursor's, or else in the first
 * slot of the first later page that has a row.
 */
#include <primitive/table.h>
#include <primitive/row.h>
#include <engine/query.h>
#define NB 3
static size_t len;
size_t table_calc_row_size(struct table *table) { return len; }

static struct table t;
static struct list_head head;
static struct datablock *b[NB];

static struct row *row_at(int blk, size_t off) { return (struct row*)&b[blk]->data[off]; }

void harness(void)
{
	len = vp_range(offsetof(struct row, data) + 1, DATABLOCK_PAGE_SIZE);
	int nb = vp_choice(0, NB);
	bool has[NB];
	t.datablock_head = &head;
	head.next = head.prev = &head;
	for (int i = 0; i < nb; i++) {
		b[i] = malloc(sizeof(*b[i])); /* arbitrary content */
		b[i]->head.next = &head;
		b[i]->head.prev = head.prev;
		head.prev->next = &b[i]->head;
		head.prev = &b[i]->head;
		has[i] = !row_at(i, 0)->flags.empty;
		VP_REQUIRE(!row_at(i, 0)->flags.deleted);
	}
	struct result_set rs;
	rs.table = &t;
	struct datablock *end = container_of(&head, struct datablock, head);
	int cb = vp_choice(0, NB + 1); /* the cursor's page + 1; 0: not started */
	VP_REQUIRE(cb <= nb + 1);
	rs.cursor_blk = cb == 0 ? NULL : cb <= nb ? b[cb - 1] : end;
	size_t off = rs.cursor_offset = vp_range(0, DATABLOCK_PAGE_SIZE);
	bool next = false;
	if (cb >= 1 && cb <= nb) {
		VP_REQUIRE(off + len <= DATABLOCK_PAGE_SIZE && has[cb - 1] && (off == 0 || off >= len));
		if (off + 2 * len <= DATABLOCK_PAGE_SIZE) {
			next = !row_at(cb - 1, off + len)->flags.empty;
			VP_REQUIRE(!row_at(cb - 1, off + len)->flags.deleted);
		}
	}
	int rc = query_cur_step(&rs);
	int wb = -1;
	size_t wo = 0;
	if (next) {
		wb = cb - 1;
		wo = off + len;
	} else {
		for (int i = NB - 1; i >= 0; i--)
			if (i < nb && i >= cb && has[i])
				wb = i;
	}
	VP_ENSURE(rc == (wb >= 0 ? MIDORIDB_ROW : MIDORIDB_OK), "step.result: a row is announced exactly while there is a next one");
	if (wb >= 0)
		VP_ENSURE(rs.cursor_blk == b[wb] && rs.cursor_offset == wo, "step.next: the cursor is at the next row");
	else
		VP_ENSURE(rs.cursor_blk == end, "step.end: after the last row the cursor stays at the end");
	VP_COVER("end");
}
