/* C01: table_insert_row */
#include "vp_table.h"

static struct vp_model m;
static struct vp_mrow img_m;
static char snap[DATABLOCK_PAGE_SIZE];

void harness(void)
{
	struct table *t = vp_table(1, VP_MAXCOLS);
	vp_rows(t, &m);
	size_t len = spec_row_size(t);
	int nblk = spec_blocks(t);
	struct datablock *last = nblk ? list_entry(t->datablock_head->prev, struct datablock, head) : NULL;
	size_t off = t->free_dtbkl_offset;
	struct row *img = malloc(len);
	VP_REQUIRE(img != NULL);
	vp_rowimg(t, img, &img_m);
	if (last)
		memcpy(snap, last->data, DATABLOCK_PAGE_SIZE);
	long live0 = vp_live;

	vp_oom = vp_bool();
	bool oom = vp_oom;
	bool ok = table_insert_row(t, img, len);
	vp_oom = false;

	if (!oom)
		VP_ENSURE(ok, "insert.accepts: inserting a row of the right size works while memory lasts");
	int nblk2 = spec_blocks(t);
	VP_ENSURE(nblk2 == nblk || nblk2 == nblk + 1, "insert.blocks: at most one block is added");
	bool newblk = nblk2 != nblk;
	struct datablock *b = list_entry(t->datablock_head->prev, struct datablock, head);
	if (ok) {
		size_t at = newblk ? 0 : off;
		VP_ENSURE(nblk2 > 0, "insert.block: the row is in a block");
		VP_ENSURE(at + len <= DATABLOCK_PAGE_SIZE, "insert.fits: the row lies within its block");
		VP_ENSURE(t->free_dtbkl_offset == at + len, "insert.next: the next free slot follows the row");
		struct row *r = (struct row*)&b->data[at];
		VP_ENSURE(!r->flags.empty && !r->flags.deleted, "insert.live: the new row is live");
		VP_ENSURE(spec_row_same(t, r, &img_m), "insert.value: every column reads back the value (or NULL) given");
		for (int c = 0; c < VP_MAXCOLS; c++) {
			if (c >= t->column_count)
				break;
			if (t->columns[c].type == CT_VARCHAR) {
				char *p, *q;
				memcpy(&p, &r->data[spec_col_off(t, c)], 8);
				memcpy(&q, &img->data[spec_col_off(t, c)], 8);
				VP_ENSURE(p != q, "insert.own: the row owns its own copy of every VARCHAR");
			}
		}
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE; i++)
			if (last && (newblk || i < at || i >= at + len))
				VP_ENSURE(last->data[i] == snap[i], "insert.frame: nothing else in the block changes");
	} else {
		VP_ENSURE(vp_live == live0 + (newblk ? 1 : 0), "insert.fail.leak: a refused insert keeps no memory");
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE; i++)
			if (last && (newblk || i < off || i >= off + len))
				VP_ENSURE(last->data[i] == snap[i], "insert.fail.frame: a refused insert changes nothing else");
	}
	VP_ENSURE(spec_live(t) == spec_mlive(&m) + ok, "insert.count: exactly the accepted row is added");
	for (int i = 0; i < VP_MAXROWS; i++) {
		if (i >= m.n)
			break;
		struct row *r = (struct row*)&m.r[i].b->data[m.r[i].off];
		VP_ENSURE(spec_row_same(t, r, &m.r[i]), "insert.others: the rows already there keep their values");
	}
	VP_COVER("end");
}
