/* C03: table_vacuum */
#include "vp_table.h"

static struct vp_model m;

void harness(void)
{
	struct table *t = vp_table(1, VP_MAXCOLS);
	vp_rows(t, &m);
	int nblk = spec_blocks(t);
	size_t len = spec_row_size(t);
	int nvar = 0, dead = 0;
	for (int c = 0; c < VP_MAXCOLS; c++)
		if (c < t->column_count && t->columns[c].type == CT_VARCHAR)
			nvar++;
	for (int i = 0; i < VP_MAXROWS; i++)
		if (i < m.n && m.r[i].deleted)
			dead++;
	long live0 = vp_live;
	bool ok = table_vacuum(t);
	VP_ENSURE(ok, "vacuum.ok");
	VP_ENSURE(spec_holds(t, &m, NULL), "vacuum.rows: the live rows are there, unchanged and in order, in a well-formed table");
	int nblk2 = spec_blocks(t);
	VP_ENSURE(nblk2 <= nblk, "vacuum.blocks: no block is added");
	VP_ENSURE(vp_live == live0 - (long)dead * nvar - (nblk - nblk2), "vacuum.memory: exactly what the removed rows and blocks owned is released");
	/* compaction: every block but the last is full, and no deleted row is left */
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)VP_SLOTS(len))
				break;
			struct row *r = (struct row*)&b->data[s * len];
			VP_ENSURE(r->flags.empty || !r->flags.deleted, "vacuum.compact: no deleted row is left behind");
			if (p->next != t->datablock_head)
				VP_ENSURE(!r->flags.empty, "vacuum.compact: only the last block has free slots");
		}
	}
	VP_COVER("end");
}
