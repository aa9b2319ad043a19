/* C02: table_update_row / table_delete_row touch exactly the row they are given */
#include "vp_table.h"

static struct vp_model m;
static struct vp_mrow img_m;

void harness(void)
{
	struct table *t = vp_table(1, VP_MAXCOLS);
	vp_rows(t, &m);
	VP_REQUIRE(m.n > 0);
	size_t len = spec_row_size(t);
	size_t free0 = t->free_dtbkl_offset;
	int nblk = spec_blocks(t);
	int target = vp_choice(0, VP_MAXROWS - 1);
	VP_REQUIRE(target < m.n && !m.r[target].deleted);
	struct datablock *b = m.r[target].b;
	size_t off = m.r[target].off;
	long live0 = vp_live;
	bool ok;
	if (vp_choice(0, 1)) {
		ok = table_delete_row(t, b, off);
		m.r[target].deleted = true;
		VP_ENSURE(ok, "delete.ok: deleting a live row works");
	} else {
		struct row *img = malloc(len);
		VP_REQUIRE(img != NULL);
		vp_rowimg(t, img, &img_m);
		live0 = vp_live;
		ok = table_update_row(t, b, off, img, len);
		VP_ENSURE(ok, "update.ok: updating a live row works");
		for (int c = 0; c < VP_MAXCOLS; c++)
			m.r[target].c[c] = img_m.c[c];
		VP_ENSURE(spec_row_same(t, (struct row*)&b->data[off], &m.r[target]),
				"update.value: the row reads back the new values and NULL marks");
	}
	VP_ENSURE(vp_live == live0, "update.leak: no memory is gained or lost");
	VP_ENSURE(t->free_dtbkl_offset == free0 && spec_blocks(t) == nblk, "update.shape: the table's blocks stay as they were");
	VP_ENSURE(spec_in_place(t, &m), "update.others: every other row keeps its values, marks and place");
	VP_COVER("end");
}
