/* C04: table_add_column / table_rem_column on a table that holds rows */
#include "vp_table.h"

static struct vp_model m, m2;

void harness(void)
{
	struct table *t = vp_table(1, VP_MAXCOLS - 1);
	vp_rows(t, &m);
	int n = t->column_count;
	static struct column old[VP_MAXCOLS];
	for (int i = 0; i < VP_MAXCOLS; i++)
		if (i < n)
			old[i] = t->columns[i];
	struct column c;
	memset(&c, 0, sizeof(c));
	long live0 = vp_live;
	if (vp_choice(0, 1)) {
		vp_column(&c, 0);
		c.name[0] = 'y';
		bool taken = false;
		if (vp_choice(0, 7) == 0) { /* a name that is taken */
			int k = vp_choice(0, n - 1);
			memcpy(c.name, t->columns[k].name, 3);
			taken = true;
		}
		bool oom = vp_oom_at = vp_choice(0, 3);
		vp_oom_n = 0;
		bool ok = table_add_column(t, &c);
		vp_oom_at = 0;
		if (!oom)
			VP_ENSURE(ok == !taken, "add.accepts: a new name is accepted and a taken one refused");
		VP_ENSURE(!(ok && taken), "add.unique: column names stay unique");
		VP_ENSURE(t->column_count == n + ok, "add.count");
		if (ok) {
			VP_ENSURE(t->columns[n].type == c.type && t->columns[n].precision == c.precision
					&& t->columns[n].nullable == c.nullable && strcmp(t->columns[n].name, c.name) == 0, "add.column: the new column is the last");
			t->column_count = n; /* judge the old columns, at the new row size */
		} else {
			VP_ENSURE(vp_live == live0, "add.fail.leak: a refused column keeps no memory");
		}
		for (int i = 0; i < VP_MAXCOLS; i++)
			if (i < n)
				VP_ENSURE(t->columns[i].type == old[i].type && t->columns[i].precision == old[i].precision
						&& strcmp(t->columns[i].name, old[i].name) == 0, "add.schema: the other columns stay");
		/* rows */
		size_t len = spec_row_size(t) + (ok ? spec_space(&c) : 0);
		int at = 0;
		size_t end = 0;
		for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
			struct datablock *b = list_entry(p, struct datablock, head);
			end = 0;
			for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
				if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
					break;
				struct row *r = (struct row*)&b->data[s * len];
				if (r->flags.empty)
					continue;
				VP_ENSURE(end == s * len && (s + 1) * len <= DATABLOCK_PAGE_SIZE, "add.layout: rows are adjacent and inside their page");
				end = (s + 1) * len;
				VP_ENSURE(at < m.n && r->flags.deleted == m.r[at].deleted && spec_row_same(t, r, &m.r[at]),
						"add.rows: every row keeps its values, marks and order");
				at++;
			}
		}
		VP_ENSURE(at == m.n, "add.all: no row is lost");
		VP_ENSURE(t->free_dtbkl_offset == end, "add.next: the next free slot follows the last row");
	} else {
		int k = vp_choice(0, VP_MAXCOLS - 2);
		VP_REQUIRE(k < n);
		c = t->columns[k];
		int nvar = t->columns[k].type == CT_VARCHAR ? m.n : 0;
		bool ok = table_rem_column(t, &c);
		VP_ENSURE(ok, "rem.ok: removing an existing column works");
		VP_ENSURE(t->column_count == n - 1, "rem.count");
		VP_ENSURE(vp_live == live0 - nvar, "rem.memory: exactly the values of the removed column are released");
		int j = 0;
		for (int i = 0; i < VP_MAXCOLS - 1; i++) {
			if (i >= n || i == k)
				continue;
			VP_ENSURE(t->columns[j].type == old[i].type && t->columns[j].precision == old[i].precision
					&& strcmp(t->columns[j].name, old[i].name) == 0, "rem.schema: the other columns stay, in order");
			for (int r = 0; r < VP_MAXROWS; r++)
				if (r < m.n)
					m.r[r].c[j] = m.r[r].c[i];
			j++;
		}
		VP_ENSURE(spec_holds(t, &m, NULL), "rem.rows: every live row keeps the values and NULL marks of the other columns");
		memset(&c, 0, sizeof(c));
		c.name[0] = 'z';
		VP_ENSURE(!table_rem_column(t, &c) && t->column_count == n - 1, "rem.unknown: an unknown column is refused");
	}
	VP_COVER("end");
}
