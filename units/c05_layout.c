/* C05: row layout, for every schema of up to TABLE_MAX_COLUMNS columns */
#include <primitive/row.h>
#include <primitive/table.h>
#include <primitive/column.h>

static struct table t;

void harness(void)
{
	int n = vp_choice(0, TABLE_MAX_COLUMNS);
	size_t sum = 0;
	t.column_count = n;
	for (int i = 0; i < TABLE_MAX_COLUMNS; i++) {
		struct column *c = &t.columns[i];
		c->type = vp_range(CT_VARCHAR, CT_DATETIME);
		if (c->type == CT_VARCHAR)
			c->precision = vp_range(1, 65535);
		else
			c->precision = table_calc_column_precision(c->type);
		size_t want = c->type == CT_VARCHAR ? sizeof(char*) : c->type == CT_TINYINT ? 1 : 8;
		VP_ENSURE(table_calc_column_space(c) == want, "layout.space: a column takes the bytes of its type");
		VP_ENSURE(table_check_var_column(c) == (c->type == CT_VARCHAR), "layout.var: only VARCHAR is variable");
		if (i < n)
			sum += want;
	}
	VP_ENSURE(table_calc_row_data_size(&t) == sum, "layout.data: the columns lie side by side");
	VP_ENSURE(table_calc_row_size(&t) == offsetof(struct row, data) + sum, "layout.row: a row is its header plus its columns");
	struct row *r = NULL;
	VP_ENSURE(sizeof(r->null_bitmap) * 8 >= TABLE_MAX_COLUMNS, "layout.marks: there is a NULL mark per column");
	VP_ENSURE(offsetof(struct row, null_bitmap) >= offsetof(struct row, flags) + sizeof(r->flags)
			&& offsetof(struct row, data) >= offsetof(struct row, null_bitmap) + sizeof(r->null_bitmap),
			"layout.disjoint: flags, NULL marks and data do not overlap");
	VP_ENSURE(offsetof(struct row, data) % 8 == 0, "layout.align");
	VP_COVER("end");
}
