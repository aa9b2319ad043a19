/*
 * C05, proof: the data size of a row is the sum of its columns' spaces, for every schema.
 * vp_prefix is a ghost array of arbitrary prefix sums: the callee's contract says that a column takes the
 * difference of two neighbours, and the postcondition that the loop telescopes.
 */
#include <primitive/row.h>
#include <primitive/table.h>
#include <primitive/column.h>

size_t vp_prefix[TABLE_MAX_COLUMNS + 1];
struct table *vp_t;

size_t table_calc_column_space(struct column *column)
__CPROVER_requires(__CPROVER_POINTER_OFFSET(column) >= offsetof(struct table, columns))
__CPROVER_requires(column - vp_t->columns < TABLE_MAX_COLUMNS)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == vp_prefix[column - vp_t->columns + 1] - vp_prefix[column - vp_t->columns]);

size_t table_calc_row_data_size(struct table *table)
__CPROVER_requires(__CPROVER_is_fresh(table, sizeof(*table)))
__CPROVER_requires(table->column_count >= 0 && table->column_count <= TABLE_MAX_COLUMNS && vp_t == table && vp_prefix[0] == 0)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == vp_prefix[table->column_count]);

size_t nondet_size(void);
void harness(void)
{
	struct table *t;
	for (int i = 0; i <= TABLE_MAX_COLUMNS; i++)
		vp_prefix[i] = nondet_size();
	vp_t = t;
	table_calc_row_data_size(t);
}
