From 026890dfb5b492c4902d877f8c005a519cabe444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:26 +0000
Subject: [PATCH 01/44] verification hook: MIDORIDB_VERIF_SMALL shrinks page,
 column and name limits (off by default)

---
 include/primitive/column.h    | 5 +++++
 include/primitive/datablock.h | 5 +++++
 include/primitive/table.h     | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..dca4fc2 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -10,7 +10,12 @@
 
 #include <compiler/common.h>
 
+#ifdef MIDORIDB_VERIF_SMALL
+/* verification builds only: bounded checks shrink this constant */
+#define TABLE_MAX_COLUMN_NAME		15
+#else
 #define TABLE_MAX_COLUMN_NAME		127
+#endif
 
 struct table;
 
diff --git a/include/primitive/datablock.h b/include/primitive/datablock.h
index 392e52c..0ad3680 100644
--- a/include/primitive/datablock.h
+++ b/include/primitive/datablock.h
@@ -4,7 +4,12 @@
 #include "compiler/common.h"
 #include "datastructure/linkedlist.h"
 
+#ifdef MIDORIDB_VERIF_SMALL
+/* verification builds only: bounded checks may shrink the page */
+#define DATABLOCK_PAGE_SIZE	MIDORIDB_VERIF_SMALL
+#else
 #define DATABLOCK_PAGE_SIZE	4096
+#endif
 
 struct datablock {
 	uint64_t block_id;
diff --git a/include/primitive/table.h b/include/primitive/table.h
index bebf1d7..1a4f5a4 100644
--- a/include/primitive/table.h
+++ b/include/primitive/table.h
@@ -13,8 +13,14 @@
 #include <compiler/common.h>
 #include <lib/bit.h>
 
+#ifdef MIDORIDB_VERIF_SMALL
+/* verification builds only: bounded checks shrink these constants */
+#define TABLE_MAX_COLUMNS		16
+#define TABLE_MAX_NAME			15
+#else
 #define TABLE_MAX_COLUMNS		128
 #define TABLE_MAX_NAME			127
+#endif
 
 /* sanity checks */
 BUILD_BUG(TABLE_MAX_COLUMNS > 8, "TABLE_MAX_COLUMNS has to be greater than 8");
-- 
2.43.0


From ea5bc910ea2c78ef886d8f77a86afacd30ae4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 02/44] fix: table_insert_row failure path frees each earlier
 column and stays inside its row

---
 src/primitive/row.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..4413829 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From 06a4621b307cd349b417135ea8235bef71be3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 03/44] fix: query_cur_step walks every datablock of a result
 and ends only after the last one

---
 src/engine/query.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..bee69b4 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -117,32 +117,30 @@ int query_cur_step(struct result_set *res)
 
 	/* is this the first time ? */
 	if (!res->cursor_blk) {
-
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
 	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	/* rows are back to back in a datablock, so its end or a free slot means that the next datablock is up */
+	while (&res->cursor_blk->head != res->table->datablock_head) {
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+			BUG_ON(row->flags.deleted);
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
+
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 
-	return MIDORIDB_ROW;
+	/* end of the line */
+	return MIDORIDB_OK;
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
-- 
2.43.0


From 331d318c27376325d3782e2dc25c38815df5d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 04/44] fix: WHERE comparisons of INTEGER columns use all 64
 bits

---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_select.c | 2 +-
 src/engine/executor_update.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bb631e8 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..e0ed596 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From 993ae7daadaf96e063300752b07561d4de32c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 05/44] fix: comparing a column with itself in a WHERE clause
 no longer aborts

---
 src/engine/executor_delete.c | 4 +++-
 src/engine/executor_select.c | 4 +++-
 src/engine/executor_update.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bb631e8..55b4978 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..e409d2a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -543,7 +543,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index e0ed596..b9a8045 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From 15faca6d8dcd31e24aea4eaa128a6a2511d9cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 06/44] fix: 'value <op> column' conditions apply the operator
 the right way round

---
 src/engine/executor_delete.c | 21 ++++++++++++++++++++-
 src/engine/executor_select.c | 21 ++++++++++++++++++++-
 src/engine/executor_update.c | 21 ++++++++++++++++++++-
 3 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 55b4978..f1c1581 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -245,6 +245,23 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 }
 
+/* "value <op> field" reads the same as "field <mirrored op> value" */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exprval_node *val_1, struct ast_del_exprval_node *val_2)
 {
 	if (val_1->value_type.is_approxnum) {
@@ -271,6 +288,7 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_del_cmp_node mirrored = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -290,7 +308,8 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index e409d2a..b6c3662 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -651,6 +651,23 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 }
 
+/* "value <op> field" reads the same as "field <mirrored op> value" */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
 	if (val_1->value_type.is_approxnum) {
@@ -871,6 +888,7 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 	struct ast_node *node_1 = NULL, *node_2 = NULL;
 	struct ast_sel_exprval_node *val_1, *val_2;
 	struct ast_sel_fieldname_node *fld_1, *fld_2;
+	struct ast_sel_cmp_node mirrored = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -894,7 +912,8 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 			return cmp_field_to_value(table, row, node, val_1, val_2);
 		} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 			/* value-to-field or value-to-field comparison */
-			return cmp_field_to_value(table, row, node, val_2, val_1);
+			mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+			return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 		} else {
 			/* value-to-value comparison */
 			return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index b9a8045..7cfb55e 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -224,6 +224,23 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 	}
 }
 
+/* "value <op> field" reads the same as "field <mirrored op> value" */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exprval_node *val_1, struct ast_upd_exprval_node *val_2)
 {
 	if (val_1->value_type.is_approxnum) {
@@ -250,6 +267,7 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_upd_cmp_node mirrored = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -269,7 +287,8 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From c45aa6e17d8214486000945eceb175564383cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 07/44] fix: IN matches any listed value and NOT IN excludes
 every one of them

---
 src/engine/executor_delete.c |  7 ++++---
 src/engine/executor_select.c | 19 +++++++++++--------
 src/engine/executor_update.c |  7 ++++---
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index f1c1581..6f5131b 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -372,11 +372,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* NOT IN has to differ from every value, IN has to match only one of them */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b6c3662..d88fa89 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -993,7 +993,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool match;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1032,17 +1033,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
 			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				match = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				match = cmp_field_to_value(table, row, &cmp_node, value,
+							(struct ast_sel_exprval_node*)tmp_entry);
 			}
+
+			/* NOT IN has to differ from every value, IN has to match only one of them */
+			if (match != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 7cfb55e..8d43f81 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -351,11 +351,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* NOT IN has to differ from every value, IN has to match only one of them */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 275480759a69047b93945aed0e45820f45f47de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 08/44] fix: GROUP BY tells apart DOUBLE, INTEGER and date
 values whose difference does not fit an int

---
 src/engine/executor_select.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index d88fa89..3862633 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1505,13 +1505,19 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From d92e789c89373c30a3fdafa58b2fa9c0083691a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 09/44] fix: GROUP BY and COUNT(*) collate the first rows of
 every further datablock too

---
 src/engine/executor_select.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 3862633..48895f4 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1584,7 +1584,8 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 				list_for_each(pos2, table->datablock_head)
 				{
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					/* row_1's own datablock starts right after row_1, the others from their first row */
+					for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
 						row_2 = (struct row*)&blk_2->data[row_size * j];
 
 						if (row_2->flags.empty)
@@ -1652,7 +1653,8 @@ static int handle_countonly_case(struct table *table)
 				list_for_each(pos2, table->datablock_head)
 				{
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					/* row_1's own datablock starts right after row_1, the others from their first row */
+					for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
 						row_2 = (struct row*)&blk_2->data[row_size * j];
 
 						if (row_2->flags.empty)
-- 
2.43.0


From eb6883b157824bfbdaaeccdd8cf9119e3d2d6723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 10/44] fix: GROUP BY with several columns groups by all of
 them together

---
 src/engine/executor_select.c | 79 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 48895f4..23e12c8 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1553,10 +1553,23 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
+/* rows belong to the same group only if they agree on every field of the group-by clause */
+static bool is_same_group(struct table *table, struct row *row_1, struct row *row_2, struct ast_node *groupby_node)
+{
+	struct list_head *pos;
+
+	list_for_each(pos, groupby_node->node_children_head)
+	{
+		if (cmp_rows_col_mattbl(table, row_1, row_2, list_entry(pos, struct ast_node, head)) != 0)
+			return false;
+	}
+
+	return true;
+}
+
 static int proc_groupby_clause(struct ast_node *node, struct table *table)
 {
-	struct list_head *grppos, *pos1, *pos2;
-	struct ast_node *tmp_entry;
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
@@ -1564,49 +1577,43 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					/* row_1's own datablock starts right after row_1, the others from their first row */
-					for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			list_for_each(pos2, table->datablock_head)
+			{
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				/* row_1's own datablock starts right after row_1, the others from their first row */
+				for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (is_same_group(table, row_1, row_2, node)) {
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
+						if (!table_delete_row(table, blk_2, row_size * j)) {
+							ret = -MIDORIDB_INTERNAL;
+							goto out;
 						}
+
+						/* increment counts if any */
+						if ((ret = inc_count_cols(table, blk_1, row_size * i,
+										row_1,
+										row_size)))
+							goto out;
 					}
 				}
 			}
-- 
2.43.0


From 2291a41875f801b8364b97ecdf94fc5b08997902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 11/44] fix: SELECT COUNT(*) with GROUP BY yields one count per
 group

---
 src/engine/executor_select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 23e12c8..850cf4a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1753,7 +1753,7 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	}
 
 	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From 38ae0b31e7e04c58c0f9db992f9b53333d42afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 12/44] fix: removing a column moves the NULL marks of the
 columns after it

---
 src/primitive/column.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..626504d 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -192,6 +192,15 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				&row->data[data_offset + col_prec],
 				row_data_size - (data_offset + col_prec));
 
+			/* NULL marks of the columns to the right move along with their data */
+			for (int j = col_idx; j < table->column_count; j++) {
+				if (j + 1 < table->column_count
+						&& bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+
 			/* make rows sit right next to each other now that row has a smaller size */
 			memmove(&entry->data[blk_offset], row, row_new_size);
 			blk_offset += row_new_size;
-- 
2.43.0


From 58dd7f9dc0831ed0c68247a2a0e89c6fcae84511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 13/44] fix: a failed table_add_column leaves the table without
 the column

---
 src/primitive/column.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 626504d..f14f69d 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -136,8 +136,10 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 3244ff5a9282102d30d7833e4c02acc1b17edce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 14/44] fix: table_vacuum on a table without datablocks

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..4c47f88 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to do if nothing has ever been inserted */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From c87c6fa33d5aac959b2607b1a4e01a9d340f527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 15/44] fix: query_column_int64 reads only the byte a TINYINT
 column holds

---
 src/engine/query.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index bee69b4..5b7f0a0 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -160,7 +160,11 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	for (int i = 0; i < col_idx; i++)
 		offset += table_calc_column_space(&res->table->columns[i]);
 
-	ret = *(int64_t*)(row->data + offset);
+	/* TINYINT takes a single byte, whatever comes after it belongs to someone else */
+	if (res->table->columns[col_idx].type == CT_TINYINT)
+		ret = *(bool*)(row->data + offset);
+	else
+		ret = *(int64_t*)(row->data + offset);
 	return ret;
 }
 
-- 
2.43.0


From c863f6fec313947ef366e1a37acb6119fab9a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 16/44] fix: a failed CREATE TABLE releases the whole table

---
 src/engine/executor_create.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..e3ad24c 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -105,8 +105,7 @@ early_ret:
 	return rc;
 
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
-- 
2.43.0


From 8eccc1ce30e06de33f1bf0630a19319db6a37623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 17/44] fix: DELETE and UPDATE reject IN-clauses without a
 field on their left-hand side

---
 src/parser/semantic_delete.c | 6 ++++++
 src/parser/semantic_update.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..5f48802 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -107,6 +107,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 			}
 
 			val_node = (typeof(val_node))tmp_entry;
+			/* whatever is on the left-hand side comes first and it has to be a field */
+			if (pos == root->node_children_head->next && !val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "only fields are allowed before an IN-clause\n");
+				return false;
+			}
+
 			if (val_node->value_type.is_name) {
 				field_count++;
 			}
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..c788c10 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -111,6 +111,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 			}
 
 			val_node = (typeof(val_node))tmp_entry;
+			/* whatever is on the left-hand side comes first and it has to be a field */
+			if (pos == root->node_children_head->next && !val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "only fields are allowed before an IN-clause\n");
+				return false;
+			}
+
 			if (val_node->value_type.is_name) {
 				field_count++;
 			}
-- 
2.43.0


From d2ec224bc67b889b9338c4121459925a0e57e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 18/44] fix: UPDATE enforces NOT NULL, VARCHAR length and raw
 values on what it assigns

---
 src/parser/semantic_update.c | 60 ++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index c788c10..8f1d21b 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -518,6 +518,62 @@ err:
 	return valid;
 }
 
+static bool check_assign_entries(struct database *db, struct ast_upd_update_node *update_node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct table *table;
+	struct column *column;
+	struct ast_node *tmp_entry;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+
+	table = database_table_get(db, update_node->table_name);
+
+	list_for_each(pos1, update_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+		column = NULL;
+
+		for (int i = 0; i < table->column_count; i++) {
+			if (strcmp(table->columns[i].name, assign_node->field_name) == 0)
+				column = &table->columns[i];
+		}
+
+		/* previous checks guarantee that the column exists */
+		BUG_ON(!column);
+
+		list_for_each(pos2, assign_node->node_children_head)
+		{
+			val_node = list_entry(pos2, typeof(*val_node), head);
+
+			if (val_node->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "column: '%s' can only be set to raw values\n", column->name);
+				return false;
+			}
+
+			if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name,
+						column->name);
+				return false;
+			}
+
+			if (val_node->value_type.is_str && column->type == CT_VARCHAR
+					&& strlen(val_node->str_val) + 1 > (size_t)column->precision) {
+				snprintf(out_err, out_err_len, "column: '%s' supports up to %d ASCII chars\n",
+						column->name, column->precision);
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
 {
 	struct ast_upd_update_node *update_node;
@@ -544,6 +600,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_isxnull_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
 
+	/* are new values raw values that the column can take? NOT NULL and VARCHAR length are checked just like on INSERT */
+	if (!check_assign_entries(db, update_node, out_err, out_err_len))
+		return false;
+
 	/* are value types correct? Ex.: "DELETE FROM A where age > 'paulo'" shouldn't be allowed */
 	if (!(check_value_types(db, update_node, out_err, out_err_len)))
 		return false;
-- 
2.43.0


From 580a7aa5b37aadbea44dc279fa16aaf65fb5b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 19/44] fix: INSERT reports running out of memory

---
 src/engine/executor_insert.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..d84e936 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -221,8 +221,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_NOMEM;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
-- 
2.43.0


From c6134507cafb9add91a640f3df98c5f9101248a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 20/44] fix: INSERT arithmetic on INTEGER values keeps all 64
 bits

---
 src/engine/optimiser_insert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..ea2ce2f 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -60,7 +60,7 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
-	int result = 0;
+	int64_t result = 0;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
-- 
2.43.0


From f3e1fa323121da9497c01d08831620ebec72a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 21/44] fix: modulo by zero in INSERT arithmetic yields NULL
 instead of SIGFPE

---
 src/engine/optimiser_insert.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index ea2ce2f..1968ffa 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -48,8 +48,15 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			result = val_2->double_val / val_1->double_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if ((int)val_1->double_val == 0) {
+			/* same as division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
+			result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -86,7 +93,14 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			result = val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as division by 0 */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = val_2->int_val % val_1->int_val;
+		}
 	} else {
 		BUG_GENERIC();
 	}
-- 
2.43.0


From 1231d972c0df4c904aa632d36a37e46533bbd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 22/44] fix: INSERT arithmetic over a term that became NULL
 yields NULL instead of aborting

---
 src/engine/optimiser_insert.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 1968ffa..ddd6c5c 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -13,6 +13,9 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 		out->int_val = in->int_val * -1;
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
+	} else if (in->value_type.is_null) {
+		/* the term _became_ NULL, so there is nothing to negate */
+		out->int_val = 0;
 	} else {
 		BUG_GENERIC();
 	}
@@ -154,9 +157,9 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
 		negate(val_2, val_1);
-	} else if (val_1->value_type.is_intnum) {
+	} else if (val_1->value_type.is_intnum || (val_1->value_type.is_null && !val_2->value_type.is_approxnum)) {
 		calci(op, val_1, val_2, val_1);
-	} else if (val_1->value_type.is_approxnum) {
+	} else if (val_1->value_type.is_approxnum || val_1->value_type.is_null) {
 		calcd(op, val_1, val_2, val_1);
 	} else {
 		BUG_GENERIC();
-- 
2.43.0


From 9f1d1d2f95e42d039078cd6b50b90e1fb979f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 23/44] fix: CREATE TABLE releases a table that could not be
 added to the database

---
 src/engine/executor_create.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index e3ad24c..5ea983f 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -90,13 +90,14 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
-				goto err_add_col;
+				goto err_table;
 		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
 			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_table;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -104,7 +105,7 @@ early_ret:
 
 	return rc;
 
-err_add_col:
+err_table:
 	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
-- 
2.43.0


From c60170ed85ea6aca3bc5a387c7d28894ca84c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:37 +0000
Subject: [PATCH 24/44] fix: a vector that cannot grow keeps its content

---
 src/datastructure/vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..89a14b5 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,14 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		/* the vector is left as it was if it can't grow */
+		if (!new_data)
 			return false;
 
+		memzero(new_data + vec->len, new_cap - vec->len);
+		vec->data = new_data;
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From b9fc4e15f24e02d30ddebe18c6819a82584b01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:37 +0000
Subject: [PATCH 25/44] fix: COUNT(*) values are not marked NULL in the result

---
 src/engine/executor_select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 850cf4a..e874ffe 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
-- 
2.43.0


From 2dd28450f42c9a2585318bfc59f85bd4fdc108c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:52 +0000
Subject: [PATCH 26/44] verification hook: MIDORIDB_VERIF_SMALL also shrinks
 the string buffer of AST values

---
 include/parser/ast.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8ab7cbc..b2b6b05 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -14,6 +14,13 @@
 #include <datastructure/linkedlist.h>
 #include <datastructure/queue.h>
 
+#ifdef MIDORIDB_VERIF_SMALL
+/* verification builds only: bounded checks shrink this constant */
+#define AST_MAX_STR_VAL		15
+#else
+#define AST_MAX_STR_VAL		65535
+#endif
+
 // AST_TYPE_<stmt-type>_<rpn-prefix>
 enum ast_node_type {
 	AST_TYPE_STMT,
@@ -210,7 +217,7 @@ struct ast_ins_exprval_node {
 	/* raw values */
 	union {
 		int64_t int_val;
-		char str_val[65535 + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
+		char str_val[AST_MAX_STR_VAL + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
 		double double_val;
 		bool bool_val;
 	};
@@ -329,7 +336,7 @@ struct ast_del_exprval_node {
 	union {
 		char name_val[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
 		int64_t int_val;
-		char str_val[65535 + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
+		char str_val[AST_MAX_STR_VAL + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
 		double double_val;
 		bool bool_val;
 	};
@@ -419,7 +426,7 @@ struct ast_upd_exprval_node {
 	union {
 		char name_val[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
 		int64_t int_val;
-		char str_val[65535 + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
+		char str_val[AST_MAX_STR_VAL + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
 		double double_val;
 		bool bool_val;
 	};
@@ -475,7 +482,7 @@ struct ast_sel_exprval_node {
 	union {
 		char name_val[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
 		int64_t int_val;
-		char str_val[65535 + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
+		char str_val[AST_MAX_STR_VAL + 1 /* NUL char */]; // MAX VARCHAR on MySQL too
 		double double_val;
 		bool bool_val;
 	};
-- 
2.43.0


From 6bf6fed826b3fe3ad525004bbb283f22817245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 27/44] fix: a B-tree look-up ignores keys beyond a node's key
 count

---
 src/datastructure/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..0896e8f 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From 366110e145ea2580cb2b0fd983beeb48165bb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 28/44] fix: numeric literals keep their value (64-bit
 integers, every double)

---
 src/parser/ast_delete.c |  4 ++--
 src/parser/ast_insert.c |  4 ++--
 src/parser/ast_select.c |  4 ++--
 src/parser/ast_update.c |  4 ++--
 src/parser/midorisql.l  |  2 +-
 src/parser/midorisql.y  | 34 +++++++++++++++++++++++++---------
 6 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..5eefc53 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..6e8edcb 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..dba3108 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..e348a93 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..dcdc166 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -82,7 +82,7 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { yylval->longval = atoll(yytext); return INTNUM; } 
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..9a81b68 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -9,6 +9,7 @@
 
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
+bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
 %}
 
@@ -31,6 +32,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t longval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +42,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <longval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -250,8 +252,8 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %ld", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -317,8 +319,8 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -374,8 +376,8 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %ld", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -413,8 +415,8 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -526,3 +528,17 @@ bool emit(struct queue *q, char *s, ...)
 
 	return queue_offer(q, buf, strlen(buf) + 1);
 }
+
+/* fewest digits that still read back as the same value */
+bool emit_float(struct queue *q, double val)
+{
+	char buf[32];
+
+	for (int prec = 6; prec <= 17; prec++) {
+		snprintf(buf, sizeof(buf), "%.*g", prec, val);
+		if (strtod(buf, NULL) == val)
+			break;
+	}
+
+	return emit(q, "FLOAT %s", buf);
+}
-- 
2.43.0


From 2d30969616ed98a0f304d0bac4148d5e33f0e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:26 +0000
Subject: [PATCH 29/44] fix: long strings and names are not cut between parser
 and tree

---
 src/parser/midorisql.y | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 9a81b68..123ae6a 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -518,15 +518,26 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
+	int len;
+	bool ret;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = zalloc(len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, len + 1);
+	free(buf);
+
+	return ret;
 }
 
 /* fewest digits that still read back as the same value */
-- 
2.43.0


From ce0f63a732f9aa61c901fc574a383426fc819910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:40 +0000
Subject: [PATCH 30/44] fix: errors found by grammar actions reject the
 statement

---
 src/parser/midorisql.y | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 123ae6a..946410a 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -403,10 +403,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -443,7 +443,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
@@ -481,7 +481,8 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 9999) { yyerror(result, scanner, "bad VARCHAR size %ld", $3); YYERROR; }
+				  $$ = 130000 + $3; }
    ;
 
 
@@ -502,7 +503,7 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 		vfprintf(stderr, s, ap);  
 		fprintf(stderr, "\n");
 	}else {
-		sprintf(buf, s, ap);
+		vsnprintf(buf, sizeof(buf), s, ap);
 	
 		/* although unlikely, if we fail to push content to the queue
 		   so other program can read the error message, then we fail 
-- 
2.43.0


From b276b3ad92b154e8217856e1b6fda89ed23139b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 31/44] fix: INSERT arithmetic neither traps on -1 divisors nor
 truncates double modulo to int

---
 src/engine/optimiser_insert.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index ddd6c5c..a196a7b 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -6,6 +6,7 @@
  */
 
 #include <engine/optimiser.h>
+#include <math.h>
 
 static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
 {
@@ -51,14 +52,14 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			result = val_2->double_val / val_1->double_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		if ((int)val_1->double_val == 0) {
+		if (trunc(val_1->double_val) == 0) {
 			/* same as division by 0 */
 			out->value_type.is_approxnum = false;
 			out->value_type.is_null = true;
 			result = 0;
 		} else {
 			/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-			result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+			result = fmod(trunc(val_2->double_val), trunc(val_1->double_val));
 		}
 	} else {
 		BUG_GENERIC();
@@ -93,7 +94,8 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_null = true;
 			result = 0;
 		} else {
-			result = val_2->int_val / val_1->int_val;
+			/* INT64_MIN / -1 doesn't fit and would trap, so it wraps around */
+			result = val_1->int_val == -1 ? (int64_t)(0 - (uint64_t)val_2->int_val) : val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		if (val_1->int_val == 0) {
@@ -102,7 +104,7 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_null = true;
 			result = 0;
 		} else {
-			result = val_2->int_val % val_1->int_val;
+			result = val_1->int_val == -1 ? 0 : val_2->int_val % val_1->int_val;
 		}
 	} else {
 		BUG_GENERIC();
-- 
2.43.0


From 5e5890f58a341e3e92b03159af383b69aaadab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 32/44] fix: an INSERT expression that evaluates to NULL is
 rejected for a NOT NULL column

---
 src/engine/executor_insert.c | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index d84e936..e91fb48 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,41 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* an expression is only known to be NULL once it's been evaluated (e.g.: division by 0) */
+static int check_nulls(struct table *table, struct ast_ins_insvals_node *insvals_node, int *column_order,
+		struct query_output *output)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *entry;
+	struct ast_ins_exprval_node *val_node;
+	struct column *column;
+	int val_pos;
+
+	list_for_each(pos1, insvals_node->node_children_head)
+	{
+		entry = list_entry(pos1, typeof(*entry), head);
+
+		if (entry->node_type != AST_TYPE_INS_VALUES)
+			continue;
+
+		val_pos = 0;
+		list_for_each(pos2, entry->node_children_head)
+		{
+			val_node = list_entry(pos2, typeof(*val_node), head);
+			column = &table->columns[column_order[val_pos]];
+
+			if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(output->error.message, sizeof(output->error.message) - 1,
+						"NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+				return -MIDORIDB_ERROR;
+			}
+			val_pos++;
+		}
+	}
+
+	return MIDORIDB_OK;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -213,6 +248,9 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	if ((rc = check_nulls(table, ins_node, column_order, output)))
+		goto err;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
-- 
2.43.0


From 639cd9a813795607132133665f9253fd24cbf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 33/44] fix: SELECT accepts NULL in IN-lists and rejects IN
 without a field instead of aborting

---
 src/parser/semantic_select.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..c0dd00e 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2063,6 +2063,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				return false;
 			}
 
+			/* whatever is on the left-hand side comes first and it has to be a field */
+			if (!field_count) {
+				snprintf(out_err, out_err_len, "only fields are allowed before an IN-clause\n");
+				return false;
+			}
+
 			/*
 			 * ast_sel_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -2341,7 +2347,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) { /* NULL goes with any type */
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
-- 
2.43.0


From 5dad2b5ba896bb5cef69057d07b763d524644fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 34/44] fix: SELECT compares DATE and DATETIME columns with
 date strings instead of rejecting them

---
 src/parser/semantic_select.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index c0dd00e..de97824 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2138,6 +2138,14 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* if node is a raw string compared to a DATE | DATETIME then it's about to be parsed as such */
+static bool is_str_for_date_type(struct ast_node *node, struct sem_check_val_types *other)
+{
+	return node->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node*)node)->value_type.is_str
+			&& !other->none && !other->invalid && !other->null
+			&& (other->type == CT_DATE || other->type == CT_DATETIME);
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2145,7 +2153,8 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	struct sem_check_val_types right = {0};
 	int i = 0;
 
-	struct ast_node *tmp_entry = NULL;
+	struct ast_node *tmp_entry = NULL, *left_node = NULL, *right_node = NULL;
+	struct ast_sel_exprval_node *str_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2156,13 +2165,33 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	// strings can be interpreted/parsed for other types such as DATE and DATETIME
+	if (is_str_for_date_type(right_node, &left))
+		str_node = (typeof(str_node))right_node;
+	else if (is_str_for_date_type(left_node, &right))
+		str_node = (typeof(str_node))left_node;
+
+	if (str_node) {
+		if (!try_parse_date_type(str_node->str_val, str_node == (void*)right_node ? left.type : right.type)) {
+			snprintf(out_err, out_err_len,
+					/* max str size would exceed buffer's size, so trim it */
+					"val: '%.256s' can't be parsed for DATE | DATETIME column\n", str_node->str_val);
+			ret.invalid = true;
+		} else {
+			ret.type = CT_TINYINT;
+		}
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
-- 
2.43.0


From e20b4339ac1d3dfc0c93612c5d7c0151936ea443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 35/44] fix: tables that share a column name can be listed in
 one SELECT

---
 src/parser/semantic_select.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index de97824..a8be1b1 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2503,11 +2503,14 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 
 			}
 
-			/* add exprval (name) in its purest form */
+			/*
+			 * add exprval (name) in its purest form. Tables may share a column name as long as the
+			 * statement tells them apart, which has been checked by the time we get here
+			 */
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
-			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
+			if (!hashtable_get(ht, key, strlen(key) + 1) && !hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
 				return false;
 			}
-- 
2.43.0


From a3d157b69075f4cb5531a2095f3ed7c58c7f792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 36/44] fix: SELECT evaluates 'value <> NULL' as false

---
 src/engine/executor_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index e874ffe..3e5a64b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -671,15 +671,15 @@ static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_typ
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
-- 
2.43.0


From bba622a2a1938aff33d50d8fa6b87579e60ab0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 37/44] fix: SELECT over tables whose qualified column names
 exceed 127 characters no longer writes outside the row

---
 include/primitive/column.h | 5 ++++-
 src/primitive/column.c     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index dca4fc2..7ad13a8 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -32,9 +32,12 @@ enum COLUMN_TYPE {
 #define COLUMN_CTDATE_FMT		"%Y-%m-%d"
 #define COLUMN_CTDATETIME_FMT		"%Y-%m-%d %H:%M:%S"
 
+/* columns of a result go by <table name>.<column name> */
+#define TABLE_MAX_FQCOLUMN_NAME		(TABLE_MAX_COLUMN_NAME + 1 /* dot */ + TABLE_MAX_COLUMN_NAME)
+
 struct column {
 	/* NUL-terminated string */
-	char name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	char name[TABLE_MAX_FQCOLUMN_NAME + 1 /*NUL char */];
 	/* type of value meant to be stored */
 	enum COLUMN_TYPE type;
 	/* how much space it takes up in memory */
diff --git a/src/primitive/column.c b/src/primitive/column.c
index f14f69d..ce9dd90 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -231,7 +231,7 @@ bool table_rem_column(struct table *table, struct column *column)
 		return false;
 
 	for (pos = 0; pos < table->column_count; pos++) {
-		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_COLUMN_NAME) == 0) {
+		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_FQCOLUMN_NAME) == 0) {
 			found = true;
 			break;
 		}
-- 
2.43.0


From 09b5df8c4f39a2bad38604ccaaa7fc0454c3966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 38/44] fix: SELECT accepts IS NULL as an operand of AND, OR
 and XOR

---
 src/parser/semantic_select.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a8be1b1..674aca6 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2438,6 +2438,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL) {
+		ret.type = CT_TINYINT; // ISXNULL evals to bool whatever the type of the field is
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From 01d2b394aa2a78c72f79e2d65a515ae8547ddf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 39/44] fix: reject quoted names and characters the SQL dialect
 does not have instead of truncating or skipping them

---
 src/parser/midorisql.l | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dcdc166..b9b1519 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -143,11 +143,15 @@ COUNT    { int c = input(yyscanner); unput(c);
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
                           return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
+`[A-Za-z0-9_]+`         { yylval->strval = strdup(yytext+1);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*`               { yyerror(NULL, yyscanner, "invalid quoted name %s", yytext);
+                          return '`'; }
+
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext);
+                          return '`'; }
 
 
 	/* comments */   
@@ -161,6 +165,7 @@ COUNT    { int c = input(yyscanner); unput(c);
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext);
+                  return (unsigned char)*yytext; }
 
 %%
-- 
2.43.0


From 7e8d40d88b4e48613da06a61d8b9ff561d8c3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:15 +0000
Subject: [PATCH 40/44] fix: a PRIMARY KEY declared ahead of its columns takes
 effect

---
 src/engine/executor_create.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index 5ea983f..47d20d7 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -91,7 +91,15 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_table;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
+		}
+	}
+
+	/* indexes and keys may be declared before the columns that they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
 			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
-- 
2.43.0


From 4e926be37fa40b0e575bc77c5b7f55b007882997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 41/44] fix: COUNT no longer copies a result row onto itself

---
 src/engine/executor_select.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 3e5a64b..d55db32 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1529,29 +1529,20 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	return ret;
 }
 
-static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk_offset, struct row *row, size_t row_size)
+/* row is the one held by the datablock, so counting in place is all there is to do */
+static void inc_count_cols(struct table *table, struct row *row)
 {
 	struct column *column;
 	size_t offset = 0;
-	bool found = false;
 
 	for (int i = 0; i < table->column_count; i++) {
 		column = &table->columns[i];
 
-		if (column->is_count) {
-			found = true;
+		if (column->is_count)
 			(*(int64_t*)&row->data[offset])++;
-		}
 
 		offset += table_calc_column_space(column);
 	}
-
-	if (found) {
-		if (!table_update_row(table, blk, blk_offset, row, row_size))
-			return -MIDORIDB_INTERNAL;
-	}
-
-	return MIDORIDB_OK;
 }
 
 /* rows belong to the same group only if they agree on every field of the group-by clause */
@@ -1611,10 +1602,7 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 						}
 
 						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
+						inc_count_cols(table, row_1);
 					}
 				}
 			}
@@ -1677,10 +1665,7 @@ static int handle_countonly_case(struct table *table)
 						}
 
 						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
+						inc_count_cols(table, row_1);
 					}
 				}
 			}
-- 
2.43.0


From 478c9689b1afecb0fae18136ee8b2b72b9ef0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:53 +0000
Subject: [PATCH 42/44] fix: a failed regex match releases the caller's stack
 once; a failed column definition releases its entry

---
 src/lib/regex.c         | 8 ++++----
 src/parser/ast_create.c | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..254057e 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -20,7 +20,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,10 +54,10 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
-	regfree(&regex);
+	/* whatever was pushed onto the stack is released by its owner */
 	free(matches);
-err:
+err_matches:
+	regfree(&regex);
 	return false;
 
 }
diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..88e5593 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
-- 
2.43.0


From a791d4088897dec6563373ff17a9de4729412e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 43/44] fix: dates with trailing characters and days their
 month does not have are rejected

---
 src/parser/semantic_delete.c | 13 ++++++++++++-
 src/parser/semantic_insert.c | 13 ++++++++++++-
 src/parser/semantic_select.c | 13 ++++++++++++-
 src/parser/semantic_update.c | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 5f48802..629b7d2 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -175,7 +175,9 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	const char *end;
 	time_t time_out;
+	int day;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -183,9 +185,14 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+
+	// All of it has to be a date
+	if (end == NULL || *end != '\0')
 		return false;
 
+	day = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -193,6 +200,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// A day which the month doesn't have turns into one of the next month
+	if (time_struct.tm_mday != day)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..4d18a58 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -205,7 +205,9 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	const char *end;
 	time_t time_out;
+	int day;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -213,9 +215,14 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+
+	// All of it has to be a date
+	if (end == NULL || *end != '\0')
 		return false;
 
+	day = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -223,6 +230,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// A day which the month doesn't have turns into one of the next month
+	if (time_struct.tm_mday != day)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 674aca6..c693f29 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -59,7 +59,9 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	const char *end;
 	time_t time_out;
+	int day;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -67,9 +69,14 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+
+	// All of it has to be a date
+	if (end == NULL || *end != '\0')
 		return false;
 
+	day = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -77,6 +84,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// A day which the month doesn't have turns into one of the next month
+	if (time_struct.tm_mday != day)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8f1d21b..e7c27df 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -178,7 +178,9 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	const char *end;
 	time_t time_out;
+	int day;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -186,9 +188,14 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+
+	// All of it has to be a date
+	if (end == NULL || *end != '\0')
 		return false;
 
+	day = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -196,6 +203,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// A day which the month doesn't have turns into one of the next month
+	if (time_struct.tm_mday != day)
+		return false;
+
 	return true;
 
 }
-- 
2.43.0


From 1fe88b77ec5d13473f5cca090f334f11c94401ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:43 +0000
Subject: [PATCH 44/44] fix: statements the grammar accepts but no builder
 handles are rejected instead of ending the process

---
 src/parser/ast_create.c | 2 +-
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 88e5593..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -346,7 +346,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 5eefc53..692da82 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 6e8edcb..f6cf71f 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index dba3108..4b6954e 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index e348a93..e1ce5e8 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
-- 
2.43.0

