#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))

I, H, F, PR, CF = "inputs", "histories", "fault_sequences", "programs", "configurations"

p("C01", "Inserting a row stores exactly that row and disturbs nothing else",
  "Inserting a row into a table makes exactly one more row visible, at the end of the table, and every column of it reads back the value or NULL that was given. No other row's values, NULL marks or position change, and the row (with every VARCHAR in a copy of its own) lies wholly inside one page. If memory runs out the insert reports failure, the table is as it was, and nothing is leaked.",
  [I, H, F], "every schema (any mix and order of column types), every fill level of the last page, every row content, every allocation failing",
  "The unit tests insert a handful of rows of two or three fixed schemas; they never fail an allocation and sample a few page-boundary cases.",
  ["src/primitive/row.c", "src/primitive/table.c", "src/primitive/datablock.c"],
  [("table_insert_row", "src/primitive/row.c"), ("table_datablock_init", "src/primitive/table.c"), ("datablock_alloc", "src/primitive/datablock.c")],
  [("free_dtbkl_offset", "first free byte of the last page", "struct table"), ("flags.empty/deleted", "state of a row slot", "struct row")])
p("C02", "Updating or deleting a row touches exactly that row",
  "Updating a stored row replaces its values and NULL marks with the given ones, and deleting a stored row makes it invisible. Every other row in the table keeps its values, NULL marks and place, the free space stays where it was, and no memory is gained or lost.",
  [I, H], "every schema, every row position in any page, every old and new content",
  "Tests update/delete a few rows of fixed schemas and look at the row they changed.",
  ["src/primitive/row.c"], [("table_update_row", "src/primitive/row.c"), ("table_delete_row", "src/primitive/row.c")])
p("C03", "Vacuum keeps the live rows, in order, and reclaims the rest",
  "Compacting a table keeps every live row with its values and NULL marks, in the same order, and drops every deleted row. Afterwards only the last page has free space, inserts continue after the last row, no page has been added, and exactly the memory owned by the dropped rows and pages is released.",
  [I, H], "every pattern of live, deleted and unused slots over any number of pages, every schema and content, including the empty table",
  "Tests vacuum a few hand-made patterns of one schema; the compaction loop's behaviour depends on the pattern of holes across page boundaries.",
  ["src/primitive/vacuum.c", "src/primitive/table.c"], [("table_vacuum", "src/primitive/vacuum.c"), ("table_free_row_content", "src/primitive/row.c")])
p("C04", "Adding or removing a column preserves the other columns of every row",
  "Adding a column to a table, or removing one, leaves every row of the table in place and in order, with the values and NULL marks of all other columns unchanged and the other columns' definitions intact. A column whose name is already taken, or an unknown column, is refused. A refused or failed change leaves the table as it was, and removing a column releases exactly the memory its values owned.",
  [I, H, F], "every schema, every position of the column, rows over any number of pages with any deleted rows, every allocation failing",
  "Tests add/remove columns on small tables with fixed data and check a few bytes; NULL marks and page overflow are not covered.",
  ["src/primitive/column.c"], [("table_add_column / datablock_add_column", "src/primitive/column.c"), ("table_rem_column / datablock_rem_column", "src/primitive/column.c")])
p("C05", "Columns and NULL marks of a row never overlap",
  "For any schema, each column occupies its own bytes within the row, a row is exactly its header plus the sum of its columns, and its size depends only on the schema. Setting, clearing, testing or toggling one NULL mark of a row affects exactly that column's mark, for every column number up to the maximum of 128.",
  [I, CF], "every schema of up to 128 columns, every bit number and every bitmap content",
  "Tests set a few bits of small words and compute the size of a couple of schemas.",
  ["src/lib/bit.c", "src/primitive/row.c", "src/primitive/column.c"],
  [("bit_test/bit_set/bit_clear/bit_toggle", "src/lib/bit.c"), ("table_calc_row_size, table_calc_row_data_size", "src/primitive/row.c"), ("table_calc_column_space, table_calc_column_precision", "src/primitive/column.c")])
p("C06", "The hash table is a finite map through any history, including growth",
  "After any sequence of insertions, removals and look-ups, a look-up returns exactly the value last stored under that key and not removed since, or nothing, and the count equals the number of keys present. Inserting a key that is present is refused and changes nothing. Visiting all entries reaches each present key exactly once, and none of this changes when the table grows or when growing fails for lack of memory.",
  [H, I, F], "every sequence of operations over any keys (including colliding ones), every allocation failing",
  "Tests insert a few keys and cross one growth; collisions within a bucket, removal from chains, and failed growth are sampled at best once.",
  ["src/datastructure/hashtable.c"], [("hashtable_put/get/remove/foreach/resize", "src/datastructure/hashtable.c")])
p("C07", "The B-tree is an ordered map through any history",
  "After any sequence of insertions of distinct keys, removals, updates and look-ups, a look-up returns exactly the value stored under that key if it is present and nothing otherwise. Keys stay ordered, every node keeps between the minimum and maximum number of keys, and all leaves are at the same depth.",
  [H, I], "every sequence of operations over any distinct keys, every minimum degree",
  "Tests insert and delete fixed sequences; split, borrow and merge at every position depend on the history.",
  ["src/datastructure/btree.c"], [("btree_insert/remove/lookup/update", "src/datastructure/btree.c")])
p("C08", "Vector, stack, queue and list keep what was put in, in order",
  "The vector holds the concatenation of everything pushed since it was last cleared; the stack returns elements last-in first-out and the queue first-in first-out, each with the content it was given; peeking at a position returns that element and changes nothing; the linked list keeps the other elements in order across insertion and removal. If memory runs out, a push reports failure and the content stays as it was.",
  [H, I, F], "every sequence of operations, every element content and length, every allocation failing",
  "Tests push a few elements; growth boundaries are crossed once and allocation failures never.",
  ["src/datastructure/vector.c", "src/datastructure/stack.c", "src/datastructure/queue.c", "src/datastructure/linkedlist.c"],
  [("vector_push growth", "src/datastructure/vector.c"), ("stack_push/pop/peek", "src/datastructure/stack.c"), ("queue_offer/poll/peek", "src/datastructure/queue.c"), ("list_add/list_del", "src/datastructure/linkedlist.c")])
p("C10", "The table catalogue finds each table under its own name only",
  "In an open database, looking up a name returns exactly the table added under that name, and nothing for any other name. Adding a table whose name is taken is refused and leaves the catalogue as it was. Closing the database releases every table and everything the catalogue owns.",
  [H, I, F], "every sequence of table additions and look-ups, any number of tables (past the growth of the catalogue), every allocation failing",
  "Tests add one or two tables; they do not cross the catalogue's growth or fail an allocation.",
  ["src/engine/database.c"], [("database_table_add/get/exists/open/close", "src/engine/database.c")])
p("C11", "Only valid identifiers name tables and columns",
  "A table or column name is accepted exactly when it has 1 to 127 characters, starts with a letter and continues with letters, digits or underscores. A table is created only under an accepted name, keeps that name exactly, and starts with no columns and no rows.",
  [I], "every string of every length",
  "Tests try a few good and bad names; the boundaries in length and character set are all-quantified.",
  ["src/primitive/table.c", "src/primitive/column.c"], [("table_validate_name, table_init", "src/primitive/table.c"), ("table_validate_column_name", "src/primitive/column.c")])
p("C12", "DELETE removes exactly the rows its WHERE clause selects",
  "A DELETE statement accepted by the checks removes every live row for which its condition is true and no other row, reports their exact number, and leaves all remaining rows unchanged; without a WHERE clause it removes all rows. A comparison involving NULL is false, AND/OR/XOR combine truth values, IN is true when any listed value equals the column, NOT IN when every listed value differs from it, and comparisons use the full range and order of the column's type.",
  [PR, I, H], "every condition (any nesting of comparisons, AND/OR/XOR, IN, IS NULL), every table content over any number of pages",
  "Tests run a few fixed conditions on a few rows.",
  ["src/engine/executor_delete.c"], [("executor_run_deleteone_stmt, eval_row_cond, eval_row_logop, eval_row_cmp", "src/engine/executor_delete.c"), ("table_delete_row", "src/primitive/row.c")])
p("C13", "UPDATE changes exactly the named columns of the selected rows",
  "An accepted UPDATE statement sets the named columns to the given values (or NULL) in every live row for which its condition holds, reports their exact number, and changes no other column and no other row. A column that was NULL and is given a value stops being NULL. Conditions have the meaning they have in DELETE, judged on the row as it was before the statement.",
  [PR, I, H], "every condition, every set of assignments, every table content over any number of pages",
  "Tests run a few fixed statements on a few rows of one schema.",
  ["src/engine/executor_update.c"], [("executor_run_update_stmt, update_value, eval_row_cond", "src/engine/executor_update.c"), ("table_update_row", "src/primitive/row.c")])
p("C14", "SELECT from one table returns exactly the matching rows",
  "A SELECT over one table without grouping returns, for each live row that satisfies the WHERE clause and in table order, one row holding the value or NULL of every selected column under that column's name, and nothing else. Conditions have the meaning they have in DELETE. The source table is not changed.",
  [PR, I, H], "every condition and column list (including *), every table content over any number of pages",
  "Tests run a few fixed queries over a few rows.",
  ["src/engine/executor_select.c", "src/engine/optimiser_select.c"], [("executor_run_select_stmt, proc_where_clause, eval_*", "src/engine/executor_select.c"), ("optimiser_run_select_stmt", "src/engine/optimiser_select.c")])
p("C15", "INSERT puts each value in its column and NULL elsewhere",
  "An accepted INSERT ... VALUES statement adds one row per value list, in order, in which each listed column (or, without a column list, each column in schema order) holds its value converted to the column's type, columns given NULL or not listed are NULL, and reports the exact number of rows. Rows already in the table do not change, and strings are stored completely with their terminator.",
  [PR, I, H, F], "every schema, column list in any order, any number of value lists, every value; allocation failures",
  "Tests insert a few rows of fixed schemas.",
  ["src/engine/executor_insert.c"], [("executor_run_insertvals_stmt", "src/engine/executor_insert.c")])
p("C16", "Arithmetic in INSERT values follows the operators exactly",
  "An arithmetic expression in a VALUES list is stored as the result of applying +, -, *, / and % to its operands in the order and nesting written: in 64-bit integers for an INTEGER column (whenever the results fit), in floating point for a DOUBLE column, where % works on the integral parts. Division or modulo by zero, or any NULL operand, yields NULL.",
  [PR, I], "every expression shape and every operand value",
  "Tests evaluate a few constant expressions.",
  ["src/engine/optimiser_insert.c"], [("resolve_math_expr and friends", "src/engine/optimiser_insert.c")])
p("C17", "COUNT(*) and GROUP BY count and group exactly",
  "COUNT(*) without grouping over a non-empty result reports the number of rows that satisfy the query. GROUP BY returns one row per distinct combination of the grouping columns' values (NULL being one value), each with the number of rows in its group when COUNT(*) is selected.",
  [PR, I, H], "every table content over any number of pages, every grouping column list and condition",
  "Tests count or group fewer than ten rows, which always fit in one page.",
  ["src/engine/executor_select.c"], [("proc_groupby_clause / is_same_group / inc_count_cols", "src/engine/executor_select.c")])
p("C18", "A join of two tables returns exactly the matching pairs",
  "An inner join of two tables returns one row for each pair of live rows that satisfies the ON condition (and the WHERE clause), holding the columns of both, and no other row; pairs with a NULL in a compared column do not match.",
  [PR, I, H], "every content of the two tables over any number of pages, every ON and WHERE condition over columns of both",
  "Tests join a few rows on one equality.",
  ["src/engine/executor_select.c"], [("_join_nested_loop_*, merge_rows", "src/engine/executor_select.c")])
p("C19", "The result cursor visits every row exactly once",
  "Stepping through a result visits every row exactly once, in order, across all of its pages, and then reports the end, also for an empty result and on every further step. Reading a column of the current row returns exactly the value stored in that row and column.",
  [I, H], "every number of rows and pages, every schema of the result, every column",
  "Tests step through results that fit in one page.",
  ["src/engine/query.c"], [("query_cur_step, query_column_int64", "src/engine/query.c")])
p("C20", "Statements that break the schema's rules are rejected and change nothing",
  "A statement that names a table or column that does not exist, repeats a column in CREATE TABLE or in INSERT's column list, gives the wrong number of values, gives a value of the wrong type, an overlong string or an invalid date, or puts NULL in a NOT NULL column, is rejected with an error and leaves every table unchanged. A statement free of such faults is accepted.",
  [PR, I], "every INSERT, UPDATE, DELETE, SELECT and CREATE statement over every schema",
  "Tests reject a list of sample statements and accept a few.",
  ["src/parser/semantic.c", "src/parser/semantic_insert.c", "src/parser/semantic_update.c", "src/parser/semantic_delete.c", "src/parser/semantic_select.c", "src/parser/semantic_create.c"],
  [("semantic_analyse_*", "src/parser/semantic_*.c"), ("query_execute's order of stages", "src/engine/query.c")])
p("C21", "The statement tree has the structure the statement was written with",
  "For every statement in the supported grammar, the tree built from it has exactly the statement's tables, columns, values, operators and nesting, in the order written, with nothing dropped, duplicated or reassociated. Releasing the tree releases all of its memory, and a failed construction releases everything it had built.",
  [PR, F], "every statement in the supported grammar, every nesting depth, every allocation failing",
  "Tests check the tree of sample statements of each kind.",
  ["src/parser/ast.c", "src/parser/ast_create.c", "src/parser/ast_insert.c", "src/parser/ast_delete.c", "src/parser/ast_update.c", "src/parser/ast_select.c"],
  [("ast_*_build_tree", "src/parser/ast_*.c"), ("ast_free", "src/parser/ast.c")])
p("C22", "CREATE TABLE makes exactly the declared table",
  "An accepted CREATE TABLE adds one table with the declared name and exactly the declared columns, in order, each with its declared type, size, and nullability. With IF NOT EXISTS an existing table is left untouched and no error is reported; otherwise a taken name is an error and the existing table is left untouched.",
  [PR, I, H], "every list of column definitions and every state of the catalogue",
  "Tests create a few sample tables.",
  ["src/engine/executor_create.c", "src/parser/semantic_create.c"], [("executor_run_create_stmt", "src/engine/executor_create.c")])
p("C23", "Statements release what they allocate, also when memory runs out",
  "Running a CREATE, INSERT, UPDATE or DELETE statement leaves allocated only what the database keeps: the tables, pages and row values. If an allocation fails after the statement's text has been parsed, the statement either reports an error or takes effect in full, nothing is released twice or used after release, and the database can still be used and closed.",
  [F, H], "every statement of those kinds, every allocation failing",
  "No test makes an allocation fail or counts what is still allocated.",
  ["src/engine/executor_create.c", "src/engine/executor_insert.c", "src/engine/executor_update.c", "src/engine/executor_delete.c", "src/engine/query.c"],
  [("error paths of executor_run_*", "src/engine/executor_*.c"), ("query_execute", "src/engine/query.c")])
p("C24", "SQL text is read as the SQL grammar says",
  "Every statement text in the supported grammar is split into the tokens it contains and parsed with the documented precedence, case-insensitively for keywords and exactly for names, numbers and strings; every other text is rejected.",
  [PR, I], "every text", "Tests parse a list of sample statements.",
  ["src/parser/midorisql.l", "src/parser/midorisql.y", "src/parser/syntax.c"], [("flex/bison grammar", "src/parser/midorisql.y")])
p("C25", "Concurrent statements on one table behave as if run one after another",
  "Statements run at the same time by different threads on one database leave it as some sequential order of them would, and readers never see half of a statement.",
  ["schedules"], "every schedule of two or more threads", "All tests are single-threaded.",
  ["src/engine/database.c", "src/primitive/table.c"], [("table_lock, database_lock", "src/primitive/table.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
