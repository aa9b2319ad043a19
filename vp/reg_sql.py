from regbase import unit, prop, loop
import itertools
from reg_storage import layouts, tcols, VC, INT, TINY, DBL, DATE, DTM
TS3 = [(INT,), (TINY,), (VC, TINY), (TINY, INT), (TINY, DATE, TINY)]

SQL = dict(kind="run", srcs=["@all"], native_srcs=[])
STMT = "run-time check: random statements over tables of up to 300 rows and 20 columns, full parser-to-storage path"
for p in ("C12", "C13", "C14", "C15", "C16"):
    prop(p)
unit("q_delete", "C12", "q_delete.c", ["query_execute (DELETE)"], run=3000, **SQL, bound=STMT)
unit("q_update", "C13", "q_update.c", ["query_execute (UPDATE)"], run=2000, **SQL, bound=STMT)
unit("q_select", "C14", "q_select.c", ["query_execute (SELECT)"], run=2000, **SQL, bound=STMT)
unit("q_insert", ["C15", "C16"], "q_insert.c", ["query_execute (INSERT)"], run=3000, **SQL, bound=STMT)

for p in ("C17", "C18", "C19"):
    prop(p)
unit("q_group", "C17", "q_group.c", ["query_execute (SELECT ... GROUP BY, COUNT(*))"], run=1500, **SQL, bound=STMT)
unit("q_join", "C18", "q_join.c", ["query_execute (SELECT ... JOIN)"], run=1500, **SQL, bound="run-time check: random two-table statements, up to 300 x 12 rows")
QC = ["engine/query.c", "primitive/table.c", "primitive/row.c", "primitive/column.c", "primitive/datablock.c", "datastructure/linkedlist.c", "lib/bit.c"]
unit("c19_column", "C19", "c19_column.c", ["query_column_int64", "table_calc_column_space"], srcs=["engine/query.c", "primitive/column.c"], native_srcs=["@all"], unwind=20, small=200,
     fixes=[[c, o] for c in (0, 1, 2, 3, 7, 10, 15) for o in (0, 11)], bound="schemas of <= 16 columns of any types")
unit("c19_column_full", "C19", "c19_column.c", ["query_column_int64"], kind="run", run=20000, srcs=["@all"], bound="run-time check: schemas of <= 128 columns, full-size pages")
unit("c19_cursor", "C19", "c19_cursor.c", ["query_cur_step", "query_column_int64"], srcs=QC, native_srcs=["@all"], small=60, defs=["VP_MAXCOLS=3", "VP_MAXROWS=8"], unwind=62,
     fixes=[l + [at, c] for ts in TS3 for l in layouts([ts], [[0], [1, 0, 0], [1, 0, 8], [2, 0, 8, 1], [3, 0, 8, 0, 1]]) for at in range(2 if l[-1] == 0 else 5) for c in (at % len(ts),)], bound="results of <= 3 pages, <= 3 columns, <= 4 rows")
unit("c19_cursor_full", "C19", "c19_cursor.c", ["query_cur_step", "query_column_int64"], kind="run", run=8000, srcs=["@all"], defs=["VP_MAXROWS=300", "VP_BIGPAGE", "VP_MAXCOLS=12"], bound="run-time check: results of up to 300 rows")
unit("c19_step", "C19", "c19_step.c", ["query_cur_step"], kind="bounded", srcs=["engine/query.c"], native=False, unwind=8, fixes=[[n, c] for n in range(4) for c in range(n + 2)], bound="results of <= 3 pages at the real page size, any row size, any fill, any position")

# ---- statement executors over symbolic rows and literals (bounded shapes) ----
EX = ["primitive/table.c", "primitive/row.c", "primitive/column.c", "primitive/datablock.c", "datastructure/linkedlist.c", "lib/bit.c"]
SMALLX = dict(small=60, defs=["VP_MAXCOLS=2", "VP_MAXPREC=3", "VP_MAXROWS=8"], unwind=62)
B2 = [2, 2, 2, 1]


def leaves(col=0, other=None):
    r = [[k, col, n] for k in (0, 1) for n in (0, 3)] + [[3, col, 0], [3, col, 3], [4, col], [5, col, 1, 2, 0], [5, col, 2, 1, 0, 0], [5, col, 2, 0, 3, 0], [5, col, 2, 2, 0, 3]]
    return r + ([[2, col, other]] if other is not None else [])


def where_cases(sets=[[]]):
    r = [[(INT,), B2, [0]], [(VC, TINY), B2, [0]]]
    for ty in range(6):
        for l in leaves():
            r.append([(ty,), [1, 0, 1 if ty == DBL else 2], [1] + l])
        r.append([(ty, ty), [1, 0, 1], [1, 2, 0, 1]])
        r.append([(TINY, ty), B2, [1, 0, 1, 0]])
    a, b, c = [0, 0, 0], [4, 1], [5, 1, 2, 0, 0, 0]
    for s in (2, 3, 4):
        for x, y, z in ((a, b, c), (b, c, a), (c, a, [1, 1, 0]), (a, a, [0, 1, 3])):
            r.append([(INT, TINY), [1, 0, 2], [s] + x + y + (z if s > 2 else [])])
    return [tcols(ts) + blk + sets[i % len(sets)] + w for i, (ts, blk, w) in enumerate(r)]


def set_cases():
    r = []
    for ts in ((INT, VC), (VC, INT), (TINY, DBL), (DATE, TINY), (VC, VC), (DTM, INT)):
        for st in ([2, 0, 0, 1, 0], [2, 1, 0, 0, 3], [1, 1, 0], [1, 1, 3]):
            r.append(tcols(ts) + [1, 1, 2] + st + ([0] if st[0] == 2 else [1, 0, 0, 0]))
    return r


unit("c12_delete", "C12", "c12_delete.c", ["executor_run_deleteone_stmt", "scan_delete", "eval_delete_row", "eval_cmp", "eval_isxnull", "eval_isxin", "cmp_field_to_value", "cmp_field_to_field", "cmp_value_to_value", "mirror_cmp_type", "table_delete_row"],
     srcs=["engine/executor_delete.c"] + EX, **SMALLX, fixes=where_cases(),
     bound="tables of <= 2 columns and <= 2 blocks of 60 bytes, conditions of <= 3 leaves, IN lists of <= 2 values; any values, operators and literals",
     assumes=["strptime and mktime: some function of the text, the same on every call", "database_table_exists/_get: the catalogue's contract (C10)"])
unit("c13_update", "C13", "c13_update.c", ["executor_run_update_stmt", "scan_update", "should_update_row", "update_row", "set_field_to_value", "eval_cmp", "eval_isxnull", "eval_isxin", "cmp_field_to_value", "cmp_field_to_field", "cmp_value_to_value"],
     srcs=["engine/executor_update.c"] + EX, **SMALLX, fixes=where_cases([[1, 0, 0], [1, 0, 0], [1, 0, 3]]) + set_cases(),
     bound="tables of <= 2 columns and <= 2 blocks of 60 bytes, <= 2 assignments, conditions of <= 3 leaves, IN lists of <= 2 values; any values, operators and literals",
     assumes=["strptime and mktime: some function of the text, the same on every call", "database_table_exists/_get: the catalogue's contract (C10)"])
SELSRC = ["engine/executor_select.c", "datastructure/hashtable.c"] + EX
def sel_cases():
    return [tcols(ts) + [1, 0, 2] + sel + [1, 0, ts.index(INT), 0] for ts in ((INT, VC), (TINY, INT), (VC, INT), (INT, DBL)) for sel in ([1, 1], [2, 1], [2, 0])]


def group_cases():
    r = []
    for ty in range(6):
        r.append(tcols([ty]) + ([1, 0, 3] if ty in (TINY, INT) else [1, 0, 2]) + [1, 0, 1, 0])
    for ts in ((TINY, INT), (INT, VC), (VC, TINY)):
        for g in ([2, 0, 1], [2, 1, 0], [1, 0, 1], [1, 1, 1]):
            r.append(tcols(ts) + [1, 0, 2] + g + [0])
    for b in ([1, 0, 1], [1, 0, 3], [2, 2, 2, 1], [2, 0, 2, 1]):
        r.append(tcols([TINY]) + b + [0, 0, 0])
        r.append(tcols([TINY, TINY]) + b + [0, 0, 1, 0, 1, 0])
        r.append(tcols([TINY, TINY]) + b + [1, 1, 1, 1, 0, 0, 0])
    return r


def join_cases(thorough):
    r = []
    for ty in range(6):
        r.append(tcols([ty]) + [1, 0, 1] + tcols([ty]) + [1, 0, 1] + [0, 0, 0, 0])
    for sw in (0, 1):
        r.append(tcols([TINY]) + [1, 0, 2] + tcols([TINY]) + [1, 0, 1] + [0, 0, sw, 0])
        r.append(tcols([TINY]) + [1, 0, 1] + tcols([TINY]) + [1, 0, 2] + [0, 0, sw, 0])
        r.append(tcols([TINY, TINY]) + [1, 2, 2] + tcols([INT, TINY]) + [1, 0, 1] + [0, 1, sw, 0])
        if sw or thorough:
            r.append(tcols([INT, TINY]) + [1, 0, 1] + tcols([VC, TINY]) + [1, 0, 2] + [1, 1, sw, 1, 4, 0])
        if not sw or thorough:
            r.append(tcols([INT]) + [2, 0, 1, 1] + tcols([INT]) + [1, 0, 2] + [0, 0, sw, 0])
        if thorough:
            r.append(tcols([TINY]) + [1, 0, 2] + tcols([TINY]) + [1, 0, 2] + [0, 0, sw, 0])
            r.append(tcols([TINY]) + [1, 0, 3] + tcols([TINY]) + [1, 0, 1] + [0, 0, sw, 1, 0, 0, 0])
            for ty in range(6):
                r.append(tcols([ty]) + [1, 0, 2] + tcols([ty]) + [1, 0, 1] + [0, 0, sw, 0])
    return r


unit("c14_select", "C14", "c14_select.c", ["executor_run_select_stmt", "build_cols_hashtable", "build_table_scafold", "proc_from_clause_table", "cpy_cols", "proc_where_clause", "eval_row_cond", "eval_cmp", "eval_isxnull", "eval_isxin", "cmp_fieldname_to_value", "cmp_value_to_fieldname", "cmp_fieldname_to_fieldname", "cmp_value_to_value", "proc_select_clause", "handle_countonly_case"],
     srcs=SELSRC, **SMALLX, fixes=where_cases([[1, 0]])[::3] + sel_cases(), fixes_thorough=where_cases([[1, 0]]) + sel_cases(),
     bound="tables of <= 2 columns and <= 2 blocks of 60 bytes, conditions of <= 3 leaves, IN lists of <= 2 values; any values, operators and literals",
     assumes=["strptime and mktime: some function of the text, the same on every call", "database_table_get: the catalogue's contract (C10)", "table_vacuum: the contract of C03"])
unit("c17_group", "C17", "c17_group.c", ["executor_run_select_stmt", "proc_groupby_clause", "is_same_group", "cmp_rows_col_mattbl", "find_column_mattbl", "inc_count_cols", "init_count_cols", "handle_countonly_case", "proc_select_clause", "proc_where_clause"],
     srcs=SELSRC, **SMALLX, fixes=group_cases(), bound="tables of <= 2 columns, <= 2 blocks of 60 bytes and <= 3 rows; any values",
     assumes=["database_table_get: the catalogue's contract (C10)", "table_vacuum: the contract of C03"])
unit("c18_join", "C18", "c18_join.c", ["executor_run_select_stmt", "proc_from_clause_join", "_join_nested_loop_tbl2tbl", "merge_rows", "_merge_rows", "cpy_cols", "cmp_fieldname_to_fieldname", "eval_row_cond"],
     srcs=[x for x in SELSRC if x != "primitive/row.c"], **SMALLX, fixes=join_cases(False), fixes_thorough=join_cases(True), timeout=400, bound="tables of <= 2 columns and <= 2 rows, pages of 60 bytes; any values",
     assumes=["database_table_get: the catalogue's contract (C10)", "table_vacuum, table_insert_row: the contracts of C03 and C01"])

prop("C22")
unit("q_oom", "C23", "q_oom.c", ["query_execute (CREATE, INSERT, UPDATE, DELETE)"], kind="run", run=6000, srcs=["@all"], native_skip=["engine/query.c"], bound="run-time check: random statements, every allocation after parsing failing in turn")
unit("q_reject", "C20", "q_reject.c", ["query_execute (rejection of faulty INSERT, UPDATE, DELETE and SELECT statements)"], run=6000, **SQL, bound=STMT)
unit("q_create", ["C22", "C20"], "q_create.c", ["query_execute (CREATE TABLE)"], run=3000, **SQL, bound=STMT)


# ---- INSERT ----
K_INT, K_DBL, K_BOOL, K_TEXT, K_NULL, K_SUM, K_DSUM, K_BAD = range(8)
KIND = {INT: K_INT, DBL: K_DBL, TINY: K_BOOL, VC: K_TEXT, DATE: K_TEXT, DTM: K_TEXT}


def istmt(cols, rows, tail=0, known=0):
    """inputs of i_stmt(): column list and its place in the tree, value lists of kind or (kind, which fault, swapped)"""
    f = [known, len(cols)] + list(cols) + ([tail] if cols else []) + [len(rows)]
    for r in rows:
        f += [len(r)]
        for v in r:
            f += list(v) if isinstance(v, tuple) else [v] if v < K_SUM else [v, 0] if v < K_BAD else [v, 0, 0]
    return f


def reject_cases():
    r = [tcols((INT,)) + istmt([], [[K_INT]], known=1)]
    for ty in range(6):
        for k in range(7):
            r.append(tcols((ty,)) + istmt([], [[k]]))
        for bad in range(3):
            r.append(tcols((ty,)) + istmt([], [[(K_BAD, bad, ty % 2)]]))
    for ts in ((INT, VC), (TINY, DBL)):
        k = [KIND[t] for t in ts]
        for n in (1, 2, 3):
            r.append(tcols(ts) + istmt([], [(k + [K_NULL])[:n]]))
            for cols in ([0], [1], [0, 1], [1, 0], [0, 0], [0, 2], [2], [2, 1], [0, 1, 2], [0, 1, 0]):
                row = [k[c] if c < 2 else K_INT for c in cols]
                if abs(len(cols) - n) < 2:
                    r.append(tcols(ts) + istmt(cols, [(row + [K_NULL, K_NULL])[:n]], tail=n % 2))
        r.append(tcols(ts) + istmt([], [k, k]))
        r.append(tcols(ts) + istmt([], [k, k[:1]]))
        r.append(tcols(ts) + istmt([], [k[:1], k]))
        r.append(tcols(ts) + istmt([], [k, k[::-1]]))
        r.append(tcols(ts) + istmt([1, 0], [k, k[::-1]]))
        r.append(tcols(ts) + istmt([1, 0], [k[::-1], [k[1], K_NULL]]))
        r.append(tcols(ts) + istmt([1], [[k[1]], [K_NULL]], tail=1))
    return r


def insert_cases():
    r = []
    B = [[0], [1, 0, 0], [1, 1, 1], [2, 2, 2, 1]]
    for i, ty in enumerate(range(6)):
        for j, b in enumerate(B):
            for k in (KIND[ty], K_NULL):
                r.append(tcols((ty,)) + b + istmt([], [[k]]) + [0])
        r.append(tcols((ty,)) + B[2] + istmt([0], [[KIND[ty]], [K_NULL]], tail=i % 2) + [0])
    for i, ts in enumerate(((INT, VC), (VC, DATE), (TINY, DTM), (DBL, TINY), (VC, VC))):
        k = [KIND[t] for t in ts]
        for b in (B[0], B[2]):
            r.append(tcols(ts) + b + istmt([], [k, k]) + [0])
            r.append(tcols(ts) + b + istmt([1, 0], [k[::-1]], tail=i % 2) + [0])
            r.append(tcols(ts) + b + istmt([0], [[k[0]]], tail=1) + [0])
            r.append(tcols(ts) + b + istmt([1], [[k[1]], [K_NULL]]) + [0])
            r.append(tcols(ts) + b + istmt([1, 0], [k[::-1], [K_NULL, k[0]]]) + [0])
            r.append(tcols(ts) + b + istmt([], [[K_NULL, k[1]]]) + [0])
    for n in range(1, 7):
        r.append(tcols((VC, VC)) + B[0] + istmt([], [[K_TEXT, K_TEXT]]) + [n])
        r.append(tcols((VC, TINY)) + B[2] + istmt([], [[K_TEXT, K_BOOL]] * 2) + [n])
    return r


unit("c15_insert", ["C15", "C23"], "c15_insert.c", ["executor_run_insertvals_stmt", "build_row", "build_column_order", "check_nulls", "parse_date_type", "table_insert_row"],
     srcs=["engine/executor_insert.c"] + EX, **SMALLX, fixes=insert_cases()[::2], fixes_thorough=insert_cases(),
     bound="tables of <= 2 columns and <= 2 blocks of 60 bytes, <= 2 value lists; any values; every allocation failing",
     assumes=["strptime and mktime: some function of the text and format", "database_table_exists/_get: the catalogue's contract (C10)"])
prop("C20")
prop("C23")
unit("c20_insert", "C20", "c20_insert.c", ["semantic_analyse_insert_stmt", "validate_table", "validate_number_terms", "validate_column_list", "column_exists", "check_not_null_columns", "validate_values", "build_column_order", "check_value_for_column", "check_math_expr_type", "try_parse_date_type"],
     srcs=["parser/semantic_insert.c", "datastructure/hashtable.c"] + EX, **SMALLX, fixes=reject_cases(),
     bound="tables of <= 2 columns, column lists and value lists of <= 3 entries, <= 2 value lists; any values, any nullability",
     assumes=["strptime and mktime: some function of the text and format", "database_table_exists/_get: the catalogue's contract (C10)"])
unit("c16_ops", "C16", "c16_ops.c", ["calci", "calcd", "negate"], kind="proof", srcs=[], native_srcs=["@all"], native_skip=["engine/optimiser_insert.c"], unwind=3, small=60, solver="--z3 --fpa",
     fixes=[[d, k] for d in (0, 1) for k in range(6)],
     assumes=["integer results that do not fit 64 bits are excluded, as in the property", "fmod is a function of its arguments (uninterpreted); trunc: CBMC's model",
              "the value node's string buffer, which shares its storage with the numbers, has 16 bytes instead of 65 KB"])


def trees(thorough):
    """shapes in prefix form (0 literal, 1-5 + - * / %, 6 sign), as inputs of c16_tree"""
    r = []
    bins = [(2, 1), (1, 2), (2, 2), (2, 4), (4, 2), (4, 4), (5, 2), (3, 5), (5, 5), (4, 3), (1, 4), (2, 3), (3, 4)]
    for dbl in (0, 1):
        for op in range(1, 6):
            r.append([1, dbl, op, 0, 0])
        r.append([1, dbl, 6, 0])
        r.append([1, dbl, 6, 6, 0])
        r.append([3, dbl, 0, 2, 0, 0, 0])
        r.append([2, dbl, 4, 0, 0, 2, 0, 0])
        r.append([3, dbl, 2, 0, 0, 0, 1, 0, 6, 0])
        for x, y in bins if thorough else bins[:6 if dbl == 0 else 4]:
            r.append([1, dbl, x, y, 0, 0, 0])
            r.append([1, dbl, x, 0, y, 0, 0])
        r.append([1, dbl, 6, 2, 0, 0])
        r.append([1, dbl, 2, 6, 0, 0])
        r.append([1, dbl, 6, 4, 0, 0])
        r.append([1, dbl, 2, 2, 0, 0, 2, 0, 0])
        r.append([1, dbl, 2, 4, 0, 0, 2, 0, 0])
    return r


def creates():
    """statements of w_crt.h: table name, IF NOT EXISTS, definitions, exists"""
    A, B, C, D, BAD, EMPTY = range(6)
    col = lambda n: [0, n]
    ix = lambda k, *n: [k, len(n), *n]
    defs = [[], [col(A)], [col(A), col(B)], [col(A), col(A)], [col(A), col(D)], [col(BAD)], [col(A), col(EMPTY)], [col(B), col(A), col(B)], [col(A), col(B), col(C)],
            [col(A), ix(1, A)], [ix(1, A), col(A)], [ix(2, A), col(A)], [col(A), ix(1, B)], [col(A), col(B), ix(1, A, B)], [col(A), col(B), ix(1, B, A)], [col(A), ix(1, A), col(B)],
            [col(A), ix(1, B), col(B)], [col(A), ix(1, A), ix(2, A)], [col(A), ix(2, A), ix(1, A)], [col(A), col(B), ix(2, B, C)], [col(A), col(B), ix(2, B, B)], [ix(1, A), col(A), ix(1, A)],
            [ix(1, B), col(A), col(B)], [col(C), ix(1, C, D), col(D)], [col(A), ix(1, D)]]
    r = []
    for i, d in enumerate(defs):
        for t, ine, ex in ([(A, 0, 0), (B, 1, 1), (BAD, 0, 0), (D, 0, 1), (EMPTY, 1, 0)] if i in (1, 2, 9) else [(A, i % 2, 0)]):
            r.append([t, ine, len(d)] + [x for y in d for x in y] + [ex])
    return r


def create_exec():
    def valid(x):
        it = iter(x[2:])
        cols, idx, n = [], [], next(it)
        for _ in range(n):
            if next(it) == 0:
                cols.append(next(it))
            else:
                idx += [next(it) for _ in range(next(it))]
        return x[0] < 4 and max(cols + [0]) < 4 and len(set(cols)) == len(cols) and set(idx) <= set(cols)
    good = [x for x in creates() if valid(x)]
    return [x + [0] for x in good] + [x + [k] for x in good[:6] + good[-4:] for k in (1, 2, 3)]


unit("c22_create", ["C22", "C23"], "c22_create.c", ["executor_run_create_stmt", "add_column", "add_index", "table_init", "table_add_column", "table_destroy"],
     srcs=["engine/executor_create.c"] + EX, small=60, unwind=18, unwindset={"strncpy.0": 40, "strncpy.1": 40, "memccpy.0": 40, "strcpy.0": 40}, fixes=create_exec(),
     bound="statements of <= 3 definitions, <= 2 columns per key, names from a list; any types, sizes and attributes; allocations failing in turn",
     assumes=["database_table_exists/_add: the catalogue's contract (C10)"])
unit("c20_create", "C20", "c20_create.c", ["semantic_analyse_create_stmt", "table_validate_name", "table_validate_column_name", "hashtable_put", "hashtable_get"],
     srcs=["parser/semantic_create.c", "datastructure/hashtable.c"] + EX, small=60, unwind=18, unwindset={"strncpy.0": 40, "strncpy.1": 40, "memccpy.0": 40, "strcpy.0": 40},
     fixes=[x + [0] for x in creates()] + [x + [k] for x in creates()[:2] + creates()[-3:] for k in (1, 2, 10, 18, 19, 20, 21, 22)],
     bound="statements of <= 3 definitions, <= 2 columns per key, names from a list; allocations failing in turn", assumes=["database_table_exists: the catalogue's contract (C10)"])
unit("c16_tree", "C16", "c16_tree.c", ["optimiser_run_insertvals_stmt", "optimise_math_expr", "resolve_math_expr", "calci", "calcd", "negate", "ast_free"],
     srcs=["parser/ast.c", "datastructure/linkedlist.c"], native_srcs=["@all"], small=60, unwind=12, instrument=["--replace-call-with-contract calci --replace-call-with-contract calcd"], fixes=trees(False), fixes_thorough=trees(True),
     bound="expressions of <= 3 operators of any kind, <= 3 values; any operand values; calci and calcd by their contracts (c16_ops)")


def steps(thorough):
    """c21_step: token kind, trees below its operands, and the token's own counts and choices"""
    def cnt(op, lo=1):
        return [[op, 1, c] for c in ((1, 2, 3, 4, 6) if thorough else (1, 4))] + [[op, 0, 1]] * thorough

    def opt(op):
        return [[op, 1, w, c] for w, c in (((0, 1), (0, 3), (1, 1), (1, 3), (1, 6)) if thorough else ((0, 1), (1, 3)))]

    def one(a, b):
        return [[op, 1] for op in range(a, b)] + [[op, e] for op in range(a, b) for e in (0, 2)] * thorough
    none = [[39, 1, 0, 2], [39, 0, 1, 0], [39, 2, 2, 1]]
    r = {1: one(0, 12) + cnt(12) + cnt(13) + opt(14) + [[5, 0], [15, 0]],
            2: one(0, 12) + cnt(12) + cnt(13) + [[14, 0, 0], [14, 0, 1], [15, 1], [16, 0], [6, 2]],
            3: one(0, 12) + cnt(12) + cnt(13) + opt(14) + [[15, 1], [16, 1], [17, 0], [6, 2]],
            4: one(0, 12) + cnt(12) + cnt(13) + one(14, 31) + cnt(31) + cnt(32) + [[33, 1]] + cnt(34) + [[35, 1]] + cnt(36) + [[37, 0], [6, 2], [29, 0]],
            5: [[0, 1, 0, t] for t in range(7)] + [[0, 1, 1, a, 6] for a in range(4)] + [[0, 0, 2, 1, 3, 0], [0, 1, 3, 0, 1, 2, 6]] + cnt(1) + [[2, 1]] + cnt(3) + cnt(4) + [[5, 0]]}
    return {m: v + none for m, v in r.items()}


prop("C21", explanation="Each token's step of the tree builders is proved for any trees on the stack, any names, values and numbers, and every allocation failing in turn, with the stack, queue and regular "
     "expression replaced by their contracts (child counts bounded where a token carries one); the trees of whole random statements are checked at run time, from their text.")
for _m, _n in enumerate(("insert", "delete", "update", "select", "create"), 1):
    unit(f"c21_{_n}", "C21", "c21_step.c", [f"ast_{_n}_build_tree and the builders of its nodes", "ast_free", "list_add", "list_head_init", "strstarts"],
         srcs=[f"parser/ast_{_n}.c", "parser/ast.c", "datastructure/linkedlist.c", "lib/string.c", "primitive/table.c", "primitive/column.c"], small=60, defs=[f"MOD={_m}"], unwind=16,
         unwindset={"strncpy.0": 300, "same.0": 300, "text.0": 300}, fsize=300, native=False, fixes=steps(False)[_m], fixes_thorough=steps(True)[_m],
         bound="<= 6 children where the token says how many (otherwise none); <= 2 trees below the operands; names up to 2 beyond the room there is",
         assumes=["stack and queue: a sequence (C08)", "regex_ext_match_grp hands out the groups of a well-formed token", "atoi, atoll, atof read the number written"])
unit("c21_tree", "C21", "c21_tree.c", ["syntax_parse", "ast_build_tree", "ast_free", "regex_ext_match_grp"], run=3000, **SQL, bound="run-time check: random statements of every kind, expressions of <= 66 nodes, <= 30 columns, <= 20 rows")
