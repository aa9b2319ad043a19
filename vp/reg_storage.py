from regbase import unit, prop
import itertools
STORE = ["primitive/row.c", "primitive/table.c", "primitive/column.c", "primitive/datablock.c",
         "datastructure/linkedlist.c", "lib/bit.c"]

VC, INT, TINY, DBL, DATE, DTM = range(6)


def tcols(types, prec=3):
    """inputs of vp_table(): column count, then type [+ precision] + nothing"""
    r = [len(types)]
    for t in types:
        r += [t] + ([prec] if t == VC else [])
    return r


def layouts(typesets, blocks):
    """inputs of vp_table() followed by those of vp_rows()"""
    return [tcols(ts) + blk for ts in typesets for blk in blocks]


# vp_rows inputs: number of blocks, mask of deleted rows, then the used slots of each block (8: as many as fit)
EMPTY, ONE0, ONE1, FULL1, TWO = [0], [1, 0, 0], [1, 0, 1], [1, 2, 8], [2, 4, 8, 1]
TS1 = [(INT,), (VC,), (TINY,), (VC, INT), (INT, VC), (TINY, VC), (VC, VC), (DATE, TINY), (DBL, DTM)]
WIDE = ["VP_MAXCOLS=%d", "VP_MAXPREC=5", "VP_MAXBLOCKS=3", "VP_MAXROWS=520", "VP_BIGPAGE"]
WIDE = [WIDE[0] % 128] + WIDE[1:]
WB = "run-time check: 4096-byte pages, <= 3 blocks, up to 128 columns"
W12 = [tcols([TINY] * 12), tcols([TINY] * 9)]
FULL = ["VP_MAXCOLS=6", "VP_MAXPREC=12", "VP_MAXBLOCKS=3", "VP_MAXROWS=520", "VP_BIGPAGE"]

prop("C01")
unit("c01_insert", "C01", "c01_insert.c",
     ["table_insert_row", "table_calc_row_size", "table_datablock_init", "datablock_alloc", "table_check_var_column"],
     srcs=STORE, small=60, defs=["VP_MAXCOLS=2", "VP_MAXPREC=3", "VP_MAXROWS=8"], unwind=62,
     bound="page of 60 bytes, <= 2 columns, <= 2 blocks", fixes=layouts(TS1, [EMPTY, ONE0, ONE1, FULL1]))
unit("c01_insert_full", "C01", "c01_insert.c", ["table_insert_row"], kind="run", run=4000, srcs=STORE, defs=FULL,
     bound="run-time check: 4096-byte pages, <= 3 blocks, <= 6 columns")
unit("c01_insert_wide", "C01", "c01_insert.c", ["table_insert_row"], kind="run", run=1500, srcs=STORE, defs=WIDE, bound=WB)

SM = dict(srcs=STORE, small=60, defs=["VP_MAXCOLS=2", "VP_MAXPREC=3", "VP_MAXROWS=8"], unwind=62)
prop("C02")
unit("c02_update", "C02", "c02_update.c", ["table_update_row", "table_delete_row"], **SM,
     bound="page of 60 bytes, <= 2 columns, <= 2 blocks",
     fixes=[tcols(ts) + b + [op] for ts in TS1[:8] for b in ([1, 0, 8, 1], [2, 4, 1, 2, 1]) for op in (0, 1)])
unit("c02_update_full", "C02", "c02_update.c", ["table_update_row", "table_delete_row"], kind="run", run=4000, srcs=STORE,
     defs=FULL, bound="run-time check: 4096-byte pages, <= 3 blocks, <= 6 columns")
unit("c02_update_wide", "C02", "c02_update.c", ["table_update_row", "table_delete_row"], kind="run", run=1500, srcs=STORE, defs=WIDE, bound=WB)

STV = STORE + ["primitive/vacuum.c"]
prop("C03")
V3 = [[0], [1, 0, 0]] + [[1, m, 8] for m in range(8)] + [[2, m, 8, 1] for m in (0, 1, 6, 7, 15, 9)] + [[2, m, 1, 2] for m in (0, 1, 2, 3, 4)]
unit("c03_vacuum", "C03", "c03_vacuum.c", ["table_vacuum", "table_free_row_content", "table_datablock_init", "datablock_free"],
     **{**SM, "srcs": STV, "defs": ["VP_MAXCOLS=2", "VP_MAXPREC=3", "VP_MAXROWS=9"]},
     bound="page of 60 bytes, <= 2 columns, <= 3 blocks", fixes=layouts([(INT,), (VC,)], V3) + layouts([(VC, INT)], V3[3:7] + V3[12:14]))
unit("c03_vacuum_full", "C03", "c03_vacuum.c", ["table_vacuum"], kind="run", run=4000, srcs=STV,
     defs=FULL, bound="run-time check: 4096-byte pages, <= 3 blocks, <= 6 columns")
unit("c03_vacuum_wide", "C03", "c03_vacuum.c", ["table_vacuum"], kind="run", run=1500, srcs=STV, defs=WIDE, bound=WB)

prop("C04")
unit("c04_columns", "C04", "c04_columns.c", ["table_add_column", "table_rem_column", "datablock_add_column", "datablock_rem_column"],
     **{**SM, "defs": ["VP_MAXCOLS=4", "VP_MAXPREC=3", "VP_MAXROWS=8", "VP_BYTE_MEM=1200"], "unwindset": {"memmove.0": 1200, "memmove.1": 1200}},
     bound="page of 60 bytes, <= 3 columns, <= 2 blocks",
     fixes=[l + op for l in layouts([(INT,), (VC, INT), (TINY, VC, DBL)], [[0], [1, 1, 2], [2, 2, 8, 1]])
            for op in ([1, INT, 1, 0], [1, VC, 2, 1, 1], [1, VC, 2, 1, 2], [1, VC, 2, 1, 3], [1, TINY, 0, 0, 0], [0, 0], [0, 1], [0, 2])
            if not (op[0] == 0 and op[1] >= l[0])])
unit("c04_columns_full", "C04", "c04_columns.c", ["table_add_column", "table_rem_column"], kind="run", run=4000, srcs=STORE,
     defs=FULL, bound="run-time check: 4096-byte pages, <= 3 blocks, <= 5 columns")
unit("c04_columns_wide", "C04", "c04_columns.c", ["table_add_column", "table_rem_column"], kind="run", run=1500, srcs=STORE, defs=WIDE, bound=WB)

# schemas wide enough for the NULL marks to span bytes
C12 = dict(small=60, unwind=62)
unit("c01_insert_12", "C01", "c01_insert.c", ["table_insert_row"], srcs=STORE, **C12, defs=["VP_MAXCOLS=12", "VP_MAXPREC=1", "VP_MAXROWS=3"],
     bound="page of 60 bytes, 9 or 12 one-byte columns", fixes=[w + b for w in W12 for b in (ONE1, EMPTY)])
unit("c02_update_12", "C02", "c02_update.c", ["table_update_row", "table_delete_row"], srcs=STORE, **C12, defs=["VP_MAXCOLS=12", "VP_MAXPREC=1", "VP_MAXROWS=3"],
     bound="page of 60 bytes, 9 or 12 one-byte columns", fixes=[w + [1, 0, 2, 1] + [o] for w in W12 for o in (0, 1)])
unit("c04_columns_12", "C04", "c04_columns.c", ["table_add_column", "table_rem_column"], srcs=STORE, small=60, unwind=62, unwindset={"memmove.0": 1200, "memmove.1": 1200},
     defs=["VP_MAXCOLS=12", "VP_MAXPREC=1", "VP_MAXROWS=3", "VP_BYTE_MEM=1200"],
     bound="page of 60 bytes, 9 or 11 one-byte columns", fixes=[tcols([TINY] * n) + [1, 1, 2] + op for n in (9, 11) for op in ([0, 0], [0, 7], [0, 8], [1, TINY, 1, 0])])
