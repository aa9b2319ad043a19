from regbase import unit, prop, loop
import itertools

prop("C05", level="proof", explanation="Complete: loop-free or fully unwound code at the real constants, for every input.",
     note="Every obligation is discharged by CBMC at the real constants (128 columns, 16/32-byte bitmaps) with complete unwinding, so for all inputs; trusts CBMC and its floorl model.")
unit("c05_bits", "C05", "c05_bits.c", ["bit_test", "bit_set", "bit_clear", "bit_toggle"], kind="proof", srcs=["lib/bit.c"], unwind=40,
     bound="none: every 256-bit field, every bit number")
LAY = ["primitive/row.c", "primitive/column.c", "primitive/table.c", "primitive/datablock.c", "datastructure/linkedlist.c", "lib/bit.c"]
LAYF = ["table_calc_row_size", "table_calc_row_data_size", "table_calc_column_space", "table_check_var_column", "table_calc_column_precision"]
unit("c05_layout", "C05", "c05_layout.c", LAYF, srcs=LAY, small=60, unwind=18, fixes=[[0], [1], [2], [3]], bound="schemas of <= 3 columns")
unit("c05_layout_full", "C05", "c05_layout.c", LAYF, kind="run", run=20000, srcs=LAY, bound="run-time check: schemas of <= 128 columns")
unit("p05_size", "C05", "p05_size.c", ["table_calc_row_data_size"], kind="proof", soft=True, dfcc=True, native=False, srcs=["primitive/row.c"],
     enforce="table_calc_row_data_size", replace=["table_calc_column_space"], unwind=130,
     loops=[loop("primitive/row.c", "table_calc_row_data_size", 0, "0 <= i && i <= table->column_count && size == vp_prefix[i]",
                 "i, size", "table->column_count - i", "i size table", "vp_prefix")],
     bound="none: every schema of up to 128 columns, by loop invariant")

HASH = ["datastructure/hashtable.c", "datastructure/linkedlist.c"]
prop("C06")
fx = []
for cap, mask, hp in [(4, 0, 0b11100100), (4, 1, 0b11100100), (1, 0b0111, 0b11100100), (4, 0b0111, 0b00000000), (4, 0b1110, 0b01010101), (2, 0b1111, 0b11100100), (3, 0b0101, 0b10011001), (4, 0b1010, 0b11011101)]:
    for key in (0, 1, 3):
        fx += [[cap, mask, hp, key, 0, oom] for oom in (0, 1, 2, 3, 4, 6)] + [[cap, mask, hp, key, 1]]
unit("c06_hash", "C06", "c06_hash.c", ["hashtable_put", "hashtable_get", "hashtable_remove", "hashtable_foreach", "hashtable_resize", "hashtable_free_entry"],
     srcs=HASH, unwind=12, bound="tables of capacity <= 4 with <= 4 keys in the bucket patterns listed; one operation from any such state", fixes=fx)
unit("c06_hash_hist", "C06", "c06_hash_hist.c", ["hashtable_put", "hashtable_get", "hashtable_remove", "hashtable_foreach", "hashtable_init", "hashtable_free", "hashtable_str_hash", "hashtable_str_compare"],
     kind="run", run=3000, srcs=HASH, bound="run-time check: histories of <= 400 operations over <= 96 string keys")

prop("C07")
BTF = ["btree_init", "btree_insert", "btree_remove", "btree_lookup", "btree_update", "btree_destroy", "btree_search", "btree_split_child", "btree_split_root", "btree_insert_nonfull",
       "btree_node_remove", "btree_node_fill", "btree_node_merge", "btree_node_copy", "btree_node_borrow_from_prev_child", "btree_node_borrow_from_next_child",
       "btree_node_remove_from_leaf", "btree_node_remove_from_inter_node", "btree_node_get_predecessor", "btree_node_get_successor", "btree_cmp_ul"]


def btcases(thorough=False):
    out = []
    # (T, root keys, child counts, keys per grandchild)
    shapes = [(2, 0, (), 0), (2, 1, (), 0), (2, 2, (), 0), (2, 3, (), 0), (3, 5, (), 0), (3, 1, (), 0)]
    two = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    shapes += [(2, 1, c, 0) for c in two]
    shapes += [(2, 2, c, 0) for c in itertools.product((1, 2, 3) if thorough else (1, 3), repeat=3)]
    shapes += [(2, 3, c, 0) for c in [(1, 1, 1, 1), (3, 3, 3, 3), (1, 2, 1, 3), (3, 1, 2, 1), (2, 1, 1, 2)] + (list(itertools.product((1, 2, 3), repeat=4)) if thorough else [])]
    shapes += [(3, 1, c, 0) for c in ((2, 2), (2, 3), (3, 2), (5, 5), (2, 5), (5, 2))] + [(3, 5, (2, 5, 2, 3, 2, 2), 0), (3, 2, (5, 2, 4), 0)]
    shapes += [(2, 1, (1, 1), 1), (2, 1, (1, 2), 1), (2, 1, (2, 1), 1), (2, 1, (3, 3), 3), (2, 1, (1, 3), 2), (2, 2, (1, 1, 1), 1), (2, 3, (3, 3, 3, 3), 1), (2, 1, (1, 1), 3), (2, 1, (3, 1), 2)]
    for t, nr, c, g in shapes:
        cc = sum(x << (3 * i) for i, x in enumerate(c))
        n = nr + sum(c) + (sum(x + 1 for x in c) * g)
        if n > 39: continue
        def sl(w):
            return [(lo, min(lo + w - 1, 2 * n + 1)) for lo in range(1, 2 * n + 2, w)]
        w = 12 if n <= 12 else 4
        for i, (lo, hi) in enumerate(sl(w)):
            for op in range(4):
                if not thorough and (op < 2 and (n > 5 or nr > 1) or n > 5 and (nr + sum(c) + g + op + i) % 3): continue
                for s in (0, 1, 2) if thorough else ((1, 2) if n < 4 else (1 + (i + op) % 2,)):
                    if op == 1 and not thorough and s == 2: continue
                    out.append([t, nr, cc, op, s, 0, g, n, lo, hi])
            if i == 0 and n < 5 or thorough:
                out += [[t, nr, cc, 2, 0, o, g, n, lo, min(lo + 3, hi)] for o in (1, 4)]
    return out


unit("c07_btree", "C07", "c07_btree.c", BTF, srcs=[], unwind=45, objbits=12, fixes=btcases(), fixes_thorough=btcases(True), bound="trees of the listed shapes (minimum degree 2 or 3, depth <= 3, <= 39 keys), one operation at every key position, stale content in unused slots")
unit("c07_hist", "C07", "c07_hist.c", BTF, kind="run", run=3000, srcs=[], bound="run-time check: histories of <= 500 operations over <= 200 keys, minimum degree 2 to 6")

prop("C08", level="proof", explanation="Complete: contracts of the vector, stack and queue operations over content of any length (symbolic lengths up to 2^32 bytes, one arbitrary position observed), without unrolling.",
     note="Vector, stack and queue operations are decided for every content and every length up to 2^32 bytes/2^20 elements (no loop to unroll; the contract observes one arbitrary position). List insertion and removal are decided by their frame (only the neighbours change, for any list), list_length on rings of <= 7 nodes.")
DSS = ["datastructure/stack.c", "datastructure/queue.c", "datastructure/vector.c", "datastructure/linkedlist.c"]
unit("c08_vector", "C08", "c08_vector.c", ["vector_init", "vector_push", "vector_clear", "vector_free"], kind="proof", srcs=["datastructure/vector.c"], unwind=3, fixes=[[0], [1], [2]], bound="none: any content, lengths up to 2^32")
unit("c08_stack", "C08", "c08_stack.c", ["stack_push", "stack_unsafe_push", "stack_pop", "stack_peek", "stack_peek_pos", "stack_empty", "queue_offer", "queue_poll", "queue_peek", "queue_peek_pos", "queue_length", "queue_empty", "vector_push"],
     kind="proof", srcs=DSS, unwind=3, fixes=[[i] for i in range(10)], bound="none: any number of elements up to 2^20, any content", assumes=["memmove copies the observed element (C library contract, instantiated at one arbitrary position)"])
unit("c08_list", "C08", "c08_list.c", ["list_add", "list_del", "list_length", "list_head_init"], srcs=DSS, unwind=9, fixes=[[n, a, o] for n in (1, 2, 3, 4, 7) for a in range(n) for o in ((0, 1) if a else (0,))], bound="rings of <= 7 nodes")
unit("c08_hist", "C08", "c08_hist.c", ["stack_init", "stack_free", "queue_init", "queue_free", "stack_push", "stack_pop", "queue_offer", "queue_poll", "vector_push", "vector_clear"], kind="run", run=4000, srcs=DSS, bound="run-time check: histories of <= 400 operations")
unit("c08_listlocal", "C08", "c08_listlocal.c", ["list_add", "list_del"], kind="proof", srcs=["datastructure/linkedlist.c"], unwind=8, fixes=[[0], [1]], bound="none: any list, by frame (the change is local)")
