from regbase import unit, prop, loop
import itertools

DB = ["engine/database.c", "primitive/table.c", "primitive/row.c", "primitive/column.c", "primitive/datablock.c", "datastructure/linkedlist.c", "datastructure/hashtable.c", "lib/bit.c"]
FULLDB = dict()
prop("C10")
DBF = ["database_open", "database_close", "database_table_add", "database_table_get", "database_table_exists", "free_table"]
seqs = [0xffffff, 0xfffff0, 0xffff00, 0xffff10, 0xfff210, 0xff3210, 0x543210, 0x453023, 0x767676, 0xff0767, 0xf45545]
unit("c10_catalogue", "C10", "c10_catalogue.c", DBF + ["hashtable_put", "hashtable_get", "table_init", "table_destroy"], srcs=DB, small=60, unwind=24,
     fixes=[[o, s] for s in seqs for o in (0,)] + [[o, s] for s in (0xfff210, 0xf45545) for o in (1, 2, 3, 4, 5)], bound="the listed sequences of additions over 8 names")
unit("c10_catalogue_full", "C10", "c10_catalogue.c", DBF, kind="run", run=8000, srcs=DB, bound="run-time check: random sequences of additions, full-size names")
unit("c10_modular", "C10", "c10_modular.c", ["database_table_add", "database_table_get", "database_table_exists"], srcs=["engine/database.c"], small=60, unwind=18, native=False, fixes=None,
     stubs=[], remove=[], assumes=["hashtable_get/hashtable_put obey their contract (decided under C06)"], bound="catalogues of <= 3 tables, any names of <= 15 characters; hash table by contract")

prop("C11", level="proof", explanation="Complete: every string of up to 130 characters, at the real limits, fully unwound, and every longer one by a contract for strlen.",
     note="table_validate_name and table_validate_column_name are decided for every string (fully unwound past the 127-character limit); table_init for every name at small limits.")
unit("c11_names", "C11", "c11_names.c", ["table_validate_name", "table_validate_column_name", "__valid_name"], kind="proof", srcs=DB[1:6] + ["lib/bit.c"], unwind=135, fixes=[[0], [1]], bound="none: strings of up to 130 characters (longer ones: c11_long)")
unit("c11_long", "C11", "c11_long.c", ["table_validate_name", "table_validate_column_name", "__valid_name"], kind="proof", srcs=DB[1:6] + ["lib/bit.c"], unwind=135, fixes=[[0], [1]], bound="none: every length from 128 to 2^40, any characters", assumes=["strlen returns the length of the string (contract stub)"])
unit("c11_long_full", "C11", "c11_long.c", ["table_validate_name", "table_validate_column_name"], kind="run", run=2000, srcs=DB[1:6] + ["lib/bit.c"], bound="run-time check: names of 128 to 131072 characters")
unit("c11_names_full", "C11", "c11_names.c", ["table_validate_name", "table_validate_column_name"], kind="run", run=20000, srcs=DB[1:6] + ["lib/bit.c"], bound="run-time check: random near-names")
unit("c11_init", "C11", "c11_init.c", ["table_init", "table_destroy", "datablock_init"], srcs=DB[1:6] + ["lib/bit.c"], small=60, unwind=20, fixes=[[l, o] for l in range(0, 18) for o in ((0,) if l not in (1, 5) else (0, 1, 2, 3))], bound="names of <= 17 characters against a limit of 15")
unit("c11_init_full", "C11", "c11_init.c", ["table_init", "table_destroy"], kind="run", run=8000, srcs=DB[1:6] + ["lib/bit.c"], bound="run-time check: names of <= 129 characters")
