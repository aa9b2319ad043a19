/* C20: an INSERT passes the checks exactly if it is free of the faults listed */
#include "w_ins.h"
#include <parser/semantic.h>

void harness(void)
{
	w_table = vp_table(1, VP_MAXCOLS);
	struct ast_ins_insvals_node *s = i_stmt(I_KINDS);
	struct database db;
	char err[64];
	long live0 = vp_live;
	bool valid = i_valid();
	bool ok = semantic_analyse_insert_stmt(&db, (struct ast_node*)s, err, sizeof(err));
	VP_ENSURE(ok || !valid, "insert.accept: a statement free of faults is accepted");
	VP_ENSURE(!ok || valid, "insert.reject: a statement with a fault is rejected");
	VP_ENSURE(vp_live == live0, "insert.check.leak: checking keeps no memory");
	VP_ENSURE(w_table->datablock_head->next == w_table->datablock_head, "insert.check.frame: checking stores nothing");
	VP_COVER("end");
}
