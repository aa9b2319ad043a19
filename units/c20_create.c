/* C20: a CREATE TABLE passes the checks exactly if it is free of the faults listed */
#include "w_crt.h"

void harness(void)
{
	struct database db;
	char err[64];
	struct ast_crt_create_node *s = c_tree();
	bool valid = c_valid();
	vp_oom_at = vp_choice(0, 30);
	bool oom = vp_oom_at > 0;
	vp_oom_n = 0;
	long live0 = vp_live;
	bool ok = semantic_analyse_create_stmt(&db, (struct ast_node*)s, err, sizeof(err));
	vp_oom_at = 0;
	VP_ENSURE(ok || !valid || oom, "create.accept: a statement free of faults is accepted");
	VP_ENSURE(!ok || valid, "create.reject: a statement with a fault is rejected");
	VP_ENSURE(vp_live == live0, "create.check.leak: checking keeps no memory");
	VP_ENSURE(w_adds == 0, "create.check.frame: checking adds nothing");
	VP_COVER("end");
}
