From 803acf129fe7203395d8970630bec262fc9bf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 01/38] hooks: simulation points behind -DVOSS_SIM (off by
 default)

---
 src/bin/fl/fl.h                             |  3 +-
 src/bin/fl/fsm.c                            |  1 +
 src/bin/fl/graph.c                          |  2 ++
 src/bin/fl/new_bdd.c                        |  5 +++
 src/external/minisat/minisat/core/Solver.cc |  7 ++++
 src/include/voss_sim.h                      | 40 +++++++++++++++++++++
 6 files changed, 57 insertions(+), 1 deletion(-)
 create mode 100644 src/include/voss_sim.h

diff --git a/src/bin/fl/fl.h b/src/bin/fl/fl.h
index 82eacc3..c23cba0 100644
--- a/src/bin/fl/fl.h
+++ b/src/bin/fl/fl.h
@@ -90,6 +90,7 @@
 #include "readrc.h"
 #include "timer.h"
 #include "uniq_buf.h"
+#include "voss_sim.h"
 
 #define IGNORE_RETURN(f)    ((void) (f));
 
@@ -113,7 +114,7 @@
 #endif
 
 
-#define CHECK_FOR_INTERRUPT if( Interrupt_asap ) Serve_Interrupt();
+#define CHECK_FOR_INTERRUPT (void) SIM_POINT(SIM_INTERRUPT); if( Interrupt_asap ) Serve_Interrupt();
 #define VOID	void
 #define public	/* nothing */
 
diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..78f00d1 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -8721,6 +8721,7 @@ gSTE(g_ptr redex, value_type type)
     }
     for(int t = min_time; t <= max_time; t++) {
 	ste->cur_time = t;
+	(void) SIM_POINT(SIM_STE_STEP);
 	if( t > abort_time || quit_simulation_early ) {
 	    if( gui_mode ) {
 		Sprintf(buf, "simulation_end");
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..aebf6bc 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -2356,6 +2356,8 @@ g_ptr
 Get_node()
 {
     g_ptr ret;
+    if( SIM_POINT(SIM_FL_ALLOC) )
+	do_gc_asap = 1;
     if( free_list != NULL ) {
 	ret = free_list;
 	free_list = (g_ptr) GET_RIGHT(ret);
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..7ec1b10 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -2519,6 +2519,8 @@ find_insert_bdd(var_ptr vp, formula lson, formula rson)
     (vp->nbr_uniq_tbl)++;
     if( nodes_used > gc_limit )
 	Do_gc_asap = 1;
+    if( SIM_POINT(SIM_BDD_ALLOC) )
+	Do_gc_asap = 1;
     if( LOAD_FACTOR * vp->sz_uniq_tbl < vp->nbr_uniq_tbl )
 	grow_uniq_tbl(vp);
     return( neg? NOT(ret): ret );
@@ -2769,6 +2771,8 @@ garbage_collect()
 	FP(bdd_gc_fp, "Start with: %d bdd nodes in use\n", nodes_used);
     }
     before = nodes_used;
+    if( SIM_POINT(SIM_REORDER) && RCdo_dynamic_var_order )
+	insist_on_reorder = TRUE;
 
     /* For each variable uniq table */
     for(i = 0; i < nbr_VarTbl; i++) {
@@ -3276,6 +3280,7 @@ static void
 do_swap_down(buffer *rev_tablep, unint pos)
 {
     /* Swap the current+next-state variables together */
+    (void) SIM_POINT(SIM_SWAP);
     swap_down(rev_tablep, pos+1);
     swap_down(rev_tablep, pos+2);
     swap_down(rev_tablep, pos);
diff --git a/src/external/minisat/minisat/core/Solver.cc b/src/external/minisat/minisat/core/Solver.cc
index 6175cb4..8d2c943 100644
--- a/src/external/minisat/minisat/core/Solver.cc
+++ b/src/external/minisat/minisat/core/Solver.cc
@@ -25,6 +25,12 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include "minisat/utils/System.h"
 #include "minisat/core/Solver.h"
 
+#ifdef VOSS_SIM
+#include "voss_sim.h"
+#else
+#define SIM_POINT(site) 0
+#endif
+
 using namespace Minisat;
 
 //=================================================================================================
@@ -708,6 +714,7 @@ lbool Solver::search(int nof_conflicts)
     starts++;
 
     for (;;){
+        (void) SIM_POINT(SIM_SAT);
         CRef confl = propagate();
         if (confl != CRef_Undef){
             // CONFLICT
diff --git a/src/include/voss_sim.h b/src/include/voss_sim.h
new file mode 100644
index 0000000..1ead76d
--- /dev/null
+++ b/src/include/voss_sim.h
@@ -0,0 +1,40 @@
+//-------------------------------------------------------------------
+// Copyright 2020 Carl-Johan Seger
+// SPDX-License-Identifier: Apache-2.0
+//-------------------------------------------------------------------
+
+#ifndef _VOSS_SIM_H
+#define _VOSS_SIM_H
+
+/* Hooks for deterministic simulation. A simulator (which lives outside	*/
+/* this repository) supplies voss_sim_point and decides at each hook	*/
+/* whether something unusual but legal happens there (the hook returns	*/
+/* non-zero or delivers a signal). Without -DVOSS_SIM every hook is 0.	*/
+
+#ifdef VOSS_SIM
+
+typedef enum {
+    SIM_FL_ALLOC,	/* Graph node allocated: early garbage collection?  */
+    SIM_BDD_ALLOC,	/* BDD node allocated: early garbage collection?    */
+    SIM_INTERRUPT,	/* Interrupt check: deliver a SIGINT here?	    */
+    SIM_REORDER,	/* BDD garbage collection: reorder variables?	    */
+    SIM_SWAP,		/* Adjacent variables swapped during reordering	    */
+    SIM_STE_STEP,	/* One step of symbolic simulation		    */
+    SIM_SAT		/* One conflict/decision round in the SAT solver    */
+} voss_sim_site;
+
+#ifdef __cplusplus
+extern "C"
+#else
+extern
+#endif
+int voss_sim_point(int site);
+#define SIM_POINT(site)		voss_sim_point(site)
+
+#else
+
+#define SIM_POINT(site)		0
+
+#endif /* VOSS_SIM */
+
+#endif /* _VOSS_SIM_H */
-- 
2.43.0


From 814546c1fce3adadaf5841058a67d8d19e8b7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 02/38] fix: relprod_forall/relprod_thereis passed a boolean as
 quantification type

The base cases called quantify with TRUE/FALSE instead of
EXISTENTIAL/UNIVERSAL. The universal product was computed as an
existential one, and the existential quantification was recorded in the
operation cache as if it had been a conjunction, so that a later AND of
the same operands returned a wrong function.
---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 7ec1b10..4b1fc28 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL: UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL: UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From d2ee5a29a4d8a2925e74817603722fe90def147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 03/38] fix: garbage collection in the middle of a lettype lost
 its constructors

Compile() collects when due, but the constructors compiled so far for the
same type declaration are not in the symbol table yet: their records were
cleared, and the declaration then crashed. Leave the collection to the next
safe point.
---
 src/bin/fl/graph.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index aebf6bc..f5250e6 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1357,9 +1357,10 @@ Compile(symbol_tbl_ptr stbl, g_ptr onode, typeExp_ptr type, bool delayed,
     check_ref_cnts(node);
 #endif
     SET_REFCNT(node,MAX_REF_CNT);	/* Make sure it never gets freed */
-    /* Do GC if needed */
+    /* Do GC if needed (stbl is NULL when the definition is part of a not yet */
+    /* completed type declaration, whose functions GC cannot find)	      */
     root_node = node;
-    if( do_gc_asap ) {
+    if( do_gc_asap && stbl != NULL ) {
 	Garbage_collect();
     }
     rp->expr = node;
-- 
2.43.0


From 2e6ea027f2a512a4ae211e88aed13e20a2a0efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 04/38] fix: garbage collection in the middle of a top-level
 val lost its pattern

---
 src/bin/fl/language.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/language.y b/src/bin/fl/language.y
index 54342c2..6472310 100644
--- a/src/bin/fl/language.y
+++ b/src/bin/fl/language.y
@@ -457,6 +457,8 @@ stmt		: expr
                 | VAL arg_expr EQUAL expr
                 {
                     result_ptr res;
+		    // Compile may garbage collect; the pattern is used later
+		    PUSH_GLOBAL_GC($2);
                     res = Compile(symb_tbl, $4, NULL, TRUE, FALSE);
 		    if( res != NULL ) {
 			symb_tbl = New_fn_def(it, res, symb_tbl, FALSE,
@@ -476,6 +478,7 @@ stmt		: expr
 			}
 			free_buf(&var_buf);
 		    }
+		    POP_GLOBAL_GC(1);
                 }
 		| ADD_OPEN_OVERLOAD var_or_infix overload_list
 		{
-- 
2.43.0


From 114d34091d8f4f9c89ae89ce8f1dc1e8ff0666ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 05/38] fix: garbage collection in the middle of base_bexpr2bdd
 crashed

---
 src/bin/fl/bexpr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..d174782 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -560,7 +560,9 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
-    MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    // May garbage collect, so redex must stay intact until it is done
+    formula res = be2bdd(GET_BEXPR(bf));
+    MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
-- 
2.43.0


From c97237f7a23670365bfad0cccadbdbc01aa9c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 06/38] fix: base_bexpr2bdd ignored the substitution for
 already converted subexpressions

---
 src/bin/fl/bexpr.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index d174782..86a34d8 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -544,6 +544,15 @@ bXNOR(g_ptr redex)
     DEC_REF_CNT(r);
 }
 
+static void
+clear_bdds()
+{
+    bexpr bp;
+    FOR_REC(&bexpr_rec_mgr, bexpr, bp) {
+	bp->has_bdd = 0;
+    }
+}
+
 static void
 bexpr2bdd(g_ptr redex)
 {
@@ -560,8 +569,12 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
+    // The BDDs remembered in the bexprs are for the variables themselves
+    bool has_sub = !IS_NIL(GET_APPLY_RIGHT(l));
+    if( has_sub ) clear_bdds();
     // May garbage collect, so redex must stay intact until it is done
     formula res = be2bdd(GET_BEXPR(bf));
+    if( has_sub ) clear_bdds();
     MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
-- 
2.43.0


From 145fe1b564eccc5be249c5849749c75afe9b1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 07/38] hooks: simulation point at the start of a garbage
 collection

---
 src/bin/fl/graph.c     | 1 +
 src/include/voss_sim.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index f5250e6..355aab5 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1596,6 +1596,7 @@ Do_garbage_collect()
 #endif
 
     if( Disable_GC ) return;
+    (void) SIM_POINT(SIM_GC);
     if( RCverbose_GC )
 	FP(fl_gc_fp, "Start garbage collection.");
 
diff --git a/src/include/voss_sim.h b/src/include/voss_sim.h
index 1ead76d..65449c9 100644
--- a/src/include/voss_sim.h
+++ b/src/include/voss_sim.h
@@ -20,6 +20,7 @@ typedef enum {
     SIM_REORDER,	/* BDD garbage collection: reorder variables?	    */
     SIM_SWAP,		/* Adjacent variables swapped during reordering	    */
     SIM_STE_STEP,	/* One step of symbolic simulation		    */
+    SIM_GC,		/* A garbage collection starts			    */
     SIM_SAT		/* One conflict/decision round in the SAT solver    */
 } voss_sim_site;
 
-- 
2.43.0


From 1dc8709faeb3eb8de075fcff0a589e7d38ce22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:00 +0000
Subject: [PATCH 08/38] fix: an aborted evaluation of an if-then-else left a
 broken node behind

---
 src/bin/fl/graph.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 355aab5..2aa3204 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -48,6 +48,7 @@ formula		        Abort_Value;
 bool		        landscape;
 bool		        return_trace_flag;
 g_ptr		        void_nd;
+static g_ptr		id_nd;
 hash_record		Constructor_Table;
 hash_record		TypeSignatureTbl;
 comment_list_ptr	cur_doc_comments = NULL;
@@ -508,6 +509,8 @@ G_Init()
     sp = &(stack[STACK_SIZE-1]);
     void_nd = Make_0inp_Primitive(P_VOID);
     SET_REFCNT(void_nd,MAX_REF_CNT);
+    id_nd = Make_0inp_Primitive(P_I);
+    SET_REFCNT(id_nd,MAX_REF_CNT);
 #ifdef DEBUG
     pr_depth = 5;
 #endif
@@ -990,6 +993,7 @@ Reset_eval_context()
     root_node = void_nd;
     start_envp = NULL;
     Call_level = 0;
+    cur_eval_cond = B_One();
     resize_buf(&fn_trace_buf, 0);
     if( profiling_active ) {
 	while( COUNT_BUF(&profiling_buf) > 0 ) {
@@ -1609,6 +1613,8 @@ Do_garbage_collect()
     /* Mark all visible */
     Mark(void_nd);
     SET_REFCNT(void_nd, MAX_REF_CNT);
+    Mark(id_nd);
+    SET_REFCNT(id_nd, MAX_REF_CNT);
     B_Mark(cur_eval_cond);
     Mark(root_node);
     result_ptr	rp = top_result_rec_ptr;
@@ -4215,8 +4221,9 @@ traverse_left(g_ptr oroot)
 			if( B_And(res, GET_BOOL(arg1)) == B_Zero() ) {
 			    // Effectively an F condition
 			    cur_eval_cond = B_And(res, B_Not(GET_BOOL(arg1)));
-			    /* Overwrite to remove access to arg2 for g.c. */
-			    SET_APPLY_LEFT(redex, void_nd);
+			    /* Make it (I arg3) to remove access to arg2 for */
+			    /* g.c. (the evaluation of arg3 may be aborted)  */
+			    SET_APPLY_LEFT(redex, id_nd);
 			    /* Allow gc to remove this entry */
 			    DEC_REF_CNT(*(sp+1));
 			    *(sp+1) = void_nd;
@@ -4271,8 +4278,9 @@ traverse_left(g_ptr oroot)
 			OVERWRITE(redex, arg2);
 			goto finish3;
 		    } else {
-			/* Overwrite to remove access to arg2 for g.c. */
-			SET_APPLY_LEFT(redex, void_nd);
+			/* Make it (I arg3) to remove access to arg2 for */
+			/* g.c. (the evaluation of arg3 may be aborted)  */
+			SET_APPLY_LEFT(redex, id_nd);
 			/* Allow gc to remove this entry */
 			DEC_REF_CNT(*(sp+1));
 			*(sp+1) = void_nd;
-- 
2.43.0


From 707173c5e3d5e7238151362578ac3e8b26fed6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:34 +0000
Subject: [PATCH 09/38] fix: an aborted force left structures marked as
 completely evaluated

---
 src/bin/fl/graph.c | 30 ++++++++++++++++++++++++++++++
 src/bin/fl/graph.h |  1 +
 2 files changed, 31 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 2aa3204..edbfcf4 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -96,6 +96,7 @@ static int		gc_threshold = 250000;
 static int		find_new_var_cnt = 1;
 static int		uniq_quant_cnt = 1;
 static buffer		fn_trace_buf;
+static buffer		forced_buf;	/* Conses marked by unfinished force calls */
 static rec_mgr		g_rec_mgr;
 static rec_mgr		result_rec_mgr;
 static result_ptr	top_result_rec_ptr = NULL;
@@ -496,6 +497,7 @@ G_Init()
     new_buf(&ext_fun_buf, 100, sizeof(ext_fun_rec));
     new_buf(&ext_obj_buf, 100, sizeof(ext_obj_rec));
     new_buf(&fn_trace_buf, 1000, sizeof(string));
+    new_buf(&forced_buf, 1000, sizeof(g_ptr));
     new_buf(&global_gc_buf, 100, sizeof(g_ptr));
     do_gc_asap = FALSE;
     space_const = wastrsave(stringsp, " ");
@@ -951,6 +953,26 @@ Remove_Pattern_Matching(g_ptr lhs, g_ptr rhs, string *name, int *cnt)
     return( pat_match_rec(lhs, rhs, 1, name, cnt) );
 }
 
+/* Forget, without unmarking, the conses marked since COUNT was size */
+static void
+truncate_forced(unint size)
+{
+    if( COUNT_BUF(&forced_buf) > size )
+	resize_buf(&forced_buf, size);
+}
+
+/* The force calls since COUNT was size did not finish. What they have marked */
+/* may have components that are not forced.				      */
+static void
+undo_forced(unint size)
+{
+    while( COUNT_BUF(&forced_buf) > size ) {
+	g_ptr nd;
+	pop_buf(&forced_buf, &nd);
+	MAKE_UNFORCED(nd);
+    }
+}
+
 void
 Record_eval_context(eval_ctx_ptr ctx)
 {
@@ -960,6 +982,7 @@ Record_eval_context(eval_ctx_ptr ctx)
     ctx->old_call_level = Call_level;
     ctx->old_fn_trace_buf_size = COUNT_BUF(&fn_trace_buf);
     ctx->cur_eval_cond = cur_eval_cond;
+    ctx->old_forced_buf_size = COUNT_BUF(&forced_buf);
 }
 
 void
@@ -984,6 +1007,7 @@ Restore_eval_context(eval_ctx_ptr ctx)
 	}
     }
     cur_eval_cond = ctx->cur_eval_cond;
+    undo_forced(ctx->old_forced_buf_size);
 }
 
 void
@@ -994,6 +1018,7 @@ Reset_eval_context()
     start_envp = NULL;
     Call_level = 0;
     cur_eval_cond = B_One();
+    undo_forced(0);
     resize_buf(&fn_trace_buf, 0);
     if( profiling_active ) {
 	while( COUNT_BUF(&profiling_buf) > 0 ) {
@@ -5083,6 +5108,8 @@ force(g_ptr node, bool first)
     if( IS_FORCED(node) ) {
 	return( node );
     }
+    // A cons is marked before its components are forced (it may be cyclic)
+    unint start_marked = COUNT_BUF(&forced_buf);
     new_buf(&todo_buf, 100, sizeof(g_ptr));
     push_buf(&todo_buf, &node);
     while( COUNT_BUF(&todo_buf) != 0 ) {
@@ -5091,6 +5118,7 @@ force(g_ptr node, bool first)
 	if( !IS_FORCED(cur) ) {
 	    cur = reduce(cur, first);
 	    if( is_fail(cur) ) {
+		undo_forced(start_marked);
 		OVERWRITE(node, cur);
 		free_buf(&todo_buf);
 		return node;
@@ -5098,6 +5126,7 @@ force(g_ptr node, bool first)
 	    MAKE_FORCED(cur);
 	    if( GET_TYPE(cur) == CONS_ND ) {
 		if( !IS_NIL(cur) ) {
+		    push_buf(&forced_buf, &cur);
 		    g_ptr t = GET_CONS_TL(cur);
 		    push_buf(&todo_buf, &t);
 		    g_ptr h = GET_CONS_HD(cur);
@@ -5107,6 +5136,7 @@ force(g_ptr node, bool first)
 	}
     }
     free_buf(&todo_buf);
+    truncate_forced(start_marked);
     return( node );
 }
 #else
diff --git a/src/bin/fl/graph.h b/src/bin/fl/graph.h
index 3f42bb7..428dc27 100644
--- a/src/bin/fl/graph.h
+++ b/src/bin/fl/graph.h
@@ -29,6 +29,7 @@ typedef struct eval_ctx_rec {
     int		old_call_level;
     int		old_fn_trace_buf_size;
     formula	cur_eval_cond;
+    unint	old_forced_buf_size;
 } eval_ctx_rec;
 typedef struct gmap_info_rec	*gmap_info_ptr;
 typedef struct io_rec		*io_ptr;
-- 
2.43.0


From a9924d185c59d975a55d7c1b42ec198fee52cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 10/38] fix: an interrupt while computing a boolean left a
 half-written node

---
 src/bin/fl/graph.c | 12 ++++++------
 src/bin/fl/graph.h |  8 ++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index edbfcf4..4b5f900 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4334,15 +4334,15 @@ traverse_left(g_ptr oroot)
 		    arg1  = traverse_left(GET_APPLY_RIGHT(*sp));
                     if( is_fail(arg1) )
                         goto arg1_fail1;
+		    // Creating a variable may be interrupted
 		    if( pfn == P_RVAR ) {
-			SET_TYPE(redex, LEAF);
-			SET_LEAF_TYPE(redex, BOOL);
-			SET_BOOL(redex, Rand_Var(GET_STRING(arg1)));
+			res = Rand_Var(GET_STRING(arg1));
 		    } else {
-			SET_TYPE(redex, LEAF);
-			SET_LEAF_TYPE(redex, BOOL);
-			SET_BOOL(redex, B_Var(GET_STRING(arg1)));
+			res = B_Var(GET_STRING(arg1));
 		    }
+		    SET_TYPE(redex, LEAF);
+		    SET_LEAF_TYPE(redex, BOOL);
+		    SET_BOOL(redex, res);
 		    goto finish1;
 
 		case P_CAT:
diff --git a/src/bin/fl/graph.h b/src/bin/fl/graph.h
index 428dc27..152a80b 100644
--- a/src/bin/fl/graph.h
+++ b/src/bin/fl/graph.h
@@ -578,16 +578,20 @@ typedef struct g_rec {
 #define MAKE_REDEX_VOID(redex)	    { OVERWRITE(redex, void_nd); }
 
 #define MAKE_REDEX_BOOL(redex,b)    {					    \
+	/* The value first: computing it may be interrupted */	    \
+					formula mk_redex_val = (b);	    \
 					SET_TYPE(redex,LEAF);		    \
 					SET_LEAF_TYPE(redex,BOOL);	    \
-					SET_BOOL(redex,(b));		    \
+					SET_BOOL(redex,mk_redex_val);	    \
 					MAKE_FORCED(redex);		    \
 				    }
 
 #define MAKE_REDEX_BEXPR(redex,b)   {					    \
+	/* The value first: computing it may be interrupted */	    \
+					bexpr mk_redex_val = (b);	    \
 					SET_TYPE(redex,LEAF);		    \
 					SET_LEAF_TYPE(redex,BEXPR);	    \
-					SET_BEXPR(redex,(b));		    \
+					SET_BEXPR(redex,mk_redex_val);	    \
 					MAKE_FORCED(redex);		    \
 				    }
 
-- 
2.43.0


From 21aa8273096712e3dbae04f3b744edc514e9beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 11/38] fix: an interrupt while creating a variable or
 reordering corrupted the BDD tables

---
 src/bin/fl/new_bdd.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 4b1fc28..99aed52 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -103,6 +103,7 @@ static rec_mgr		cache_rec_mgr;
 static hash_record	cache_tbl;
 static rec_mgr		subst_cache_rec_mgr;
 static bool		subst_cache_rec_mgr_in_use = FALSE;
+static bool		defer_interrupts = FALSE;	/* Tables being changed */
 static hash_record	subs_tbl;
 static hash_record	bdd_size_tbl;
 static hash_record	bdd_save_tbl;
@@ -257,6 +258,9 @@ B_Var(string name)
 	BDD_RETURN(ret);
     }
     int len = strlen(name);
+    /* A variable and its next-state version are always created together */
+    bool o_defer_interrupts = defer_interrupts;
+    defer_interrupts = TRUE;
     if( len >= 2 && *(name+len-2) == '_' && *(name+len-1) == 'n' ) {
 	/* Make sure base name has been declared */
 	string b_name = strtemp(name);
@@ -265,7 +269,6 @@ B_Var(string name)
 	prim_B_Var(b_name);
 	name = wastrsave(stringsp, name);
 	ret = prim_B_Var(name);
-	return( ret );
     } else {
 	/* Declare both basename and next-state name */
 	name = wastrsave(stringsp, name);
@@ -274,8 +277,9 @@ B_Var(string name)
 	n_name = strappend("_n");
 	n_name = wastrsave(stringsp, n_name);
 	prim_B_Var(n_name);
-	return ret;
     }
+    defer_interrupts = o_defer_interrupts;
+    return ret;
 }
 
 /* B_Var -- Return Boolean formula for variable name */
@@ -2471,7 +2475,9 @@ find_insert_bdd(var_ptr vp, formula lson, formula rson)
     ASSERT( GET_BDDP(lson)->in_use );
     ASSERT( GET_BDDP(rson)->in_use );
 #endif
-    CHECK_FOR_INTERRUPT;
+    if( !defer_interrupts ) {
+	CHECK_FOR_INTERRUPT;
+    }
     if( lson == rson ) {
 	return(lson);
     }
@@ -2766,6 +2772,9 @@ garbage_collect()
     void	(*old_handler)();
 
     old_handler = signal(SIGINT, SIG_IGN);
+    /* An interrupt that came just before must wait too */
+    bool o_defer_interrupts = defer_interrupts;
+    defer_interrupts = TRUE;
     if( RCverbose_GC ) {
 	FP(bdd_gc_fp, "\nStart bdd garbage collection.\n");
 	FP(bdd_gc_fp, "Start with: %d bdd nodes in use\n", nodes_used);
@@ -2865,6 +2874,7 @@ garbage_collect()
 	FP(bdd_gc_fp, "Finished bdd garbage collection.\n");
 	FP(bdd_gc_fp, "Currently: %d bdd nodes in use\n", nodes_used);
     }
+    defer_interrupts = o_defer_interrupts;
     signal(SIGINT, old_handler);
 }
 
-- 
2.43.0


From 68db1e6482f3d5b9821587e8f1c8cb804f905805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 12/38] fix: an abandoned substitution was still marked by
 later BDD collections

---
 src/bin/fl/graph.c   |  5 +++++
 src/bin/fl/graph.h   |  1 +
 src/bin/fl/new_bdd.c | 31 ++++++++++++++++++++++++++-----
 src/bin/fl/new_bdd.h |  2 ++
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 4b5f900..4b2b1c1 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -983,6 +983,7 @@ Record_eval_context(eval_ctx_ptr ctx)
     ctx->old_fn_trace_buf_size = COUNT_BUF(&fn_trace_buf);
     ctx->cur_eval_cond = cur_eval_cond;
     ctx->old_forced_buf_size = COUNT_BUF(&forced_buf);
+    ctx->substitution_underway = B_Substitution_underway();
 }
 
 void
@@ -1008,6 +1009,9 @@ Restore_eval_context(eval_ctx_ptr ctx)
     }
     cur_eval_cond = ctx->cur_eval_cond;
     undo_forced(ctx->old_forced_buf_size);
+    if( !ctx->substitution_underway ) {
+	B_Abort_substitution();
+    }
 }
 
 void
@@ -1019,6 +1023,7 @@ Reset_eval_context()
     Call_level = 0;
     cur_eval_cond = B_One();
     undo_forced(0);
+    B_Abort_substitution();
     resize_buf(&fn_trace_buf, 0);
     if( profiling_active ) {
 	while( COUNT_BUF(&profiling_buf) > 0 ) {
diff --git a/src/bin/fl/graph.h b/src/bin/fl/graph.h
index 152a80b..e5c7a44 100644
--- a/src/bin/fl/graph.h
+++ b/src/bin/fl/graph.h
@@ -30,6 +30,7 @@ typedef struct eval_ctx_rec {
     int		old_fn_trace_buf_size;
     formula	cur_eval_cond;
     unint	old_forced_buf_size;
+    bool	substitution_underway;
 } eval_ctx_rec;
 typedef struct gmap_info_rec	*gmap_info_ptr;
 typedef struct io_rec		*io_ptr;
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 99aed52..24c2928 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1677,6 +1677,31 @@ limitedOR(g_ptr redex)
     DEC_REF_CNT(r);
 }
 
+static void
+end_substitution()
+{
+    dispose_hash(&subs_tbl, NULLFCN);
+    free_mgr(&subst_rec_mgr);
+    subst_rec_mgr_in_use = FALSE;
+    free_mgr(&subst_cache_rec_mgr);
+    subst_cache_rec_mgr_in_use = FALSE;
+}
+
+bool
+B_Substitution_underway()
+{
+    return subst_rec_mgr_in_use;
+}
+
+/* B_Abort_substitution -- Forget a substitution that will not be completed */
+void
+B_Abort_substitution()
+{
+    if( subst_rec_mgr_in_use ) {
+	end_substitution();
+    }
+}
+
 static void
 do_substitute(g_ptr redex)
 {
@@ -1699,11 +1724,7 @@ do_substitute(g_ptr redex)
     }
     g_ptr res = Gen_map(top_b_subst, arg2, FALSE);
     OVERWRITE(redex, res);
-    dispose_hash(&subs_tbl, NULLFCN);
-    free_mgr(&subst_rec_mgr);
-    subst_rec_mgr_in_use = FALSE;
-    free_mgr(&subst_cache_rec_mgr);
-    subst_cache_rec_mgr_in_use = FALSE;
+    end_substitution();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
diff --git a/src/bin/fl/new_bdd.h b/src/bin/fl/new_bdd.h
index c4e361f..985dfc0 100644
--- a/src/bin/fl/new_bdd.h
+++ b/src/bin/fl/new_bdd.h
@@ -71,6 +71,8 @@ void		HL_Pattern(odests fp, formula H, formula L);
 void		B_Mark(formula);
 void		Reset_Ref_cnts();
 void 		B_Clean(void);
+bool		B_Substitution_underway();
+void		B_Abort_substitution();
 void		BDD_Sanity(formula f1);
 string  	Get_Var_Name(unint i);
 unint     	Get_VarCnt();
-- 
2.43.0


From 5363d9080bbcf35d15e7c95fd2e9b8a5e7a260e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 13/38] fix: fget handed getdelim a static buffer of unknown
 size

---
 src/bin/fl/io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 56dd5da..a70a7e5 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -1314,13 +1314,14 @@ Fget(g_ptr redex)
         MAKE_REDEX_FAILURE(redex,
             Fail_pr("fgetdelim on file not open for reading"));
     } else {
-        string tmp = strtemp("");
-        size_t size;
+        char *tmp = NULL;
+        size_t size = 0;
         if(getdelim(&tmp, &size, '\0', ip->fp) != -1) {
             MAKE_REDEX_STRING(redex, wastrsave(stringsp, tmp));
         } else {
             MAKE_REDEX_STRING(redex, wastrsave(stringsp, ""));
         }
+        free(tmp);
     }
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
-- 
2.43.0


From 06cda0b233c6d00e0f8c5ecfb8e5f50aeac5897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 14/38] fix: a closed stream could still be used, and fclose
 forgot earlier write errors

---
 src/bin/fl/io.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index a70a7e5..ff8e14f 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -242,8 +242,12 @@ c_fflush(g_ptr redex)
     g_ptr gfp;
     EXTRACT_1_ARG(redex, gfp);
     io_ptr ip = GET_FILE_IO_PTR(gfp);
-    fflush(ip->fp);
-    MAKE_REDEX_VOID(redex);
+    if( ip->fp == NULL ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("fflush of closed %s", ip->name));
+    } else {
+	fflush(ip->fp);
+	MAKE_REDEX_VOID(redex);
+    }
     DEC_REF_CNT( l );
     DEC_REF_CNT( r );
 }
@@ -284,7 +288,7 @@ c_fclose(g_ptr redex)
 
     io_ptr *prev_io = &open_ios;
     io_ptr cur = open_ios;
-    while( cur && !STREQ(cur->name, ip->name) ) {
+    while( cur && cur != ip ) {
         prev_io = &(cur->next);
         cur = cur->next;
     }
@@ -303,8 +307,15 @@ c_fclose(g_ptr redex)
     if( ip->is_pipe ) {
         ret = pclose(ip->fp);
     } else {
+	// An error in an earlier write must not be forgotten
+	int failed = ip->writable && ferror(ip->fp);
         ret = fclose(ip->fp);
+	if( failed ) { ret = -1; }
     }
+    // The stream can no longer be used
+    ip->fp = NULL;
+    ip->mode = wastrsave(stringsp, "");
+    ip->writable = FALSE;
 #if 0
     // This does not really work since there can still be 
     // FILE_IP_PTRs with this ip.
@@ -1273,7 +1284,9 @@ Feof(g_ptr redex)
     g_ptr l = GET_APPLY_LEFT(redex);
     g_ptr r = GET_APPLY_RIGHT(redex);
     io_ptr ip = GET_FILE_IO_PTR(r);
-    if( feof(ip->fp) ) {
+    if( ip->fp == NULL ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("feof of closed %s", ip->name));
+    } else if( feof(ip->fp) ) {
 	MAKE_REDEX_BOOL(redex, B_One());
     } else {
 	MAKE_REDEX_BOOL(redex, B_Zero());
-- 
2.43.0


From b737ef9d7b947fdb101adeb49fe7472c344ea739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:00 +0000
Subject: [PATCH 15/38] fix: continued strings were not counted in line numbers

---
 src/bin/fl/lexer | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/lexer b/src/bin/fl/lexer
index dc8e420..52cec4d 100644
--- a/src/bin/fl/lexer
+++ b/src/bin/fl/lexer
@@ -650,6 +650,7 @@ merge_strings(string s)
 		if( strncmp(s, "\"\\\n", 3) == 0 ) {
 		    outside = TRUE;
 		    s += 3;
+		    line_nbr++;
 		} else {
 		    res = charappend(*s);
 		    s++;
-- 
2.43.0


From eb0cb30aaf0261038bfcb0a19d903de0e81da431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 16/38] fix: an interrupt while loading a file closed the file
 twice

---
 src/bin/fl/graph.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 4b2b1c1..9887588 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1033,7 +1033,6 @@ Reset_eval_context()
 	}
     }
     while( cur_file != NULL ) {
-	fclose(yyin);
 	yyin = Return_to_old_fid();
     }
     file_load = FALSE;
-- 
2.43.0


From 209ee670a2b610b2c849f05745d8a364a56741b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:41 +0000
Subject: [PATCH 17/38] fix: saved BDDs and bexprs: report failed writes,
 refuse incomplete or foreign files

---
 src/bin/fl/bexpr.c   | 26 +++++++++++++++++++-------
 src/bin/fl/graph.c   |  4 +++-
 src/bin/fl/new_bdd.c | 32 ++++++++++++++++++++++++++------
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 86a34d8..8f75731 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -342,10 +342,13 @@ Save_bexprs(string filename, buffer *roots)
     FOR_BUF(&res_buf, int, ip) {
 	fprintf(fp, "r %+d\n", *ip);
     }
-    fclose(fp);
+    bool ok = !ferror(fp);
+    if( fclose(fp) != 0 ) ok = FALSE;
     free_buf(&res_buf);
     dispose_hash(&bexpr_save_tbl, NULLFCN);
-    return( TRUE );
+    if( !ok )
+	Fail_pr("Failed to write bexprs to %s", filename);
+    return( ok );
 }
 
 bool
@@ -360,8 +363,9 @@ Load_bexprs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BEXPRS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
+    unint first = COUNT_BUF(results);
     buffer work_buf;
     new_buf(&work_buf, 1000, sizeof(bexpr));
     bexpr f = BE_Zero();
@@ -369,13 +373,13 @@ Load_bexprs(string filename, buffer *results)
     f = BE_One();
     push_buf(&work_buf, &f);
     int line_cnt = 2;
-    while( !feof(fp) ) {
-	int c = fgetc(fp);
+    int c;
+    while( (c = fgetc(fp)) != EOF ) {
 	ungetc(c, fp);
 	switch( c ) {
 	    case 'v':
 	    {
-		if( fscanf(fp, "v %s\n", buf) != 1 )
+		if( fscanf(fp, "v %[^\n]\n", buf) != 1 )
 		    goto parse_error;
 		line_cnt++;
 		string name = wastrsave(stringsp, buf);
@@ -389,6 +393,9 @@ Load_bexprs(string filename, buffer *results)
 		int  pl, pr;
 		if( fscanf(fp, "a %c%d %c%d\n",&sl,&pl,&sr,&pr) != 4 )
 		    goto parse_error;
+		if( pl < 0 || pl >= COUNT_BUF(&work_buf) ||
+		    pr < 0 || pr >= COUNT_BUF(&work_buf) )
+		    goto parse_error;
 		line_cnt++;
 		bexpr bl = *((bexpr *) M_LOCATE_BUF(&work_buf, pl));
 		bexpr bel = (sl == '-')? BE_NOT(bl) : bl;
@@ -402,7 +409,10 @@ Load_bexprs(string filename, buffer *results)
 	    {
 		char sr;
 		int pr;
-		if( fscanf(fp, "r %c%d\n",&sr,&pr) != 2 )
+		if( fscanf(fp, "r %c%d",&sr,&pr) != 2 )
+		    goto parse_error;
+		// A number without newline is the beginning of a longer one
+		if( pr < 0 || pr >= COUNT_BUF(&work_buf) || fgetc(fp) != '\n' )
 		    goto parse_error;
 		line_cnt++;
 		bexpr br = *((bexpr *) M_LOCATE_BUF(&work_buf, pr));
@@ -414,6 +424,8 @@ Load_bexprs(string filename, buffer *results)
 		goto parse_error;
 	}
     }
+    if( COUNT_BUF(results) != first+cnt || ferror(fp) )
+	goto parse_error;
     fclose(fp);
     free_buf(&work_buf);
     return( TRUE );
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 9887588..9492889 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3866,8 +3866,10 @@ traverse_left(g_ptr oroot)
 			    push_buf(&roots, &b);
 			    ntmp = GET_CONS_TL(ntmp);
 			}
-			Save_BDDs(GET_STRING(arg1), &roots);
+			bool saved = Save_BDDs(GET_STRING(arg1), &roots);
 			free_buf(&roots);
+			if( !saved )
+			    goto fail2;
 			MAKE_REDEX_BOOL(redex, B_One());
 			goto finish2;
 		    }
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 24c2928..5867fb7 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -858,10 +858,13 @@ Save_BDDs(string filename, buffer *roots)
 	    fprintf(fp, "r +%d\n", i);
 	}
     }
-    fclose(fp);
+    bool ok = !ferror(fp);
+    if( fclose(fp) != 0 ) ok = FALSE;
     dispose_hash(&bdd_save_tbl, NULLFCN);
     dispose_hash(&save_var_tbl, NULLFCN);
-    return( TRUE );
+    if( !ok )
+	Fail_pr("Failed to write BDDs to %s", filename);
+    return( ok );
 }
 
 bool
@@ -877,11 +880,13 @@ Load_BDDs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BDDS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
+    bool ok = TRUE;
+    unint first = COUNT_BUF(results);
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
-    while( fscanf(fp, "v %s\n", buf) == 1 ) {
+    while( fscanf(fp, "v %[^\n]\n", buf) == 1 ) {
 	string name = wastrsave(stringsp, buf);
 	formula b = B_Var(name);
 	push_buf(&var_map, (pointer) &b);
@@ -893,6 +898,12 @@ Load_BDDs(string filename, buffer *results)
     unint vidx, l, r;
     char sl, sr;
     while( fscanf(fp, "n %d %c%d %c%d\n", &vidx, &sl, &l, &sr, &r) == 5 ) {
+	if( vidx >= COUNT_BUF(&var_map) ||
+	    l >= COUNT_BUF(&work_buf) || r >= COUNT_BUF(&work_buf) )
+	{
+	    ok = FALSE;
+	    break;
+	}
 	formula v = *((formula *) M_LOCATE_BUF(&var_map, vidx));
 	formula pt = *((formula *) M_LOCATE_BUF(&work_buf, l));
 	formula t = (sl == '-') ? B_Not(pt) : pt;
@@ -901,15 +912,24 @@ Load_BDDs(string filename, buffer *results)
 	formula b = B_Ite(v, t, e);
 	push_buf(&work_buf, &b);
     }
-    while( fscanf(fp, "r %c%d\n", &sr, &r) == 2 ) {
+    while( ok && fscanf(fp, "r %c%d", &sr, &r) == 2 ) {
+	// A number without newline is the beginning of a longer one
+	if( r >= COUNT_BUF(&work_buf) || fgetc(fp) != '\n' ) {
+	    ok = FALSE;
+	    break;
+	}
 	formula b = *((formula *) M_LOCATE_BUF(&work_buf, r));
 	b = (sr == '-')? B_Not(b) : b;
 	push_buf(results, &b);
     }
+    if( COUNT_BUF(results) != first+cnt || fgetc(fp) != EOF || ferror(fp) )
+	ok = FALSE;
     free_buf(&var_map);
     free_buf(&work_buf);
     fclose(fp);
-    return( TRUE );
+    if( !ok )
+	Fail_pr("Illegal or incomplete BDD file %s", filename);
+    return( ok );
 }
 
 void
-- 
2.43.0


From 7f7b9f551b28690234898ea5bcda6d6e4d82b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:45 +0000
Subject: [PATCH 18/38] fix: saving a value on a full or failing disk ended fl
 or reported success

---
 src/bin/fl/io.c | 149 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 101 insertions(+), 48 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index ff8e14f..3ab2e91 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -988,86 +988,129 @@ Save_get_string_idx(string s)
 #define TAG_VAR		'V'
 #define TAG_EXTOBJ	'O'
 
-bool
-Save_graph(string type_sig, string file_name, g_ptr node)
+static bool
+close_saved(FILE *fp)
 {
-    Serialize_Begin();
-    Sprintf(buf, "%s/tmp_save_XXXXXX", Voss_tmp_dir);
-    string dir = wastrsave(stringsp, mkdtemp(buf));
-    Sprintf(buf, "%s/signature", dir);
-    string sig_file_name = wastrsave(stringsp, buf);
-    Sprintf(buf, "%s/bexprs", dir);
-    string bexpr_file_name = wastrsave(stringsp, buf);
-    Sprintf(buf, "%s/bools", dir);
-    string bool_file_name = wastrsave(stringsp, buf);
-    new_uniq_buf(&bexpr_buf, 100, sizeof(bexpr));
-    new_uniq_buf(&bool_buf, 100, sizeof(formula));
-    new_uniq_buf(&string_buf, 100, sizeof(string));
+    bool ok = !ferror(fp);
+    if( fclose(fp) != 0 ) ok = FALSE;
+    return( ok );
+}
+
+static void
+remove_tmp_dir(string dir)
+{
+    Sprintf(buf, "rm -rf %s", dir);
+    int i = system(buf);
+    (void) i;
+}
 
+// Write the parts of a saved graph to the directory dir
+static bool
+save_graph_parts(string dir, string type_sig, g_ptr node)
+{
     // Graph saving
     Sprintf(buf, "%s/graph", dir);
     FILE *fp = fopen(buf, "w");
     if( fp == NULL ) {
-	DIE("Failed to save graph to %s\n%s\n", buf, strerror(errno));
-    }
-    create_hash(&g_save_tbl, 1000, ptr_hash, ptr_equ);
-    if( !can_be_saved(node) ) {
-	fclose(fp);
-	dispose_hash(&g_save_tbl, NULLFCN);
+	Fail_pr("Failed to save graph to %s\n%s\n", buf, strerror(errno));
 	return( FALSE );
     }
-    dispose_hash(&g_save_tbl, NULLFCN);
     write_graph_line_nbr = 1;
     dbg_indent = 0;
     write_g_ptr(fp, node);
-    fclose(fp);
+    if( !close_saved(fp) ) {
+	Fail_pr("Failed to save graph to %s/graph\n", dir);
+	return( FALSE );
+    }
     // Bexpr saving
-    Save_bexprs(bexpr_file_name, &(bexpr_buf.buf));
+    Sprintf(buf, "%s/bexprs", dir);
+    string bexpr_file_name = wastrsave(stringsp, buf);
+    if( !Save_bexprs(bexpr_file_name, &(bexpr_buf.buf)) )
+	return( FALSE );
     // BDD saving
-    Save_BDDs(bool_file_name, &(bool_buf.buf));
+    Sprintf(buf, "%s/bools", dir);
+    string bool_file_name = wastrsave(stringsp, buf);
+    if( !Save_BDDs(bool_file_name, &(bool_buf.buf)) )
+	return( FALSE );
     // String saving
     Sprintf(buf, "%s/strings", dir);
     fp = fopen(buf, "w");
     if( fp == NULL ) {
-	DIE("Failed to save graph %s\n%s\n", buf, strerror(errno));
+	Fail_pr("Failed to save graph %s\n%s\n", buf, strerror(errno));
+	return( FALSE );
     }
     string *sp;
     FOR_UNIQ_BUF(&string_buf, string, sp) {
 	fprintf(fp, "%d %s\n", (int) strlen(*sp), *sp);
     }
-    fclose(fp);
+    if( !close_saved(fp) ) {
+	Fail_pr("Failed to save graph to %s/strings\n", dir);
+	return( FALSE );
+    }
     // Type signature saving
-    if( (fp = fopen(sig_file_name, "w")) == NULL ) {
-	DIE("Failed to open type signature file %s for writing\n%s\n",
-	    sig_file_name, strerror(errno));
+    Sprintf(buf, "%s/signature", dir);
+    if( (fp = fopen(buf, "w")) == NULL ) {
+	Fail_pr("Failed to open type signature file %s for writing\n%s\n",
+		buf, strerror(errno));
+	return( FALSE );
     }
     fprintf(fp, "%d\n", g_save_cnt);
     fprintf(fp, "%s\n", type_sig);
-    fclose(fp);
+    if( !close_saved(fp) ) {
+	Fail_pr("Failed to save graph to %s/signature\n", dir);
+	return( FALSE );
+    }
+    return( TRUE );
+}
+
+bool
+Save_graph(string type_sig, string file_name, g_ptr node)
+{
+    create_hash(&g_save_tbl, 1000, ptr_hash, ptr_equ);
+    bool ok = can_be_saved(node);
+    dispose_hash(&g_save_tbl, NULLFCN);
+    if( !ok )
+	return( FALSE );
+    Sprintf(buf, "%s/tmp_save_XXXXXX", Voss_tmp_dir);
+    if( mkdtemp(buf) == NULL ) {
+	Fail_pr("Failed to create directory %s\n%s\n", buf, strerror(errno));
+	return( FALSE );
+    }
+    string dir = wastrsave(stringsp, buf);
+    Serialize_Begin();
+    new_uniq_buf(&bexpr_buf, 100, sizeof(bexpr));
+    new_uniq_buf(&bool_buf, 100, sizeof(formula));
+    new_uniq_buf(&string_buf, 100, sizeof(string));
+    ok = save_graph_parts(dir, type_sig, node);
     free_uniq_buf(&bexpr_buf);
     free_uniq_buf(&bool_buf);
     free_uniq_buf(&string_buf);
-    // Tar up the files
-    Sprintf(buf,
-	    "tar -c -z -C %s -f %s signature bexprs bools strings graph",
-	    dir, file_name);
-    if( system(buf) != 0 ) {
-	Fail_pr("Command '%s' failed????", buf);
-	return FALSE;
-    }
-    Sprintf(buf, "rm -rf %s", dir);
-    int i  = system(buf);
-    (void) i;
     Serialize_End();
-    return TRUE;
+    if( ok ) {
+	// Tar up the files
+	Sprintf(buf,
+		"tar -c -z -C %s -f %s signature bexprs bools strings graph",
+		dir, file_name);
+	if( system(buf) != 0 ) {
+	    Fail_pr("Command '%s' failed????", buf);
+	    ok = FALSE;
+	}
+    }
+    remove_tmp_dir(dir);
+    return( ok );
 }
 
 bool
 Load_graph(string type_sig, string file_name, g_ptr redex)
 {
-    Unserialize_Begin();
     Sprintf(buf, "%s/tmp_load_XXXXXX", Voss_tmp_dir);
-    string dir = wastrsave(stringsp, mkdtemp(buf));
+    if( mkdtemp(buf) == NULL ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to create directory %s\n%s",
+					  buf, strerror(errno)));
+	return(FALSE);
+    }
+    string dir = wastrsave(stringsp, buf);
+    Unserialize_Begin();
     // Make files
     Sprintf(buf, "%s/signature", dir);
     string sig_file_name = wastrsave(stringsp, buf);
@@ -1085,6 +1128,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     if( (ret = system(cmd)) != 0 ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read %s (return code %d)",
 					  file_name, ret));
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
@@ -1092,6 +1136,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     FILE *fp;
     if( (fp = fopen(sig_file_name, "r")) == NULL ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to open %s", sig_file_name));
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
@@ -1100,15 +1145,20 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	fclose(fp);
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Syntax error at line 1 in %s",
 					  sig_file_name));
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
     string tmp = strtemp("");
     tmp = fgets(tmp, STR_BLOCK_SIZE-1, fp);
     fclose(fp);
-    if( strncmp(tmp, type_sig, strlen(type_sig)) != 0 ) {
+    size_t sig_len = strlen(type_sig);
+    if( tmp == NULL || strncmp(tmp, type_sig, sig_len) != 0 ||
+	(tmp[sig_len] != '\n' && tmp[sig_len] != 0) )
+    {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Type signature mismatch in %s",
 					  file_name));
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
@@ -1118,6 +1168,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read BDDs in %s",
 					  file_name));
 	free_buf(&bool_results);
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
@@ -1128,6 +1179,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 					  file_name));
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return(FALSE);
     }
@@ -1138,6 +1190,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
 	free_buf(&str_results);
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return( FALSE );
     }
@@ -1157,6 +1210,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 		free_buf(&bool_results);
 		free_buf(&bexpr_results);
 		free_buf(&str_results);
+		remove_tmp_dir(dir);
 		Unserialize_End();
 		return( FALSE );
 	    }
@@ -1174,6 +1228,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
 	free_buf(&str_results);
+	remove_tmp_dir(dir);
 	Unserialize_End();
 	return( FALSE );
     }
@@ -1186,9 +1241,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     free_buf(&bool_results);
     free_buf(&bexpr_results);
     free_buf(&str_results);
-    Sprintf(buf, "rm -rf %s", dir);
-    int i = system(buf);
-    (void) i;
+    remove_tmp_dir(dir);
     Unserialize_End();
     return( TRUE );
 }
-- 
2.43.0


From 6e26d00aacc657cc59c5dfc06c3c1190b8f8bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:21 +0000
Subject: [PATCH 19/38] fix: a read error while loading a saved value crashed
 fl or gave a wrong value

---
 src/bin/fl/bexpr.c     |  6 +++---
 src/bin/fl/io.c        | 26 ++++++++++++++++++++++++--
 src/bin/fl/serialize.c | 10 ++++------
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 8f75731..7c94880 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -393,8 +393,8 @@ Load_bexprs(string filename, buffer *results)
 		int  pl, pr;
 		if( fscanf(fp, "a %c%d %c%d\n",&sl,&pl,&sr,&pr) != 4 )
 		    goto parse_error;
-		if( pl < 0 || pl >= COUNT_BUF(&work_buf) ||
-		    pr < 0 || pr >= COUNT_BUF(&work_buf) )
+		if( pl < 0 || (unint) pl >= COUNT_BUF(&work_buf) ||
+		    pr < 0 || (unint) pr >= COUNT_BUF(&work_buf) )
 		    goto parse_error;
 		line_cnt++;
 		bexpr bl = *((bexpr *) M_LOCATE_BUF(&work_buf, pl));
@@ -412,7 +412,7 @@ Load_bexprs(string filename, buffer *results)
 		if( fscanf(fp, "r %c%d",&sr,&pr) != 2 )
 		    goto parse_error;
 		// A number without newline is the beginning of a longer one
-		if( pr < 0 || pr >= COUNT_BUF(&work_buf) || fgetc(fp) != '\n' )
+		if( pr < 0 || (unint) pr >= COUNT_BUF(&work_buf) || fgetc(fp) != '\n' )
 		    goto parse_error;
 		line_cnt++;
 		bexpr br = *((bexpr *) M_LOCATE_BUF(&work_buf, pr));
diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 3ab2e91..a0643e7 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -935,18 +935,24 @@ Printf(g_ptr *rootp, g_ptr **spp, int *depthp)
 formula
 Load_get_bool_from_idx(int idx)
 {
+    if( idx < 0 || (unint) idx >= COUNT_BUF(&bool_results) )
+	Rprintf("Corrupted graph object");
     return( *((formula *) FAST_LOC_BUF(&bool_results, idx)) );
 }
 
 bexpr
 Load_get_bexpr_from_idx(int idx)
 {
+    if( idx < 0 || (unint) idx >= COUNT_BUF(&bexpr_results) )
+	Rprintf("Corrupted graph object");
     return( *((bexpr *) FAST_LOC_BUF(&bexpr_results, idx)) );
 }
 
 string
 Load_get_string_from_idx(int idx)
 {
+    if( idx < 0 || (unint) idx >= COUNT_BUF(&str_results) )
+	Rprintf("Corrupted graph object");
     return( *((string *) FAST_LOC_BUF(&str_results, idx)) );
 }
 
@@ -1194,7 +1200,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	Unserialize_End();
 	return( FALSE );
     }
-    while( !feof(fp) ) {
+    while( !feof(fp) && !ferror(fp) ) {
 	int sz = 0;
 	int c;
 	while( (c = fgetc(fp)) != EOF && isdigit(c) ) {
@@ -1221,6 +1227,16 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	// Absorb newline
 	fgetc(fp);
     }
+    if( ferror(fp) ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read %s", str_file_name));
+	fclose(fp);
+	free_buf(&bool_results);
+	free_buf(&bexpr_results);
+	free_buf(&str_results);
+	remove_tmp_dir(dir);
+	Unserialize_End();
+	return( FALSE );
+    }
     fclose(fp);
     // ------------- Read graph ------------------
     if( (fp = fopen(graph_file_name, "r")) == NULL ) {
@@ -1236,13 +1252,19 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     read_graph_line_nbr = 1;
     dbg_indent = 0;
     read_g_ptr(fp, &result);
+    bool read_ok = !ferror(fp);
     fclose(fp);
-    OVERWRITE(redex, result);
     free_buf(&bool_results);
     free_buf(&bexpr_results);
     free_buf(&str_results);
     remove_tmp_dir(dir);
     Unserialize_End();
+    if( !read_ok ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read graph in %s",
+					  file_name));
+	return( FALSE );
+    }
+    OVERWRITE(redex, result);
     return( TRUE );
 }
 
diff --git a/src/bin/fl/serialize.c b/src/bin/fl/serialize.c
index 5dd0494..c5b9ce0 100644
--- a/src/bin/fl/serialize.c
+++ b/src/bin/fl/serialize.c
@@ -488,11 +488,9 @@ read_g_ptr(FILE *fp, g_ptr *pp)
     pointer oldp, newp;
     RD_DBG1("{ g_ptr");
     read_pointer(fp, &oldp);
-    if( oldp == NULL ) {
-        *pp = NULL;
-        END_DBG("} g_ptr");
-        return;
-    }
+    // Never written by write_g_ptr for a node
+    if( oldp == NULL )
+	Rprintf("Corrupted graph object");
     if( (newp = Old2new(oldp)) != NULL ) {
         *pp = (g_ptr) newp;
     } else {
@@ -805,7 +803,7 @@ read_g_rec(FILE *fp, g_ptr np)
 	    return;
 	}
 	default:
-	    DIE("Unexpected node type");
+	    Rprintf("Corrupted graph object");
     }
 }
 
-- 
2.43.0


From b753f5a991f644b851e49e10c1dba3c6f8a87f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:46 +0000
Subject: [PATCH 20/38] fix: spawned processes: failed starts, repeated status
 queries, single-winner results and partial results of para_eval

---
 src/bin/fl/fl.c     |  7 +++-
 src/bin/fl/system.c | 78 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 69 insertions(+), 16 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index 93bf9b4..d07b9f5 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -466,9 +466,14 @@ fl_main(int argc, char *argv[])
 	// Now force evaluation of redex
 	redex = force(redex, FALSE);
 	// And save the result in the output file
+	// (a process that dies while writing must not leave a partial one)
 	string out_file = tprintf("%s.out.tar.gz", expr_eval_file);
 	out_file = wastrsave(stringsp, out_file);
-	if( !Save_graph("_dummy_sig_", out_file, redex) ) {
+	string part_file = tprintf("%s.part.tar.gz", expr_eval_file);
+	part_file = wastrsave(stringsp, part_file);
+	if( !Save_graph("_dummy_sig_", part_file, redex) ||
+	    rename(part_file, out_file) != 0 )
+	{
 	    fprintf(stderr, "Save_graph in expr_eval_file failed (%s)\n",
 			    out_file);
 	    exit(-22);
diff --git a/src/bin/fl/system.c b/src/bin/fl/system.c
index 706f3ae..b2253d6 100644
--- a/src/bin/fl/system.c
+++ b/src/bin/fl/system.c
@@ -36,10 +36,17 @@ extern g_ptr	   void_nd;
 /***** PRIVATE VARIABLES *****/
 static char	buf [4096];
 static char	path_buf [PATH_MAX+1];
+// Spawned processes (status is set once the process has ended)
+typedef struct spawned_rec {
+    pid_t   pid;
+    bool    ended;
+    int	    status;
+} spawned_rec, *spawned_ptr;
 static buffer	spawned_pids;
 
 /* ----- Forward definitions local functions ----- */
 static string	get_binary_directory();
+static spawned_ptr find_spawned(pid_t pid);
 static void	load_shared_library(g_ptr redex);
 
 /********************************************************/
@@ -50,16 +57,18 @@ void
 System_Init()
 {
     // Any needed initialization code
-    new_buf(&spawned_pids, 100, sizeof(int));
+    new_buf(&spawned_pids, 100, sizeof(spawned_rec));
 }
 
 void
 Kill_Child_Processes()
 {
-    int	*ip;
-    FOR_BUF(&spawned_pids, int, ip) {
-	pid_t pid = (pid_t) *ip;
-	kill(pid, SIGKILL);
+    spawned_ptr	sp;
+    FOR_BUF(&spawned_pids, spawned_rec, sp) {
+	// The pid of a process that has been waited for may be reused
+	if( !sp->ended ) {
+	    kill(sp->pid, SIGKILL);
+	}
     }
 }
 
@@ -103,10 +112,18 @@ spawn(g_ptr redex)
     if( pid == 0 ) {
         // Child
         execlp("bash", "bash","-c",cmd,(char *)NULL);
+	_exit(127);
+    }
+    if( pid == -1 ) {
+	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to spawn '%s' (%s)",
+					  cmd, strerror(errno)));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
     }
-    int ipid = (int) pid;
-    MAKE_REDEX_INT(redex, ipid);
-    push_buf(&spawned_pids, &ipid);
+    spawned_rec rec = { .pid = pid, .ended = FALSE, .status = 0 };
+    push_buf(&spawned_pids, &rec);
+    MAKE_REDEX_INT(redex, (int) pid);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
@@ -124,12 +141,17 @@ my_exec(g_ptr redex)
     }
     g_ptr output = Make_NIL();
     g_ptr tail  = output;
-    while (fgets(buf, sizeof (buf), fp) != NULL) {
-	buf[strlen(buf)-1] = 0;
-	SET_CONS_HD(tail, Make_STRING_leaf(wastrsave(stringsp, buf)));
+    char *line = NULL;
+    size_t size = 0;
+    ssize_t len;
+    while ((len = getline(&line, &size, fp)) != -1) {
+	// The last line may lack its newline
+	if( len > 0 && line[len-1] == '\n' ) { line[len-1] = 0; }
+	SET_CONS_HD(tail, Make_STRING_leaf(wastrsave(stringsp, line)));
 	SET_CONS_TL(tail, Make_NIL());
 	tail = GET_CONS_TL(tail);
     }
+    free(line);
     int rc = pclose (fp);
     MAKE_REDEX_PAIR(redex, Make_INT_leaf(rc), output);
     DEC_REF_CNT(l);
@@ -345,9 +367,21 @@ get_process_exit_status(g_ptr redex)
     g_ptr gpid;
     EXTRACT_1_ARG(redex, gpid);
     pid_t pid = (pid_t) GET_INT(gpid);
-    int status;
-    waitpid(pid, &status, WNOHANG);
-    if( WIFEXITED(status) ) {
+    // The system tells how a process ended only once
+    spawned_ptr sp = find_spawned(pid);
+    bool ended = FALSE;
+    int status = 0;
+    if( sp != NULL && sp->ended ) {
+	ended = TRUE;
+	status = sp->status;
+    } else if( waitpid(pid, &status, WNOHANG) == pid ) {
+	ended = TRUE;
+	if( sp != NULL ) {
+	    sp->ended = TRUE;
+	    sp->status = status;
+	}
+    }
+    if( ended && WIFEXITED(status) ) {
 	int ret = WEXITSTATUS(status);
 	MAKE_REDEX_INT(redex, ret);
 	DEC_REF_CNT(l);
@@ -369,7 +403,9 @@ do_kill(g_ptr redex)
     EXTRACT_2_ARGS(redex, gpid, gsig);
     pid_t pid = (pid_t) GET_INT(gpid);
     int sig = GET_INT(gsig);
-    MAKE_REDEX_INT(redex, kill(pid, sig));
+    spawned_ptr sp = find_spawned(pid);
+    // The pid of a process that has been waited for may be reused
+    MAKE_REDEX_INT(redex, (sp != NULL && sp->ended)? -1 : kill(pid, sig));
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
     return;
@@ -460,6 +496,18 @@ System_Install_Functions()
 /*                    LOCAL FUNCTIONS    		*/
 /********************************************************/
 
+// Latest spawned process with this pid (NULL if there is none)
+static spawned_ptr
+find_spawned(pid_t pid)
+{
+    for(int i = COUNT_BUF(&spawned_pids)-1; i >= 0; i--) {
+	spawned_ptr sp = (spawned_ptr) M_LOCATE_BUF(&spawned_pids, i);
+	if( sp->pid == pid )
+	    return sp;
+    }
+    return NULL;
+}
+
 static string
 get_binary_directory()
 {
-- 
2.43.0


From 4ff378be732146ef80cddf9c6e7a15323c8f3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:46 +0000
Subject: [PATCH 21/38] fix: para_eval single_winner gave results in the wrong
 place; gui_exec NO_GUI lost its output

---
 src/bin/fl/preamble.fl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index c27a432..eed2e6d 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -2464,7 +2464,7 @@ let gui_exec {window::string} {title::string} {cmd::string} {workdir::string} =
 	(workdir != "" => (fprintf fp "cd %s\n" workdir) | ()) fseq
 	(fprintf fp "exec %s" cmd) fseq
 	(fclose fp) fseq
-	let ncmd = sprintf "/bin/sh %s 2>&1 %s" cmd_file log_file then
+	let ncmd = sprintf "/bin/sh %s > %s 2>&1" cmd_file log_file then
 	let status = system ncmd then
 	(sprintf "%d" status, "", log_file)
     |
@@ -2727,11 +2727,14 @@ let para_eval {exprs:: *a list}
 	    results@failed
 	|
 	    let found = find_first0 (\f. get_status f = PID_DONE_OK) finished in
+	    // No winner if every process failed
+	    found = 0 => map (\i.i,{NONE:: {*a} opt}) (1 upto (length exprs)) |
 	    let winner = el found finished in
 	    // Now kill all other processes
 	    (foreach kill_process current) fseq
 	    let rem =
-		let indices = (1 upto (length exprs)) subtract [found] in
+		let winners = [get_index winner] in
+		let indices = (1 upto (length exprs)) subtract winners in
 		map (\i.i,{NONE:: {*a} opt}) indices
 	    in
 	    (get_result winner):rem
-- 
2.43.0


From 3baff3397c41ddebbee4caf985b501f320d5bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:46 +0000
Subject: [PATCH 22/38] fix: fl looped forever at the end of a script given as
 standard input

---
 src/bin/fl/lexer | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/lexer b/src/bin/fl/lexer
index 52cec4d..13507c5 100644
--- a/src/bin/fl/lexer
+++ b/src/bin/fl/lexer
@@ -732,7 +732,11 @@ do_parse_stdin(bool flush)
               {
                 line = readline(prompt);
                 if( line == 0 )
-                  break;
+                  {
+                    // End of a script given as standard input
+                    if( !isatty(fileno(stdin)) ) { Exit(0); }
+                    break;
+                  }
                 else if( strlen(line) > 0)
                   {
                     add_history(line);
-- 
2.43.0


From fe0926b1ba5cc07d038e7321587d6fee6c462364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 23/38] fix: after one expired SAT time limit every later query
 timed out

---
 src/bin/fl/minisat_ifc.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/minisat_ifc.cc b/src/bin/fl/minisat_ifc.cc
index b7c7643..84e128e 100644
--- a/src/bin/fl/minisat_ifc.cc
+++ b/src/bin/fl/minisat_ifc.cc
@@ -216,10 +216,13 @@ set_SAT_time_limit(int seconds)
 {
     struct itimerval it;
 
+    // An earlier expired time limit must not stop this search
+    Sp->clearInterrupt();
+
     /* make sure handler is installed   */
     signal (SIGVTALRM, signal_interrupt);
 
-    it.it_value.tv_sec     = seconds;
+    it.it_value.tv_sec     = (seconds > 0)? seconds : 0;
     it.it_value.tv_usec    = 0;
     it.it_interval.tv_sec  = 0;
     it.it_interval.tv_usec = 0;
-- 
2.43.0


From 1cf6e6675d66ae5b7a1213e3568519a1a8188a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 24/38] fix: nested bITE used the condition of the inner one

---
 src/bin/fl/bexpr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 7c94880..7c29a91 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1080,17 +1080,19 @@ bITE(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr ll = GET_APPLY_LEFT(l);
     g_ptr arg1 = GET_APPLY_RIGHT(ll);
-    current_bexpr_cond = GET_BEXPR(arg1);
-    if( BE_IS_TRUE(current_bexpr_cond) ) {
+    bexpr cond = GET_BEXPR(arg1);
+    if( BE_IS_TRUE(cond) ) {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(l), FALSE);
 	OVERWRITE(redex, arg2);
     } else 
-    if( BE_IS_FALSE(current_bexpr_cond) ) {
+    if( BE_IS_FALSE(cond) ) {
 	g_ptr arg3 = reduce(GET_APPLY_RIGHT(redex), FALSE);
 	OVERWRITE(redex, arg3);
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Evaluating the arguments may have used other conditions
+	current_bexpr_cond = cond;
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From 53b30f8ca9f6052939847f2a897054e4ca82ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 25/38] fix: the size of memory reads and writes in W_
 expressions was the address size

---
 src/bin/fl/fsm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 78f00d1..a9e8b07 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4535,8 +4535,8 @@ get_wexpr_size(g_ptr we)
 	return sz;
     }
     int d_sz, a_sz, lines;
-    if( is_W_MEM_READ(we, &d_sz, &lines, &a_sz, &l, &r) ) { return d_sz; }
-    if( is_W_MEM_WRITE(we, &d_sz, &lines, &a_sz, &l, &r, &c) ) {
+    if( is_W_MEM_READ(we, &a_sz, &lines, &d_sz, &l, &r) ) { return d_sz; }
+    if( is_W_MEM_WRITE(we, &a_sz, &lines, &d_sz, &l, &r, &c) ) {
 	we = l;
 	goto size_start;
     }
-- 
2.43.0


From 313746689ff3d0a0ff05e713a34b645c0f355ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 26/38] fix: values of active STE events were not kept across
 garbage collections

---
 src/bin/fl/fsm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index a9e8b07..c1ae9f3 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3919,6 +3919,16 @@ mark_trace_entries(pointer key, pointer data)
     }
 }
 
+static void
+mark_active_events(pointer key, pointer data)
+{
+    (void) key;
+    for(event_list_ptr el = (event_list_ptr) data; el != NULL; el = el->next) {
+	gbv_mark(el->ep->H);
+	gbv_mark(el->ep->L);
+    }
+}
+
 static void
 mark_ste_fn(pointer p)
 {
@@ -3934,6 +3944,9 @@ mark_ste_fn(pointer p)
     gbv_mark(ste->check_OK);
     scan_hash(&(ste->trace_tbl), mark_trace_entries);
     if( ste->active ) {
+	scan_hash(&(ste->active_weak_tbl), mark_active_events);
+	scan_hash(&(ste->active_ant_tbl), mark_active_events);
+	scan_hash(&(ste->active_cons_tbl), mark_active_events);
 	int nds  = COUNT_BUF(&(ste->fsm->nodes));
 	for(int i = 0; i < nds; i++) {
 	    gbv_mark(*(weak_buf+2*i));
-- 
2.43.0


From 6d4585019c99c0540090ef566a72c9d68d49c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 27/38] fix: results of an STE run were computed with the value
 type of the last run

---
 src/bin/fl/fsm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index c1ae9f3..718a42a 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -9358,6 +9358,7 @@ gen_get_ste_result(g_ptr redex, value_type type)
     }
     string flag = GET_STRING(g_flag);
     gbv res;
+    push_ste(ste);
     if( strcmp(flag, "antOK") == 0 ) {
 	res = ste->assertion_OK;
     } else if( strcmp(flag, "trajOK") == 0 ) {
@@ -9377,12 +9378,14 @@ gen_get_ste_result(g_ptr redex, value_type type)
                    c_AND(ste->validTrajectory,
                         c_AND(ste->checkTrajectory, ste->check_OK)));
     } else {
+	pop_ste();
         MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Unknown type (%s) in (b)get_ste_result",
 				    flag));
         return;
     }
     MAKE_REDEX_GBV(redex, res);
+    pop_ste();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
-- 
2.43.0


From 4090804886327d471edb8c220cda778c7bcb79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 28/38] fix: satisfiability test of bSTE counterexamples was
 inverted and crashed on constants

---
 src/bin/fl/bexpr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 7c29a91..f5577fe 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1767,12 +1767,14 @@ static bool
 check_for_satisfaction_with_SAT(bexpr f)
 {
     int assumptions[2];
+    if( BE_IS_FALSE(f) ) { return FALSE; }
+    if( BE_IS_TRUE(f) ) { return TRUE; }
     bool neg_f = BE_IS_NEG(f);
     bexpr p_f  = BE_POS(f);
     assumptions[0] = neg_f? -1*p_f->sat_idx : p_f->sat_idx;
     int res = Find_model(assumptions, 1, 5); 
-    if( res <= 0 ) return TRUE;
-    return FALSE;
+    // Unless shown to be unsatisfiable
+    return( res > 0 );
 }
 
 static bool
-- 
2.43.0


From 38fa59e4a19fe2b435396818832a75b299b1ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:15 +0000
Subject: [PATCH 29/38] fix: an unknown node in the event lists of an STE run
 left the run half set up

---
 src/bin/fl/fsm.c | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 718a42a..077c503 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -90,7 +90,6 @@ static int	    undeclared_node_cnt;
 static bool         quit_simulation_early;
 static int	    nbr_errors_reported;
 static jmp_buf	    node_map_jmp_env;
-static jmp_buf	    event_jmp_env;
 static hash_record  *new_tbl;
 static int	    sch2tcl_cnt = 0;
 static string	    s_use_bdds;
@@ -285,7 +284,7 @@ static void           extract_tripple(g_ptr nd, string *namep, int *fromp,
 static int            event_cmp(const void *p1, const void *p2);
 static bool           create_event_buffer(ste_ptr ste, buffer *ebufp, g_ptr wl,
                                           g_ptr ant, g_ptr cons, g_ptr trl,
-                                          bool abort_ASAP);
+                                          bool abort_ASAP, string *errp);
 static void           process_event(buffer *event_bufp, int time);
 static void           record_trace(int idx, int time, gbv H, gbv L);
 static ste_ptr        create_ste(fsm_ptr fsm, value_type type);
@@ -868,11 +867,7 @@ ilist_ptr_equ(pointer k1, pointer k2)
 static void
 newSTE(g_ptr redex)
 {
-    if( setjmp(event_jmp_env) == 0 ) { 
-	gSTE(redex, use_bdds);
-    } else {
-	MAKE_REDEX_FAILURE(redex, FailBuf);
-    }
+    gSTE(redex, use_bdds);
 }
 
 static void
@@ -3415,9 +3410,11 @@ event_cmp(const void *p1, const void *p2)
 
 static bool
 create_event_buffer(ste_ptr ste, buffer *ebufp,
-		    g_ptr wl, g_ptr ant, g_ptr cons, g_ptr trl, bool abort_ASAP)
+		    g_ptr wl, g_ptr ant, g_ptr cons, g_ptr trl, bool abort_ASAP,
+		    string *errp)
 {
     event_id_cnt = 0;
+    *errp = NULL;
     for(g_ptr cur = wl; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	g_ptr t = GET_CONS_HD(cur);
 	gbv when;
@@ -3426,9 +3423,10 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	extract_four_tuple(t, &when, &node, &from, &to);
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
-	    Fail_pr("Cannot find node %s in weakening list\n", node);
-	    longjmp(event_jmp_env, 1);
+	    *errp = Fail_pr("Cannot find node %s in weakening list\n", node);
+	    return FALSE;
 	}
+	if( to <= from ) { continue; }	// Never active
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3455,9 +3453,10 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	extract_five_tuple(t, &when, &node, &val, &from, &to);
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
-	    Fail_pr("Cannot find node %s in antecedent\n", node);
-	    longjmp(event_jmp_env, 1);
+	    *errp = Fail_pr("Cannot find node %s in antecedent\n", node);
+	    return FALSE;
 	}
+	if( to <= from ) { continue; }	// Never active
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3500,9 +3499,10 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	extract_five_tuple(t, &when, &node, &val, &from, &to);
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
-	    Fail_pr("Cannot find node %s in consequent\n", node);
-	    longjmp(event_jmp_env, 1);
+	    *errp = Fail_pr("Cannot find node %s in consequent\n", node);
+	    return FALSE;
 	}
+	if( to <= from ) { continue; }	// Never active
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3544,9 +3544,10 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	extract_tripple(t, &node, &from, &to);
 	int nd_idx = name2idx(node);
 	if(nd_idx < 0) {
-	    Fail_pr("Cannot find node %s in trace list\n", node);
-	    longjmp(event_jmp_env, 1);
+	    *errp = Fail_pr("Cannot find node %s in trace list\n", node);
+	    return FALSE;
 	}
+	if( to <= from ) { continue; }	// Never active
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -8654,7 +8655,17 @@ gSTE(g_ptr redex, value_type type)
     //
     // Now translate weakenings, ant, cons and trl into events
     //
-    bool ok = create_event_buffer(ste,event_bufp,wl,ant,cons,trl,abort_ASAP);
+    string err;
+    bool ok = create_event_buffer(ste,event_bufp,wl,ant,cons,trl,abort_ASAP,
+				  &err);
+    if( err != NULL ) {
+	signal(SIGINT, old_handler);
+	pop_ste();
+	pop_fsm();
+	End_string_ops(sop);
+	MAKE_REDEX_FAILURE(redex, err);
+	return;
+    }
     //
     // Allocate value buffers
     //
-- 
2.43.0


From a8f18c65b972ad2a4b5da88e5c288a081ddc015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:15 +0000
Subject: [PATCH 30/38] fix: overlapping and empty intervals and forced phase
 delays in STE runs

---
 src/bin/fl/fsm.c | 76 +++++++++++++++++++++++++++---------------------
 src/bin/fl/fsm.h |  1 +
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 077c503..bd834cf 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -163,6 +163,8 @@ static hash_record  *active_ant_tblp;
 static hash_record  *old_active_ant_tblp;
 static hash_record  *active_cons_tblp;
 static hash_record  *old_active_cons_tblp;
+static hash_record  *active_trace_tblp;
+static hash_record  *old_active_trace_tblp;
 static hash_record  *trace_tblp;
 static hash_record  *old_trace_tblp;
 static rec_mgr	    *event_list_rec_mgrp;
@@ -3587,17 +3589,21 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
+		(void) add_active_event(active_trace_tblp, ep);
 		gbv H = *(cur_buf + 2*idx);
 		gbv L = *(cur_buf + 2*idx + 1);
 		record_trace(idx, time, H, L);
 	    } else if( ep->type == end_trace ) {
-		np->has_trace = FALSE;
-		record_trace(idx, time, c_ONE, c_ONE);
+		if( delete_active_event(active_trace_tblp, ep) == NULL ) {
+		    np->has_trace = FALSE;
+		    record_trace(idx, time, c_ONE, c_ONE);
+		}
 	    } else {
 		gbv *buf;
+		// Several weakenings add up; several values must all hold
+		bool is_weak = FALSE;
 		event_list_ptr	cur_active = NULL;
 		switch( ep->type ) {
 		    case start_weak:
@@ -3613,9 +3619,9 @@ process_event(buffer *event_bufp, int time)
 			}
 			cur_active = add_active_event(active_weak_tblp, ep);
 			buf = weak_buf;
+			is_weak = TRUE;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3626,7 +3632,9 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
+			is_weak = TRUE;
 			break;
 		    case start_ant:
 			np->has_ant = TRUE;
@@ -3635,9 +3643,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3646,19 +3654,24 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		gbv H = is_weak? c_ZERO : c_ONE;
+		gbv L = is_weak? c_ZERO : c_ONE;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    if( is_weak ) {
+			H = c_OR(H, cur_active->ep->H);
+			L = c_OR(L, cur_active->ep->L);
+		    } else {
+			H = c_AND(H, cur_active->ep->H);
+			L = c_AND(L, cur_active->ep->L);
+		    }
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
@@ -3719,6 +3732,8 @@ create_ste(fsm_ptr fsm, value_type type)
     create_hash(_active_ant_tblp, 100, int_hash, int_equ);
     hash_record *_active_cons_tblp = &(ste->active_cons_tbl);
     create_hash(_active_cons_tblp, 100, int_hash, int_equ);
+    hash_record *_active_trace_tblp = &(ste->active_trace_tbl);
+    create_hash(_active_trace_tblp, 100, int_hash, int_equ);
     hash_record *_trace_tblp = &(ste->trace_tbl);
     create_hash(_trace_tblp, 100, int_hash, int_equ);
     rec_mgr     *_trace_event_rec_mgrp = &(ste->trace_event_rec_mgr);
@@ -3748,6 +3763,7 @@ push_ste(ste_ptr ste)
     old_active_weak_tblp = active_weak_tblp;
     old_active_ant_tblp = active_ant_tblp;
     old_active_cons_tblp = active_cons_tblp;
+    old_active_trace_tblp = active_trace_tblp;
     old_trace_tblp = trace_tblp;
     old_trace_event_rec_mgrp = trace_event_rec_mgrp;
     old_event_list_rec_mgrp = event_list_rec_mgrp;
@@ -3772,6 +3788,7 @@ push_ste(ste_ptr ste)
     active_weak_tblp = &(ste->active_weak_tbl);
     active_ant_tblp  = &(ste->active_ant_tbl);
     active_cons_tblp = &(ste->active_cons_tbl);
+    active_trace_tblp = &(ste->active_trace_tbl);
     trace_tblp = &(ste->trace_tbl);
     trace_event_rec_mgrp = &(ste->trace_event_rec_mgr);
     event_list_rec_mgrp = &(ste->event_list_rec_mgr);
@@ -3801,6 +3818,7 @@ pop_ste()
     active_weak_tblp = old_active_weak_tblp;
     active_ant_tblp  = old_active_ant_tblp;
     active_cons_tblp = old_active_cons_tblp;
+    active_trace_tblp = old_active_trace_tblp;
     trace_tblp = old_trace_tblp;
     trace_event_rec_mgrp = old_trace_event_rec_mgrp;
     event_list_rec_mgrp = old_event_list_rec_mgrp;
@@ -4057,6 +4075,7 @@ sweep_ste_fn(void)
 		dispose_hash(&(ste->active_weak_tbl), NULLFCN);
 		dispose_hash(&(ste->active_ant_tbl), NULLFCN);
 		dispose_hash(&(ste->active_cons_tbl), NULLFCN);
+		dispose_hash(&(ste->active_trace_tbl), NULLFCN);
 		dispose_hash(&(ste->trace_tbl), NULLFCN);
 		free_mgr(&(ste->trace_event_rec_mgr));
 		free_mgr(&(ste->event_list_rec_mgr));
@@ -5782,27 +5801,33 @@ add_op_todo(ncomp_ptr cp)
     push_buf(bp, &cp);
 }
 
+// Start a new phase: inputs and the outputs of phase delays get their new
+// values, and the nodes whose antecedent or weakening changed are updated.
 static void
 do_phase(ste_ptr ste)
 {
     nnode_ptr np;
     int idx = 0;
-    (ste->cur_time)++;
     FOR_BUF(nodesp, nnode_rec, np) {
 	gbv newH, newL;
-	if( idx >3 && np->composite == -1 ) {
+	bool change = np->has_ant_or_weak_change;
+	np->has_ant_or_weak_change = FALSE;
+	ncomp_ptr cp = (np->composite < 0)? NULL :
+			(ncomp_ptr) M_LOCATE_BUF(compositesp, np->composite);
+	if( np->composite == -1 && (idx > 3 || change) ) {
 	    // Input
 	    newH = newL = c_ONE;
 	    update_node(ste, idx, newH, newL);
-	} else if( np->has_phase_event ) {
+	} else if( np->has_phase_event || (change && cp && cp->phase_delay) ) {
 	    np->has_phase_event = FALSE;
 	    newH = *(next_buf+2*idx);
 	    newL = *(next_buf+2*idx+1);
 	    update_node(ste, idx, newH, newL);
+	} else if( change && cp ) {
+	    add_op_todo(cp);
 	}
 	idx++;
     }
-    (ste->cur_time)--;
 }
 
 static int
@@ -7254,6 +7279,7 @@ initialize(ste_ptr ste, bool trace_all)
     nnode_ptr np;
     FOR_BUF(nodesp, nnode_rec, np) {
 	np->has_phase_event = FALSE;
+	np->has_ant_or_weak_change = FALSE;
 	np->has_weak = FALSE;
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
@@ -8780,26 +8806,11 @@ gSTE(g_ptr redex, value_type type)
 	}
 
 	process_event(event_bufp, t);
-	nnode_ptr np;
-	// Put nodes whose weak/ant changed on evaluation list.
-	int idx = 0;
-	FOR_BUF(nodesp, nnode_rec, np) {
-	    if( np->has_ant_or_weak_change ) {
-		if( np->composite >= 0 ) {
-		    ncomp_ptr c;
-		    c = (ncomp_ptr) M_LOCATE_BUF(compositesp,np->composite);
-		    add_op_todo(c);
-		} else if( np->composite == -1 ) {
-		    // Input node
-		    update_node(ste, idx, c_ONE, c_ONE);
-		}
-		np->has_ant_or_weak_change = FALSE;
-	    }
-	    idx++;
-	}
+	do_phase(ste);
 	do_combinational(ste);
 	// Do consequents and traces
-	idx = 0;
+	nnode_ptr np;
+	int idx = 0;
 	FOR_BUF(nodesp, nnode_rec, np) {
 	    if( np->has_cons ) {
 		gbv curH = *(cur_buf+2*idx);
@@ -8866,7 +8877,6 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
diff --git a/src/bin/fl/fsm.h b/src/bin/fl/fsm.h
index e780347..6eff148 100644
--- a/src/bin/fl/fsm.h
+++ b/src/bin/fl/fsm.h
@@ -255,6 +255,7 @@ typedef struct ste_rec {
     hash_record	active_weak_tbl;	// TYPE: pint -> event_list_ptr
     hash_record	active_ant_tbl;		// TYPE: pint -> event_list_ptr
     hash_record	active_cons_tbl;	// TYPE: pint -> event_list_ptr
+    hash_record	active_trace_tbl;	// TYPE: pint -> event_list_ptr
     rec_mgr	trace_event_rec_mgr;	// TYPE: trace_event_rec
     rec_mgr	trace_rec_mgr;		// TYPE: trace_rec
     rec_mgr	event_rec_mgr;		// TYPE: event_rec
-- 
2.43.0


From 9e87d5d59a588dd7c3516012a01856566d1e25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:25 +0000
Subject: [PATCH 31/38] fix: STE runs that ended early left the simulation
 state behind

---
 src/bin/fl/fsm.c | 95 ++++++++++++++++++------------------------------
 1 file changed, 36 insertions(+), 59 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index bd834cf..579f84f 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -7228,14 +7228,7 @@ update_node(ste_ptr ste, int idx, gbv Hnew, gbv Lnew)
 		    gbv v = ste->validTrajectory;
 		    v = c_AND(v, c_OR(Hnew, Lnew));
 		    ste->validTrajectory = v;
-		    ste->max_time = ste->cur_time;
-		    ste->active = FALSE;
-		    if( gui_mode ) {
-			Sprintf(buf, "simulation_end");
-			Info_to_tcl(buf);
-		    }
-		    pop_fsm();
-		    kill(getpid(), SIGINT);
+		    quit_simulation_early = TRUE;
 		    return 0;
 		}
 	    }
@@ -8587,6 +8580,25 @@ free_ste_buffers()
     next_buf = NULL;
 }
 
+static void
+end_simulation(ste_ptr ste, int max_time, void (*old_handler)())
+{
+    free_ste_buffers();
+    for(unint i = 0; i < COUNT_BUF(sim_wheel_bufp); i++) {
+	free_buf((buffer *) M_LOCATE_BUF(sim_wheel_bufp, i));
+    }
+    free_buf(sim_wheel_bufp);
+    ste->max_time = max_time;
+    ste->active = FALSE;
+    if( RCprint_time && gui_mode ) {
+	Sprintf(buf, "simulation_end");
+	Info_to_tcl(buf);
+    }
+    signal(SIGINT, old_handler);
+    End_string_ops(sop);
+    pop_fsm();
+}
+
 static void
 simulation_break_handler()
 {
@@ -8712,10 +8724,7 @@ gSTE(g_ptr redex, value_type type)
     //
     MAKE_REDEX_EXT_OBJ(redex, ste_oidx, ste);
     if( !ok || quit_simulation_early ) {
-	ste->max_time = 0;
-	pop_fsm();
-	End_string_ops(sop);
-	signal(SIGINT, old_handler);
+	end_simulation(ste, 0, old_handler);
 	return;
     }
     ste->active = TRUE;
@@ -8730,25 +8739,15 @@ gSTE(g_ptr redex, value_type type)
 	} else {
 	    MAKE_REDEX_FAILURE(redex, Fail_pr("Initialization failed"));
 	}
-	free_ste_buffers();
-	ste->max_time = 0;
-	ste->active = FALSE;
-	pop_fsm();
-	End_string_ops(sop);
-	signal(SIGINT, old_handler);
+	RCverbose_ste_run = old_RCverbose_ste_run;
+	end_simulation(ste, 0, old_handler);
 	return;
     }
     RCverbose_ste_run = old_RCverbose_ste_run;
  
     // Is there anything to run?
     if( COUNT_BUF(event_bufp) == 0 ) {
-	MAKE_REDEX_EXT_OBJ(redex, ste_oidx, ste);
-	ste->max_time = 0;
-	free_ste_buffers();
-	ste->active = FALSE;
-	End_string_ops(sop);
-	pop_fsm();
-	signal(SIGINT, old_handler);
+	end_simulation(ste, 0, old_handler);
 	return;
     }
     //
@@ -8773,13 +8772,9 @@ gSTE(g_ptr redex, value_type type)
 	ste->cur_time = t;
 	(void) SIM_POINT(SIM_STE_STEP);
 	if( t > abort_time || quit_simulation_early ) {
-	    if( gui_mode ) {
-		Sprintf(buf, "simulation_end");
-		Info_to_tcl(buf);
-	    }
-	    FP(warning_fp, "Simulation interrupted at time %d\n", abort_time);
-	    ste->active = FALSE;
-	    signal(SIGINT, old_handler);
+	    FP(warning_fp, "Simulation interrupted at time %d\n",
+			   quit_simulation_early? t : abort_time);
+	    end_simulation(ste, t, old_handler);
 	    return;
 	}
 	if( RCprint_time ) {
@@ -8792,22 +8787,19 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	}
 	if ( stop_node_active(stop_idx) ) {
-	    ste->max_time = t;
-	    free_ste_buffers();
-	    ste->active = FALSE;
-	    if( gui_mode ) {
-		Sprintf(buf, "simulation_end");
-		Info_to_tcl(buf);
-	    }
-	    signal(SIGINT, old_handler);
-	    End_string_ops(sop);
-	    pop_fsm();
+	    end_simulation(ste, t, old_handler);
 	    return;
 	}
 
 	process_event(event_bufp, t);
 	do_phase(ste);
 	do_combinational(ste);
+	if( quit_simulation_early ) {
+	    // This phase was not completed
+	    FP(warning_fp, "Simulation interrupted at time %d\n", t);
+	    end_simulation(ste, t, old_handler);
+	    return;
+	}
 	// Do consequents and traces
 	nnode_ptr np;
 	int idx = 0;
@@ -8854,13 +8846,7 @@ gSTE(g_ptr redex, value_type type)
 			    v = c_AND(v, c_OR(c_NOT(curH), chkH));
 			    v = c_AND(v, c_OR(c_NOT(curL), chkL));
 			    ste->checkTrajectory = v;
-			    if( gui_mode ) {
-				Sprintf(buf, "simulation_end");
-				Info_to_tcl(buf);
-			    }
-			    ste->active = FALSE;
-			    ste->max_time = t;
-			    signal(SIGINT, old_handler);
+			    end_simulation(ste, t, old_handler);
 			    return;
 			}
 		    }
@@ -8880,16 +8866,7 @@ gSTE(g_ptr redex, value_type type)
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
-    ste->max_time = max_time;
-    free_ste_buffers();
-    ste->active = FALSE;
-    if( gui_mode ) {
-	Sprintf(buf, "simulation_end");
-	Info_to_tcl(buf);
-    }
-    signal(SIGINT, old_handler);
-    End_string_ops(sop);
-    pop_fsm();
+    end_simulation(ste, max_time, old_handler);
 }
 
 void
-- 
2.43.0


From 5855398784eccf422cb7254212ce0ad0b89d4ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 32/38] fix: output longer than 16384 characters was truncated,
 and overflowed a buffer in graphical mode

---
 src/bin/fl/error.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/bin/fl/error.c b/src/bin/fl/error.c
index 077360f..385d03c 100644
--- a/src/bin/fl/error.c
+++ b/src/bin/fl/error.c
@@ -26,7 +26,8 @@ extern int		RCmax_stack_trace_entries;
 /***** PRIVATE VARIABLES *****/
 #define FBUF_MAX_SZ 16384
 static char fbuf[FBUF_MAX_SZ+1];
-static char safe_buf[2*FBUF_MAX_SZ];
+static string safe_buf = NULL;
+static size_t safe_buf_size = 0;
 
 /************************************************************************/
 /*			GLOBAL FUNCTIONS				*/
@@ -39,24 +40,31 @@ FP_va(odests fp, const string format, va_list arg)
     if( fp == FILE_fp ) {
         vfprintf(odests_fp, format, arg);
     } else {
-	vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
+	string txt = fbuf;
+	va_list arg_again;
+	va_copy(arg_again, arg);
+	int len = vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
+	if( len >= FBUF_MAX_SZ ) {
+	    txt = Malloc(len+1);
+	    vsnprintf(txt, len+1, format, arg_again);
+	}
+	va_end(arg_again);
         if( !gui_mode || use_stdout ) {
             switch( fp ) {
                 case fl_gc_fp:
                 case bdd_gc_fp:
                 case stdout_fp:
                 case warning_fp:
-                    fprintf(stdout, "%s", fbuf); break;
+                    fprintf(stdout, "%s", txt); break;
                 case sim_fp:
                 case err_fp:
-                    fprintf(stderr, "%s", fbuf); break;
+                    fprintf(stderr, "%s", txt); break;
                 default:
-                    fprintf(stderr, "%s", fbuf); break;
+                    fprintf(stderr, "%s", txt); break;
             }
         }
         if( gui_mode ) {
-	    string safe_buf = make_tcl_safe(fbuf);
-            string tmp = protect(safe_buf, NULL);
+	    string tmp = protect(make_tcl_safe(txt), NULL);
             switch( fp ) {
                 case stdout_fp:
                     fprintf(to_tcl_fp, "WriteStdOut {%s}\n", tmp); break;
@@ -75,7 +83,7 @@ FP_va(odests fp, const string format, va_list arg)
             }
             fflush(to_tcl_fp);
         }
-
+	if( txt != fbuf ) { Free(txt); }
     }
 }
 
@@ -292,6 +300,12 @@ DBG_printf(const string format, ...)
 string
 make_tcl_safe(string s)
 {
+    // Every character might need to be protected
+    size_t needed = 2*strlen(s)+1;
+    if( needed > safe_buf_size ) {
+	safe_buf_size = 2*needed;
+	safe_buf = Realloc(safe_buf, safe_buf_size);
+    }
     string r = safe_buf;
     int active_bsl = 0;
     while( *s ) {
-- 
2.43.0


From b164fbe8d51b2e9a29e8423e9aa83317d814546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 33/38] fix: partial, merged and long lines from the front end,
 output lost when it was slow, and interrupts of idle sessions and callbacks

Lines were read with fgets from non-blocking streams: a line that arrived in parts was taken as several, lines that arrived together were not seen by poll, and writes that met a full connection were lost. Interrupts during idle callbacks jumped into a frame that was gone, callbacks cut off by an interrupt were never answered, and callbacks served inside the interrupt question corrupted the interrupted evaluation. tcl_eval [] crashed.
---
 src/bin/fl/fl.c    | 235 ++++++++++++++++++++++++++++-----------------
 src/bin/fl/graph.c |   7 +-
 2 files changed, 149 insertions(+), 93 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index d07b9f5..3f3f5af 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -52,7 +52,6 @@ string	    *fl_args;
 FILE        *to_tcl_fp;
 FILE        *sync_to_tcl_fp;
 FILE        *cmd_from_tcl_fp;
-FILE        *callback_from_tcl_fp;
 FILE        *callback_from_tcl_fp_res;
 
 /* ===================== Global variables referenced ===================== */
@@ -72,9 +71,20 @@ bool	perform_fl_command(string txt, bool restore_line_nbr);
 //
 static char             buf[TCL_CMD_BUF_SZ];
 static char             path_buf[PATH_MAX+1];
-static char             parse_buf[6*TCL_CMD_BUF_SZ];
 static char             stdin_buf[2*TCL_CMD_BUF_SZ];
 static char		tcl_buf[TCL_PRINTF_BUF_SZ+1];
+// What has been received from the front end but not yet been used.
+typedef struct tcl_conn_rec {
+    int	    fd;
+    string  text;
+    size_t  used;
+    size_t  size;
+} tcl_conn_rec, *tcl_conn_ptr;
+static tcl_conn_rec	sync_conn;
+static tcl_conn_rec	cmd_conn;
+static tcl_conn_rec	callback_conn;
+static buffer		pending_callbacks;	// Ids of callbacks not yet answered
+static int		serving_interrupts = 0;
 static string 		use_window		= NULL;
 static string 		start_file		= NULL;
 static string 		input_file_for_cmds     = NULL;
@@ -180,17 +190,95 @@ Mk_output_file_in_tmp_dir(string prefix, FILE **fpp, string *filename)
     return(TRUE);
 }
 
+// Is there a complete line from the front end?
+static bool
+line_available(tcl_conn_ptr cp)
+{
+    while( cp->used == 0 || memchr(cp->text, '\n', cp->used) == NULL ) {
+	if( cp->size - cp->used < TCL_CMD_BUF_SZ ) {
+	    cp->size = 2*cp->size + TCL_CMD_BUF_SZ;
+	    cp->text = Realloc(cp->text, cp->size);
+	}
+	ssize_t cnt = recv(cp->fd, cp->text + cp->used, cp->size - cp->used,
+			   MSG_DONTWAIT);
+	if( cnt <= 0 ) { return FALSE; }
+	cp->used += cnt;
+    }
+    return TRUE;
+}
+
+// Get the next line (without newline) from the front end. To be freed.
 static string
-read_line(FILE *fp, bool once)
+get_line(tcl_conn_ptr cp)
 {
-    while(1) {
-	string s = fgets(buf,TCL_CMD_BUF_SZ-1, fp);
-	if( s != NULL || once ) { return s; }
-	if( errno != EWOULDBLOCK ) {
-	    buf[0] = 0;
-	    return buf;
+    while( !line_available(cp) ) {
+	struct pollfd pfd;
+	pfd.fd = cp->fd;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	if( poll(&pfd, 1, -1) == 1 && pfd.revents != POLLIN ) {
+	    // The front end is gone
+	    return( strdup("") );
 	}
     }
+    size_t len = (string) memchr(cp->text, '\n', cp->used) - cp->text;
+    string line = Malloc(len+1);
+    memcpy(line, cp->text, len);
+    line[len] = 0;
+    cp->used -= len+1;
+    memmove(cp->text, cp->text+len+1, cp->used);
+    return line;
+}
+
+// Serve the next callback
+static void
+serve_callback()
+{
+    string line = get_line(&callback_conn);
+    string start;
+    int rid = (int) strtol(line, &start, 10);
+    if( serving_interrupts > 0 ) {
+	// The interrupted evaluation might be in the middle of updating
+	// something the callback needs.
+	fprintf(callback_from_tcl_fp_res, "%d 0%s\n",
+		rid, protect("Interrupt being handled", NULL));
+    } else {
+	push_buf(&pending_callbacks, &rid);
+	Tcl_callback_eval(start, rid, callback_from_tcl_fp_res);
+	pop_buf(&pending_callbacks, NULL);
+    }
+    fflush(callback_from_tcl_fp_res);
+    Free(line);
+}
+
+// Serve the next callback when no evaluation is going on
+static void
+serve_toplevel_callback()
+{
+    if( setjmp(toplevel_eval_env) == 0 ) {
+	// (an interrupt might have served it already)
+	if( line_available(&callback_conn) ) { serve_callback(); }
+    }
+}
+
+// Check for an interrupt when no evaluation is going on
+static void
+check_for_toplevel_interrupt()
+{
+    if( setjmp(toplevel_eval_env) == 0 ) { CHECK_FOR_INTERRUPT; }
+}
+
+// The callbacks being evaluated will never be completed
+static void
+fail_pending_callbacks()
+{
+    int rid;
+    while( COUNT_BUF(&pending_callbacks) > 0 ) {
+	pop_buf(&pending_callbacks, &rid);
+	fprintf(callback_from_tcl_fp_res, "%d 0%s\n",
+		rid, protect("Interrupted", NULL));
+    }
+    fflush(callback_from_tcl_fp_res);
 }
 
 int
@@ -594,10 +682,10 @@ fl_main(int argc, char *argv[])
             struct pollfd fds[3];
             int source_cnt = 2;
 	    FILE *fp = NULL;
-            fds[0].fd = fileno(cmd_from_tcl_fp);
+            fds[0].fd = cmd_conn.fd;
             fds[0].events = POLLIN;
             fds[0].revents = 0;
-            fds[1].fd = fileno(callback_from_tcl_fp);
+            fds[1].fd = callback_conn.fd;
             fds[1].events = POLLIN;
             fds[1].revents = 0;
 	    if( input_file_for_cmds_fp != NULL ) {
@@ -617,74 +705,58 @@ fl_main(int argc, char *argv[])
             int poll_res;
 
           restart_inp:
-	    while( (poll_res = poll(fds, source_cnt, -1)) < 1 ) {
-		CHECK_FOR_INTERRUPT;
-	    }
-	  process_more:
-            poll_res = 99;
-            for(int i = 0; i < source_cnt; i++) {
-                if( poll_res == 99 && fds[i].revents == POLLIN ) {
-                    poll_res = i;
-		    break;
+	    // Complete lines may have arrived together with earlier ones
+	    if( line_available(&cmd_conn) ) {
+		poll_res = 0;
+	    } else if( line_available(&callback_conn) ) {
+		poll_res = 1;
+	    } else {
+		if( poll(fds, source_cnt, -1) < 1 ||
+		    source_cnt < 3 || fds[2].revents != POLLIN )
+		{
+		    check_for_toplevel_interrupt();
+		    goto restart_inp;
 		}
-            }
-	    if( poll_res == 99 ) { goto restart_inp; }
-	    CHECK_FOR_INTERRUPT;
+		poll_res = 2;
+	    }
+	    check_for_toplevel_interrupt();
             switch( poll_res ) {
                 case 0: {
                     // Command(s) to be executed (coming from cmd_from_tcl_fp)
-		    string cur_start = strtemp("");
 		    // Get number of lines
-		    string s = read_line(cmd_from_tcl_fp, FALSE);
-		    int lines = atoi(s);
+		    string line = get_line(&cmd_conn);
+		    int lines = atoi(line);
+		    Free(line);
 		    tstr_ptr tstrings = new_temp_str_mgr();
-		    int sz = 0;
 		    string res = gen_strtemp(tstrings, "");
 		    for(int i = 0; i < lines; i++) {
-			string s = read_line(cmd_from_tcl_fp, FALSE);
-			sz += strlen(s);
-			if( sz >= TCL_CMD_BUF_SZ ) {
-			    Wprintf("Too long command. Ignored.");
-			    while(fgets(buf, TCL_CMD_BUF_SZ-1, cmd_from_tcl_fp))
-				;
-			    fprintf(cmd_from_tcl_fp, "{1 0 0}\n");
-			    fflush(cmd_from_tcl_fp);
-			    goto process_more;
-			}
-			gen_strappend(tstrings, buf);
+			line = get_line(&cmd_conn);
+			gen_strappend(tstrings, line);
+			res = gen_charappend(tstrings, '\n');
+			Free(line);
 		    }
-		    cur_start = unprotect(res);
+		    string cmds = strdup(unprotect(res));
 		    free_temp_str_mgr(tstrings);
-		    strcpy(parse_buf, cur_start);
-
-		    clearerr(cmd_from_tcl_fp);
-		    if( !process_commands(parse_buf, FALSE) ) {
+		    if( !process_commands(cmds, FALSE) ) {
 			fprintf(cmd_from_tcl_fp, "{0 0 0}\n");
 		    } else {
 			fprintf(cmd_from_tcl_fp, "{1 0 %d}\n",
 						 (int) strlen(stdin_buf));
 		    }
                     fflush(cmd_from_tcl_fp);
+		    Free(cmds);
                 }
                 break;
                 case 1: {
                     // Callback to execute (coming from callback_from_tcl_fp)
-                    string s = read_line(callback_from_tcl_fp, FALSE);
-		    if( s == NULL ) {
-			break;
-		    }
-                    buf[strlen(s)-1] = 0;
-		    string start;
-		    int rid = (int) strtol(buf, &start, 10);
-		    Tcl_callback_eval(start, rid, callback_from_tcl_fp_res);
-                    fflush(callback_from_tcl_fp_res);
+		    serve_toplevel_callback();
                 }
                 break;
                 case 2: {
                     // Input from stdin or file
 		    fprintf(to_tcl_fp, "prepare_for_stdin\n");
 		    fflush(to_tcl_fp);
-		    while( read_line(fp, TRUE) ) {
+		    while( fgets(buf, TCL_CMD_BUF_SZ-1, fp) != NULL ) {
 			size_t used = strlen(stdin_buf);
 			size_t req  = strlen(buf);
 			// Remove comments if too many...
@@ -713,7 +785,7 @@ fl_main(int argc, char *argv[])
 			string res = strcat(stdin_buf, buf);
 			if( !process_commands(res, TRUE) ) {
 			    stdin_buf[0] = 0;
-			    goto process_more;
+			    break;
 			}
 		    }
                 }
@@ -909,7 +981,9 @@ Serve_Interrupt()
         while(1) {
 	    string res = NULL;
             Sprintf(buf, "voss2_interrupt_action");
+	    serving_interrupts++;
             Send_to_tcl(buf, &res);
+	    serving_interrupts--;
             switch( *res ) {
                     case 'c': {
 			    free(res);
@@ -924,6 +998,8 @@ Serve_Interrupt()
 			    free(res);
 			    res = NULL;
 			    Reset_eval_context();
+			    fail_pending_callbacks();
+			    serving_interrupts = 0;
                             Emit_prompt("\n");
                             longjmp(toplevel_eval_env, 2);
 			    break;
@@ -1049,30 +1125,25 @@ setup_sockets()
         Eprintf("failed to accept\n");
         fprintf(stderr, "Error: %s\n", strerror(errno));
     }
-    fcntl(connfd0, F_SETFL, O_NONBLOCK);
-    sync_to_tcl_fp = fdopen(connfd0, "r+");
+    sync_to_tcl_fp = fdopen(connfd0, "w");
     setvbuf(sync_to_tcl_fp, NULL, _IOLBF, 1000);
+    sync_conn.fd = connfd0;
 
     int connfd1 = accept(listenfd, (struct sockaddr*)NULL, NULL);
-    fcntl(connfd1, F_SETFL, O_NONBLOCK);
-    to_tcl_fp = fdopen(connfd1, "r+");
+    to_tcl_fp = fdopen(connfd1, "w");
     setvbuf(to_tcl_fp, NULL, _IOLBF, 1000);
 
     int connfd2 = accept(listenfd, (struct sockaddr*)NULL, NULL);
-    fcntl(connfd2, F_SETFL, O_NONBLOCK);
-    cmd_from_tcl_fp = fdopen(connfd2, "r+");
+    cmd_from_tcl_fp = fdopen(connfd2, "w");
     setvbuf(cmd_from_tcl_fp, NULL, _IOLBF, 1000);
+    cmd_conn.fd = connfd2;
 
-    int connfd3 = accept(listenfd, (struct sockaddr*)NULL, NULL);
-    fcntl(connfd3, F_SETFL, O_NONBLOCK);
-    callback_from_tcl_fp = fdopen(connfd3, "r+");
-    setvbuf(callback_from_tcl_fp, NULL, _IOLBF, 1000);
+    callback_conn.fd = accept(listenfd, (struct sockaddr*)NULL, NULL);
 
     int connfd4 = accept(listenfd, (struct sockaddr*)NULL, NULL);
-    fcntl(connfd4, F_SETFL, O_NONBLOCK);
     callback_from_tcl_fp_res = fdopen(connfd4, "w");
     setvbuf(callback_from_tcl_fp_res, NULL, _IOLBF, 1000);
-
+    new_buf(&pending_callbacks, 10, sizeof(int));
 }
 
 
@@ -1192,37 +1263,25 @@ Send_to_tcl(string cmd, string *resp)
             return ok;
         }
 	// Check for results (might be an earlier tcl_eval's result!)
-	string s;
-	if( (s = fgets(buf, TCL_CMD_BUF_SZ-1, sync_to_tcl_fp)) != NULL ) {
-            bool ok = (*s == '0')? TRUE : FALSE;
-	    string p = buf+1;
+	if( line_available(&sync_conn) ) {
+	    string line = get_line(&sync_conn);
+            int ok = (*line == '0')? TRUE : FALSE;
+	    string p = line;
+	    if( *p ) p++;
 	    int rid = 0;
 	    while( *p && isdigit(*p) ) {
 		rid = 10*rid + *p - '0';
 		p++;
 	    }
-	    p++;
+	    if( *p ) p++;
 	    ASSERT(rid <= tcl_eval_depth);
 	    store_buf(&tcl_eval_done_buf, rid, &ok);
-	    if( *(p+strlen(p)-1) != '\n' ) {
-		// Too long return value to fit in the buffer
-		int c;
-		while( (c = fgetc(sync_to_tcl_fp)) != EOF && c != '\n' ) ;
-		FP(err_fp,
-		   "WARNING: tcl_eval return value too long. Truncated.\n");
-	    }
-	    string res = unprotect(p);
-	    int len = strlen(res);
-	    string fres = Malloc(len+1);
-	    strncpy(fres, res, len+1);
+	    string fres = strdup(unprotect(p));
 	    store_buf(&tcl_eval_result_buf, rid, &fres);
+	    Free(line);
 	}
-	if( (s = fgets(buf, TCL_CMD_BUF_SZ-1, callback_from_tcl_fp)) != NULL ) {
-            buf[strlen(s)-1] = 0;
-	    string start;
-	    int rid = (int) strtol(buf, &start, 10);
-	    Tcl_callback_eval(start, rid, callback_from_tcl_fp_res);
-            fflush(callback_from_tcl_fp_res);
+	if( line_available(&callback_conn) ) {
+	    serve_callback();
         }
 	CHECK_FOR_INTERRUPT;
     }
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 9492889..f73fb8d 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3902,11 +3902,8 @@ traverse_left(g_ptr oroot)
                         }
                         SET_TYPE(redex, LEAF);
                         SET_LEAF_TYPE(redex, STRING);
-			int len = strlen(res);
-			if( *(res+len-1) == '\n' ) {
-			    *(res+len-1) = 0;
-			}
-                        SET_STRING(redex, wastrsave(stringsp, res));
+			SET_STRING(redex, wastrsave(stringsp,
+						    res == NULL? "" : res));
 			free(res);
                         goto finish1; 
                     }
-- 
2.43.0


From f29407221e2751f5fc4177d2094152d547baa205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 34/38] fix: translation of values to and from the front end:
 large integers, empty strings, symbolic Booleans, references, object ids,
 long results and incomplete \u escapes

---
 src/bin/fl/fl.c         |  30 ++++--
 src/bin/fl/remote_tcl.c | 228 ++++++++++++++--------------------------
 2 files changed, 102 insertions(+), 156 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index 3f3f5af..83c555e 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -109,6 +109,7 @@ static void	print_help();
 static bool	process_commands(string bufp, bool verbose);
 static int	call_fl_inside_setjmp(string cur_start, bool *okp);
 static string	get_xresource(string resource, string default_res);
+static bool	is_unicode_escape(string s);
 
 /* ===================== Global functions defined ===================== */
 void
@@ -907,9 +908,16 @@ Tcl_printf (FILE *tcl_fp, const string format, ...)
 {
     va_list arg;
     va_start(arg, format);
-    vsnprintf(tcl_buf, TCL_PRINTF_BUF_SZ, format, arg);
+    int len = vsnprintf(tcl_buf, TCL_PRINTF_BUF_SZ, format, arg);
     va_end(arg);
-    string p = tcl_buf;
+    string txt = tcl_buf;
+    if( len >= TCL_PRINTF_BUF_SZ ) {
+	txt = Malloc(len+1);
+	va_start(arg, format);
+	vsnprintf(txt, len+1, format, arg);
+	va_end(arg);
+    }
+    string p = txt;
     while( *p ) {
         switch( *p ) {
             case '\r':
@@ -933,8 +941,7 @@ Tcl_printf (FILE *tcl_fp, const string format, ...)
             case '\\':
                 p++;
                 if( *p && *p == 'u' ) {
-                    unsigned int ch;
-                    if( sscanf(p, "u%04x", &ch) == 1 ) {
+                    if( is_unicode_escape(p-1) ) {
                         p--;
                         char tmp = *(p+6);
                         *(p+6) = 0;
@@ -954,6 +961,7 @@ Tcl_printf (FILE *tcl_fp, const string format, ...)
                 break;
         }
     }
+    if( txt != tcl_buf ) { Free(txt); }
 }
 
 /* ==================================================================== */
@@ -1148,6 +1156,17 @@ setup_sockets()
 
 
 
+// Is this the start of an already protected character?
+static bool
+is_unicode_escape(string s)
+{
+    if( s[0] != '\\' || s[1] != 'u' ) { return FALSE; }
+    for(int i = 2; i < 6; i++) {
+	if( !isxdigit((unsigned char) s[i]) ) { return FALSE; }
+    }
+    return TRUE;
+}
+
 string
 protect(string txt, bool *changedp)
 {
@@ -1181,8 +1200,7 @@ protect(string txt, bool *changedp)
             case '\\':
                 p++;
                 if( *p && *p == 'u' ) {
-                    unsigned int ch;
-                    if( sscanf(p, "u%04x", &ch) == 1 ) {
+                    if( is_unicode_escape(p-1) ) {
                         p--;
                         char tmp = *(p+6);
                         *(p+6) = 0;
diff --git a/src/bin/fl/remote_tcl.c b/src/bin/fl/remote_tcl.c
index 0812f54..c989251 100644
--- a/src/bin/fl/remote_tcl.c
+++ b/src/bin/fl/remote_tcl.c
@@ -34,12 +34,12 @@ static buffer	    tclids;
 /************************************************************************/
 /*			Local Functions					*/
 /************************************************************************/
-static bool     parse_int(string s, int *resp);
+static bool     parse_int(string s, arbi_T *resp);
 static bool     parse_bool(string s, formula *resp);
 static bool     get_end_of_item(string s, string *endp);
 static bool     tcl_to_g_ptr(string txt, typeExp_ptr arg_type, g_ptr *resp);
-static void     g_ptr2tcl(g_ptr np, typeExp_ptr type, FILE *tcl_fp);
-static void	g_ptr2str4tcl(g_ptr np, typeExp_ptr type, tstr_ptr tmp_str_mgr);
+static bool	g_ptr2str4tcl(g_ptr np, typeExp_ptr type, bool word,
+			      tstr_ptr tmp_str_mgr);
 static bool     ok_tcl_callback_type(typeExp_ptr type);
 static unint	g_ptr_hash(pointer p, unint n);
 static bool	g_ptr_equ(pointer p1, pointer p2);
@@ -133,15 +133,23 @@ call_tcl_fun(g_ptr redex)
     typeExp_ptr type = Get_ExtAPI_Type(id);
     //
     tstr_ptr tmp_str_mgr = new_temp_str_mgr();
-    string cmd = gen_tprintf(tmp_str_mgr, "%s", fun_name);
+    gen_tprintf(tmp_str_mgr, "%s", fun_name);
     while( type->typeOp == arrow_tp ) {
 	g_ptr arg;
 	pop_buf(&args, &arg);
 	typeExp_ptr arg_type = type->typelist->type;
-	gen_tappend(tmp_str_mgr, " ");
-	g_ptr2str4tcl(arg, arg_type, tmp_str_mgr);
+	gen_strappend(tmp_str_mgr, " ");
+	if( !g_ptr2str4tcl(arg, arg_type, TRUE, tmp_str_mgr) ) {
+	    MAKE_REDEX_FAILURE(redex,
+		Fail_pr("Symbolic Boolean argument for Tcl function %s",
+			fun_name));
+	    free_temp_str_mgr(tmp_str_mgr);
+	    free_buf(&args);
+	    return;
+	}
 	type = Get_Real_Type(type->typelist->next->type);
     }
+    string cmd = gen_strappend(tmp_str_mgr, "");
     string str_res = NULL;
     if( !Send_to_tcl(cmd, &str_res) ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Tcl function %s failed", fun_name));
@@ -150,10 +158,6 @@ call_tcl_fun(g_ptr redex)
 	free(str_res);
 	return;
     }
-    int len = strlen(str_res);
-    if( *(str_res+len-1) == '\n' ) {
-	*(str_res+len-1) = 0;
-    }
     g_ptr g_res;
     if( !tcl_to_g_ptr(str_res, type, &g_res) ) {
 	MAKE_REDEX_FAILURE(redex,
@@ -200,7 +204,14 @@ Tcl_callback_eval(string cmd, int rid, FILE *tcl_fp)
     tstr_ptr tstrings = new_temp_str_mgr();
     tcl_callback_ptr tcp;
     // Find callback function
+    if( fun_idx >= (int) COUNT_BUF(&tcl_callback_buf) ) {
+	Fail_pr("Not a valid callback function (%s)", cmd);
+	fprintf(tcl_fp,"%d 0%s\n", rid, protect(FailBuf, NULL));
+	free_temp_str_mgr(tstrings);
+	return;
+    }
     tcp = (tcl_callback_ptr) M_LOCATE_BUF(&tcl_callback_buf,fun_idx);
+    string name = tcp->name;
     typeExp_ptr type = tcp->type;
     g_ptr redex = tcp->fun;
     SET_REFCNT(redex, MAX_REF_CNT);
@@ -213,7 +224,7 @@ Tcl_callback_eval(string cmd, int rid, FILE *tcl_fp)
         string start = p; 
 	if( *start == 0 ) {
             Fail_pr("Argument %d missing for callback function %s",
-		    arg_cnt+1, tcp->name);
+		    arg_cnt+1, name);
 	    fprintf(tcl_fp,"%d 0%s\n", rid, protect(FailBuf, NULL));
             free_temp_str_mgr(tstrings);
 	    return;
@@ -229,7 +240,7 @@ Tcl_callback_eval(string cmd, int rid, FILE *tcl_fp)
         g_ptr arg = NULL;
         if( !tcl_to_g_ptr(arg_s, arg_type, &arg) ) {
             Fail_pr("Argument %d is of wrong type in tcl function %s",
-                    arg_cnt, tcp->name);
+                    arg_cnt, name);
 	    fprintf(tcl_fp,"%d 0%s\n", rid, protect(FailBuf, NULL));
             free_temp_str_mgr(tstrings);
 	    return;
@@ -244,7 +255,7 @@ Tcl_callback_eval(string cmd, int rid, FILE *tcl_fp)
     if( is_fail(redex) ) {
 	fprintf(tcl_fp, "%d 0", rid);
 	Tcl_printf(tcl_fp, "%s\nIn fl callback function %s\n",
-			   FailBuf, tcp->name);
+			   FailBuf, name);
 	fprintf(tcl_fp, "\n");
 	return;
     } else {
@@ -252,9 +263,18 @@ Tcl_callback_eval(string cmd, int rid, FILE *tcl_fp)
 	while( type->typeOp == arrow_tp ) {
 	    type = Get_Real_Type(type->typelist->next->type);
 	}
-	fprintf(tcl_fp, "%d 1", rid);
-	g_ptr2tcl(redex, type, tcl_fp);
+	tstrings = new_temp_str_mgr();
+	gen_strtemp(tstrings, "");
+	if( g_ptr2str4tcl(redex, type, FALSE, tstrings) ) {
+	    fprintf(tcl_fp, "%d 1", rid);
+	    Tcl_printf(tcl_fp, "%s", gen_strappend(tstrings, ""));
+	} else {
+	    Fail_pr("Symbolic Boolean result from fl callback function %s",
+		    name);
+	    fprintf(tcl_fp,"%d 0%s", rid, protect(FailBuf, NULL));
+	}
 	fprintf(tcl_fp, "\n");
+	free_temp_str_mgr(tstrings);
 	return;
     }
 }
@@ -281,35 +301,17 @@ Mark_tcl_callbacks()
 /************************************************************************/
 
 static bool
-parse_int(string s, int *resp)
+parse_int(string s, arbi_T *resp)
 {
-    int neg = 1;
-    if( *s && *s == '-' ) {
-        neg = -1;
-        s++;
+    string p = s;
+    if( *p == '-' ) { p++; }
+    if( *p == 0 ) { return FALSE; }
+    while( *p ) {
+	if( !isdigit((unsigned char) *p) ) { return FALSE; }
+	p++;
     }
-    int i = 0;
-    while( *s ) {
-        switch( *s ) {
-            case '0':
-            case '1':
-            case '2':
-            case '3':
-            case '4':
-            case '5':
-            case '6':
-            case '7':
-            case '8':
-            case '9':
-                i = 10*i + (*s-'0');
-                s++;
-                break;
-            default:
-                return( FALSE );
-        }
-    }
-    *resp = neg * i;
-    return(TRUE);
+    *resp = Arbi_FromString(s, 10);
+    return TRUE;
 }
 
 static bool
@@ -417,9 +419,9 @@ tcl_to_g_ptr(string txt, typeExp_ptr type, g_ptr *resp)
             }
         case int_tp:
             {
-                int res;
+                arbi_T res;
                 if( !parse_int(txt, &res) ) { return FALSE; }
-                *resp = Make_INT_leaf(res);
+                *resp = Make_AINT_leaf(res);
                 return TRUE;
             }
         case bool_tp:
@@ -483,11 +485,11 @@ tcl_to_g_ptr(string txt, typeExp_ptr type, g_ptr *resp)
 		    return TRUE;
 		}
 		unint	obj_id;
-		if( sscanf(txt, "_FlObJeCt_%d", &obj_id) != 1 ) {
+		if( sscanf(txt, "_FlObJeCt_%u", &obj_id) != 1 ) {
 		    Fail_pr("Not a valid object id (%s)", txt);
 		    return FALSE;
 		}
-		if( obj_id > COUNT_BUF(&tclids) ) {
+		if( obj_id == 0 || obj_id > COUNT_BUF(&tclids) ) {
 		    Fail_pr("Not a valid object id (%s)", txt);
 		    return FALSE;
 		}
@@ -497,88 +499,10 @@ tcl_to_g_ptr(string txt, typeExp_ptr type, g_ptr *resp)
     }
 }
 
-static void
-g_ptr2tcl(g_ptr np, typeExp_ptr type, FILE *tcl_fp)
-{
-    type = Get_Real_Type(type);
-    switch( type->typeOp ) {
-        case string_tp:
-            {
-		string s = GET_STRING(np);
-		bool changed;
-		string s2 = protect(s, &changed);
-		if( changed )
-		    Tcl_printf(tcl_fp, "{%s}", s2);
-		else
-		    Tcl_printf(tcl_fp, "%s", s2);
-                return;
-            }
-        case void_tp:
-	    {
-		Tcl_printf(tcl_fp, "{}");
-                return;
-	    }
-        case int_tp:
-            {
-		Tcl_printf(tcl_fp, "%s", Arbi_ToString(GET_AINT(np),10));
-                return;
-            }
-        case bool_tp:
-            {
-                formula f = GET_BOOL(np);
-                if( f == B_Zero() ) {
-		    Tcl_printf(tcl_fp, "0");
-                    return;
-                } else
-                if( f == B_One() ) {
-		    Tcl_printf(tcl_fp, "1");
-                    return;
-                }
-		DIE("Should never happen!");
-            }
-        case list_tp:
-            {
-                g_ptr li, el;
-                bool first = TRUE;
-		Tcl_printf(tcl_fp, "{");
-                typeExp_ptr etype = Get_Real_Type(type->typelist->type);
-                FOR_CONS(np, li, el) {
-                    if( !first ) Tcl_printf(tcl_fp, " ");
-                    first = FALSE;
-                    g_ptr2tcl(el, etype, tcl_fp);
-                }
-		Tcl_printf(tcl_fp, "}");
-                return;
-            }
-        case tuple_tp:
-            {
-                typeExp_ptr ftype = Get_Real_Type(type->typelist->type);
-		Tcl_printf(tcl_fp, "{");
-                g_ptr2tcl(GET_CONS_HD(np), ftype, tcl_fp);
-                typeExp_ptr stype = Get_Real_Type(type->typelist->next->type);
-                Tcl_printf(tcl_fp, " ");
-                g_ptr2tcl(GET_CONS_TL(np), stype, tcl_fp);
-		Tcl_printf(tcl_fp, "}");
-		return;
-            }
-        default:
-	    {
-		int obj_id = PTR2UINT(find_hash(&gptr2tclid, np));
-		if( obj_id != 0 ) {
-		    Tcl_printf(tcl_fp, "_FlObJeCt_%06d", obj_id);
-		    return;
-		}
-		push_buf(&tclids, &np);
-		obj_id = COUNT_BUF(&tclids);
-		insert_hash(&gptr2tclid, np, INT2PTR(obj_id));
-		Tcl_printf(tcl_fp, "_FlObJeCt_%06d", obj_id);
-		return;
-	    }
-    }
-}
-
-static void
-g_ptr2str4tcl(g_ptr np, typeExp_ptr type, tstr_ptr tmp_str_mgr)
+// Write the value the way Tcl wants it. If word is true, it becomes one of
+// several words of a command or list. Fails for symbolic Booleans.
+static bool
+g_ptr2str4tcl(g_ptr np, typeExp_ptr type, bool word, tstr_ptr tmp_str_mgr)
 {
     type = Get_Real_Type(type);
     switch( type->typeOp ) {
@@ -587,34 +511,34 @@ g_ptr2str4tcl(g_ptr np, typeExp_ptr type, tstr_ptr tmp_str_mgr)
 		string s = GET_STRING(np);
 		bool changed;
 		string s2 = protect(s, &changed);
-		if( changed )
-		    gen_tappend(tmp_str_mgr, "{%s}", s2);
-		else
-		    gen_tappend(tmp_str_mgr, "%s", s2);
-                return;
+		bool braces = changed || (word && *s2 == 0);
+		if( braces ) gen_strappend(tmp_str_mgr, "{");
+		gen_strappend(tmp_str_mgr, s2);
+		if( braces ) gen_strappend(tmp_str_mgr, "}");
+                return TRUE;
             }
         case void_tp:
 	    {
-		gen_tappend(tmp_str_mgr, "{}");
-                return;
+		gen_strappend(tmp_str_mgr, "{}");
+                return TRUE;
 	    }
         case int_tp:
             {
-		gen_tappend(tmp_str_mgr, "%s", Arbi_ToString(GET_AINT(np),10));
-                return;
+		gen_strappend(tmp_str_mgr, Arbi_ToString(GET_AINT(np),10));
+                return TRUE;
             }
         case bool_tp:
             {
                 formula f = GET_BOOL(np);
                 if( f == B_Zero() ) {
 		    gen_tappend(tmp_str_mgr, "0");
-                    return;
+                    return TRUE;
                 } else
                 if( f == B_One() ) {
 		    gen_tappend(tmp_str_mgr, "1");
-                    return;
+                    return TRUE;
                 }
-		DIE("Should never happen!");
+		return FALSE;
             }
         case list_tp:
             {
@@ -625,34 +549,40 @@ g_ptr2str4tcl(g_ptr np, typeExp_ptr type, tstr_ptr tmp_str_mgr)
                 FOR_CONS(np, li, el) {
                     if( !first ) gen_tappend(tmp_str_mgr, " ");
                     first = FALSE;
-                    g_ptr2str4tcl(el, etype, tmp_str_mgr);
+                    if( !g_ptr2str4tcl(el, etype, TRUE, tmp_str_mgr) ) {
+                        return FALSE;
+                    }
                 }
 		gen_tappend(tmp_str_mgr, "}");
-                return;
+                return TRUE;
             }
         case tuple_tp:
             {
                 typeExp_ptr ftype = Get_Real_Type(type->typelist->type);
 		gen_tappend(tmp_str_mgr, "{");
-                g_ptr2str4tcl(GET_CONS_HD(np), ftype, tmp_str_mgr);
+                if( !g_ptr2str4tcl(GET_CONS_HD(np), ftype, TRUE, tmp_str_mgr) ) {
+                    return FALSE;
+                }
                 typeExp_ptr stype = Get_Real_Type(type->typelist->next->type);
                 gen_tappend(tmp_str_mgr, " ");
-                g_ptr2str4tcl(GET_CONS_TL(np), stype, tmp_str_mgr);
+                if( !g_ptr2str4tcl(GET_CONS_TL(np), stype, TRUE, tmp_str_mgr) ) {
+                    return FALSE;
+                }
 		gen_tappend(tmp_str_mgr, "}");
-		return;
+		return TRUE;
             }
         default:
 	    {
 		int obj_id = PTR2UINT(find_hash(&gptr2tclid, np));
 		if( obj_id != 0 ) {
 		    gen_tappend(tmp_str_mgr, "_FlObJeCt_%06d", obj_id);
-		    return;
+		    return TRUE;
 		}
 		push_buf(&tclids, &np);
 		obj_id = COUNT_BUF(&tclids);
 		insert_hash(&gptr2tclid, np, INT2PTR(obj_id));
 		gen_tappend(tmp_str_mgr, "_FlObJeCt_%06d", obj_id);
-		return;
+		return TRUE;
 	    }
     }
 }
@@ -780,9 +710,7 @@ g_ptr_equ(pointer p1, pointer p2)
                     if( GET_PRIM_FN(n1) != GET_PRIM_FN(n2) ) { return FALSE; }
                     switch( GET_PRIM_FN(n1) ) {
                         case P_REF_VAR:
-                            n1 = Get_RefVar(GET_REF_VAR(n1));
-                            n2 = Get_RefVar(GET_REF_VAR(n2));
-			    return( n1 == n2 );
+			    return( GET_REF_VAR(n1) == GET_REF_VAR(n2) );
                         case P_PRINTF:
                         case P_FPRINTF:
                         case P_SPRINTF:
-- 
2.43.0


From 6ff5132eed6b25aa51de37913adc20a1d50514bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:06 +0000
Subject: [PATCH 35/38] fix: lambdas in named arguments and default values, and
 defaults used more than once, ended the session

---
 src/bin/fl/graph.c  |  3 ++-
 src/bin/fl/symbol.c | 28 +++++++++++++++++++++++-----
 src/bin/fl/symbol.h |  3 ++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index f73fb8d..9b1c658 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1336,7 +1336,8 @@ Compile(symbol_tbl_ptr stbl, g_ptr onode, typeExp_ptr type, bool delayed,
 	rp->arg_names = NULL;
 
     /* Add context for non-lazy functions and implicit arguments */
-    g_ptr node = Add_non_lazy_context_and_find_Userdefs(onode, stbl);
+    g_ptr node = Add_non_lazy_context_and_find_Userdefs(onode, stbl,
+						       rp->arg_names);
     if( node == NULL ) {
 	Free_result_ptr(rp);
 	Reset_TypeChecker();
diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index 7264cd0..fa8cfb5 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -45,6 +45,7 @@ static rec_mgr      hash_table_mgr;
 static rec_mgr      oll_rec_mgr;
 static rec_mgr      symb_tbl_mgr;
 static rec_mgr      arg_names_rec_mgr;
+static arg_names_ptr cur_arg_names;
 static char         buf[1024];
 static string       s_star;
 static string       s_CELL;
@@ -629,9 +630,11 @@ top_add_non_lazy_context(buffer *contextp, symbol_tbl_ptr stbl, g_ptr *nodep)
 }
 
 g_ptr
-Add_non_lazy_context_and_find_Userdefs(g_ptr node, symbol_tbl_ptr stbl)
+Add_non_lazy_context_and_find_Userdefs(g_ptr node, symbol_tbl_ptr stbl,
+				       arg_names_ptr arg_names)
 {
     buffer context;
+    cur_arg_names = arg_names;
     new_buf (&context, 100, sizeof(string));
     create_hash(&bound_var_tbl, 100, str_hash, str_equ);
     create_hash(&non_lazy_processed_tbl, 100, ptr_hash, ptr_equ);
@@ -2353,7 +2356,8 @@ add_non_lazy_context_rec(buffer *ctxt, symbol_tbl_ptr stbl, g_ptr node)
 	    // Now process named arguments and defaults
 	    while( ap != NULL ) {
 		F = find_hash(&named_arg_tbl, ap->name);
-		if( F == NULL ) {
+		bool use_default = (F == NULL);
+		if( use_default ) {
 		    F = Copy_Graph(ap->default_value);
 		}
 		if( F == NULL ) {
@@ -2364,7 +2368,9 @@ add_non_lazy_context_rec(buffer *ctxt, symbol_tbl_ptr stbl, g_ptr node)
 		    dispose_hash(&named_arg_tbl, NULLFCN);
 		    longjmp(context_env, 1);
 		}
-		F = add_non_lazy_context_rec(ctxt, stbl, F);
+		if( use_default ) {
+		    F = add_non_lazy_context_rec(ctxt, stbl, F);
+		}
 		node = Make_APPL_ND(node, F);
 		ap = (ap != NULL)? ap->next : NULL;
 	    }
@@ -2388,7 +2394,19 @@ add_non_lazy_context_rec(buffer *ctxt, symbol_tbl_ptr stbl, g_ptr node)
 	    g_ptr En, var, def_val;
 	    if( is_P_NAMED_ARG(body, &En, &var, &def_val) ) {
 		E = add_non_lazy_context_rec(ctxt, stbl, En);
-		def_val = add_non_lazy_context_rec(ctxt, stbl, def_val);
+		// The default value is evaluated by the callers, and so does
+		// not depend on the arguments of the function
+		buffer no_ctxt;
+		new_buf(&no_ctxt, 10, sizeof(string));
+		g_ptr new_def_val = add_non_lazy_context_rec(&no_ctxt, stbl,
+							     def_val);
+		free_buf(&no_ctxt);
+		for(arg_names_ptr ap=cur_arg_names; ap != NULL; ap=ap->next) {
+		    if( ap->default_value == def_val ) {
+			ap->default_value = Copy_Graph(new_def_val);
+		    }
+		}
+		def_val = new_def_val;
 		E = Make_3inp_Primitive(P_NAMED_ARG, E, Make_VAR_leaf(new_name),
 						     def_val);
 	    } else {
@@ -2466,7 +2484,7 @@ add_non_lazy_context_rec(buffer *ctxt, symbol_tbl_ptr stbl, g_ptr node)
 	    if( fp->has_default_values ) {
 		ap = fp->arg_names;
 		while( ap != NULL ) {
-		    F = ap->default_value;
+		    F = Copy_Graph(ap->default_value);
 		    if( F == NULL ) {
 			report_error_loc(node, "Syntax");
 			FP(err_fp,"%s is not given value for argument %s\n",
diff --git a/src/bin/fl/symbol.h b/src/bin/fl/symbol.h
index 336ae26..81b5ffa 100644
--- a/src/bin/fl/symbol.h
+++ b/src/bin/fl/symbol.h
@@ -30,7 +30,8 @@ g_ptr		Find_Function(symbol_tbl_ptr stbl, g_ptr node);
 bool		Make_non_lazy(string name, symbol_tbl_ptr stbl);
 impl_arg_ptr	Gather_overloaded_calls(symbol_tbl_ptr stbl, g_ptr node);
 g_ptr		Add_non_lazy_context_and_find_Userdefs(g_ptr node,
-						       symbol_tbl_ptr stbl);
+						       symbol_tbl_ptr stbl,
+						       arg_names_ptr arg_names);
 symbol_tbl_ptr	Merge_fn_defs(symbol_tbl_ptr stbl1, symbol_tbl_ptr stbl2,
 			      bool permissive);
 symbol_tbl_ptr	Add_Destructors(string name, typeExp_ptr type,
-- 
2.43.0


From e5272db8945f058f9d1bf9d89eb1a11c30e5ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:06 +0000
Subject: [PATCH 36/38] fix: USER ended the session when the environment does
 not define it

---
 src/bin/fl/system.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/system.c b/src/bin/fl/system.c
index b2253d6..7d3d7b6 100644
--- a/src/bin/fl/system.c
+++ b/src/bin/fl/system.c
@@ -265,7 +265,9 @@ get_cur_eval_cond(g_ptr redex)
 static void
 get_USER(g_ptr redex)
 {
-    MAKE_REDEX_STRING(redex, wastrsave(stringsp, getenv("USER")));
+    char *user = getenv("USER");
+    if( user == NULL ) { user = "_nouser_"; }
+    MAKE_REDEX_STRING(redex, wastrsave(stringsp, user));
 }
 
 static void
-- 
2.43.0


From 020c39e64b26531373fae3d7d2b4b82b0cfa099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:39 +0000
Subject: [PATCH 37/38] fix: values shown by an installed print function were
 released while still in use

---
 src/bin/fl/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 9b1c658..144bc3b 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -5226,6 +5226,8 @@ print_result_local(g_ptr node, odests fp, bool pr_brack, bool pr_comma,
 
     conv_fn = (g_ptr) find_hash(&pretty_printer_tbl, (pointer) type);
     if( conv_fn != NULL ) {
+	INC_REFCNT(conv_fn);
+	INC_REFCNT(node);
 	print_nd = Make_APPL_ND(conv_fn, node);
 	SET_REFCNT(print_nd,MAX_REF_CNT);  /* Make sure it never gets freed */
 	print_nd = traverse_left(print_nd);
-- 
2.43.0


From 88762482b5738a6daec59769a0f3d9994713b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 38/38] fix: default values lost their type annotations when
 copied to calls

---
 src/bin/fl/graph.c  | 5 +++++
 src/bin/fl/symbol.c | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 144bc3b..b90e6c3 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1356,6 +1356,11 @@ Compile(symbol_tbl_ptr stbl, g_ptr onode, typeExp_ptr type, bool delayed,
 	longjmp(*start_envp,1);
     }
 
+    // Keep the default values as they are before the function is compiled
+    for(arg_names_ptr ap = rp->arg_names; ap != NULL; ap = ap->next) {
+	ap->default_value = Copy_Graph(ap->default_value);
+    }
+
     rp->expr_init =  cephalopode_mode? Cephalopde_Reflect_expr(node) : NULL;
 
 #ifdef CHECK_REF_CNTS
diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index fa8cfb5..2158c49 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -2403,7 +2403,8 @@ add_non_lazy_context_rec(buffer *ctxt, symbol_tbl_ptr stbl, g_ptr node)
 		free_buf(&no_ctxt);
 		for(arg_names_ptr ap=cur_arg_names; ap != NULL; ap=ap->next) {
 		    if( ap->default_value == def_val ) {
-			ap->default_value = Copy_Graph(new_def_val);
+			ap->default_value = new_def_val;
+			INC_REFCNT(new_def_val);
 		    }
 		}
 		def_val = new_def_val;
-- 
2.43.0

