import chk_expr, chk_var, chk_graph, chk_matrix, chk_solver, chk_sutil, chk_steps, chk_sfn, chk_problem, chk_ocp, chk_multi, chk_ldlt, chk_restore, chk_util, chk_py, chk_spy, chk_threads, chk_barrier
