// Analysis unit: the Python bindings. Nothing here runs.
#include "main.cpp"
#include "autodiff/bind_expression_type.cpp"
#include "autodiff/bind_gradient.cpp"
#include "autodiff/bind_hessian.cpp"
#include "autodiff/bind_jacobian.cpp"
#include "autodiff/bind_variable.cpp"
#include "autodiff/bind_variable_block.cpp"
#include "autodiff/bind_variable_matrix.cpp"
#include "optimization/bind_equality_constraints.cpp"
#include "optimization/bind_inequality_constraints.cpp"
#include "optimization/bind_ocp.cpp"
#include "optimization/bind_problem.cpp"
#include "optimization/ocp/bind_dynamics_type.cpp"
#include "optimization/ocp/bind_timestep_method.cpp"
#include "optimization/ocp/bind_transcription_method.cpp"
#include "optimization/solver/bind_exit_status.cpp"
#include "optimization/solver/bind_iteration_info.cpp"
