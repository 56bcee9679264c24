// Analysis unit: optimization layer for Scalar = double. Nothing here runs.
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/exit_status.hpp>
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using D = Eigen::MatrixXd;
using DV = Eigen::VectorXd;

template class slp::Problem<double>;
template class slp::OCP<double>;

void exercise_problem(slp::Problem<double>& p, V& a, M& m, DV& x) {
  p.add_callback([](const slp::IterationInfo<double>&) {});
  p.add_callback([](const slp::IterationInfo<double>&) { return false; });
  p.add_persistent_callback([](const slp::IterationInfo<double>&) { return false; });
  p.subject_to(a == 0.0);
  p.subject_to(a >= 0.0);
  auto eq = a == 0.0;
  auto in = a >= 0.0;
  p.subject_to(eq);
  p.subject_to(in);
  p.minimize(a); p.maximize(a); p.minimize(a + 1.0); p.maximize(a + 1.0); p.minimize(m);
  (void)p.solve();
  (void)x;
}

void exercise_ocp(slp::OCP<double>& o, double d, V& v, M& m, DV& e) {
  o.constrain_initial_state(d); o.constrain_initial_state(v); o.constrain_initial_state(m); o.constrain_initial_state(e);
  o.constrain_final_state(d); o.constrain_final_state(v); o.constrain_final_state(m); o.constrain_final_state(e);
  o.set_lower_input_bound(d); o.set_lower_input_bound(v); o.set_lower_input_bound(m); o.set_lower_input_bound(e);
  o.set_upper_input_bound(d); o.set_upper_input_bound(v); o.set_upper_input_bound(m); o.set_upper_input_bound(e);
  o.for_each_step([](const M&, const M&) {});
  o.for_each_step([](const V&, const M&, const M&, const V&) {});
}

void exercise_multistart(std::span<const int> guesses) {
  auto r = slp::MultistartResult<double, int>{};
  (void)r;
  std::vector<int> g;
  (void)slp::multistart<double, int>([](const int& x) { return slp::MultistartResult<double, int>{slp::ExitStatus::SUCCESS, 0.0, x}; }, g);
  (void)guesses;
}
