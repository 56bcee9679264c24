// Client programs over the solver helpers: each is analysed as a source of
// obligations, nothing here runs.
#include <span>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/solver/util/all_finite.hpp>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>
#include <sleipnir/optimization/solver/util/filter.hpp>
#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>

template class slp::SparseRegularizedLDLT<double>;
template class slp::DenseRegularizedLDLT<double>;

namespace sclient {

using DV = Eigen::VectorXd;
using SV = Eigen::SparseVector<double>;
using SM = Eigen::SparseMatrix<double>;
using D = Eigen::MatrixXd;

slp::ProblemScaling<double> scaling_g(const DV& g) { return slp::ProblemScaling<double>{g}; }
slp::ProblemScaling<double> scaling_ge(const DV& g, const SM& A_e) { return slp::ProblemScaling<double>{g, A_e}; }
slp::ProblemScaling<double> scaling_gei(const DV& g, const SM& A_e, const SM& A_i) { return slp::ProblemScaling<double>{g, A_e, A_i}; }
slp::ProblemScaling<double> scaling_sparse_g(const SV& g) { return slp::ProblemScaling<double>{g}; }
DV row_norms(const SM& A) { return slp::sparse_inf_norms(A); }

slp::Inertia inertia_vec(const DV& v) { return slp::Inertia{v}; }
slp::Inertia inertia_diag(const D& m) { return slp::Inertia{m.diagonal()}; }
bool inertia_eq(const slp::Inertia& a, const slp::Inertia& b) { return a == b; }

double ftb(const DV& x, const DV& p, double tau) { return slp::fraction_to_the_boundary_rule<double>(x, p, tau); }
bool finite_m(const SM& m) { return slp::all_finite(m); }
bool finite_v(const SV& m) { return slp::all_finite(m); }
bool eq_infeasible(const SM& A, const DV& c) { return slp::is_equality_locally_infeasible(A, c); }
bool in_infeasible(const SM& A, const DV& c) { return slp::is_inequality_locally_infeasible(A, c); }

slp::Filter<double> filter_new(double cv) { return slp::Filter<double>{cv}; }
bool filter_try(slp::Filter<double>& f, const slp::FilterEntry<double>& cur, const slp::FilterEntry<double>& trial, double D, double a) { return f.try_add(cur, trial, D, a); }
void filter_reset(slp::Filter<double>& f) { f.reset(); }
bool filter_last(const slp::Filter<double>& f) { return f.last_rejection_due_to_filter(); }
slp::FilterEntry<double> entry_f(double f) { return slp::FilterEntry<double>{f}; }
slp::FilterEntry<double> entry_sqp(double f, const DV& c_e) { return slp::FilterEntry<double>{f, c_e}; }
slp::FilterEntry<double> entry_ipm(double f, DV& s, const DV& c_e, const DV& c_i, double mu) { return slp::FilterEntry<double>{f, s, c_e, c_i, mu}; }

DV estimate_y(const SV& g, const SM& A_e) { return slp::lagrange_multiplier_estimate<double>(g, A_e); }
slp::LagrangeMultiplierEstimate<double> estimate_yz(const SV& g, const SM& A_e, const SM& A_i, const DV& s, double mu) { return slp::lagrange_multiplier_estimate<double>(g, A_e, A_i, s, mu); }
void trip2(gch::small_vector<Eigen::Triplet<double>>& t, int r, int c, const SM& a, const SM& b) { slp::append_as_triplets<double>(t, r, c, {a, b}); }
void trip4(gch::small_vector<Eigen::Triplet<double>>& t, int r, int c, const SM& a, const SM& b, const SM& d, const SM& e) { slp::append_as_triplets<double>(t, r, c, {a, b, d, e}); }
void tripdiag(gch::small_vector<Eigen::Triplet<double>>& t, int r, int c, const DV& d) { slp::append_diagonal_as_triplets<double>(t, r, c, d); }

slp::Bounds<double> bounds(std::span<slp::Variable<double>> v, std::span<slp::Variable<double>> c, const Eigen::SparseMatrix<double, Eigen::RowMajor>& A) { return slp::get_bounds<double>(v, c, A); }
void project(DV& x, std::span<const std::pair<double, double>> b) { slp::project_onto_bounds(x, b); }
void project_k(DV& x, std::span<const std::pair<double, double>> b, double k1, double k2) { slp::project_onto_bounds(x, b, k1, k2); }

bool ldlt(const SM& lhs, bool sparse, int n, int m) {
  slp::RegularizedLDLT<double> s{sparse, n, m};
  return s.compute(lhs).info() == Eigen::Success;
}
slp::RegularizedLDLT<double> ldlt_new(bool sparse, int n, int m) { return slp::RegularizedLDLT<double>{sparse, n, m}; }
slp::RegularizedLDLT<double> ldlt_gamma(bool sparse, int n, int m, double g) { return slp::RegularizedLDLT<double>{sparse, n, m, g}; }
slp::RegularizedLDLT<double>& ldlt_compute(slp::RegularizedLDLT<double>& s, const SM& lhs) { return s.compute(lhs); }
Eigen::ComputationInfo ldlt_info(const slp::RegularizedLDLT<double>& s) { return s.info(); }
DV ldlt_solve(const slp::RegularizedLDLT<double>& s, const DV& rhs) { return s.solve(rhs); }
DV ldlt_solve_sparse(const slp::RegularizedLDLT<double>& s, const SV& rhs) { return s.solve(rhs); }
double ldlt_delta(const slp::RegularizedLDLT<double>& s) { return s.hessian_regularization(); }
double ldlt_gam(const slp::RegularizedLDLT<double>& s) { return s.constraint_jacobian_regularization(); }

}  // namespace sclient
