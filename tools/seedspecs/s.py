U = "include/sleipnir/optimization/solver/util/"
SO = "include/sleipnir/optimization/solver/"
BASE = """#include <chrono>
#include <cmath>
#include <cstdio>
#include <limits>
#include <vector>
#include <Eigen/Core>
#include <Eigen/SparseCore>
using D = Eigen::VectorXd;
using S = Eigen::SparseMatrix<double>;
static int bad = 0;
[[maybe_unused]] static void near(const char* what, double a, double b, double tol = 1e-9) {
  if (!(std::abs(a - b) <= tol * (1 + std::abs(b)))) { std::printf("%s: %.17g, expected %.17g\\n", what, a, b); bad = 1; }
}
[[maybe_unused]] static void same(const char* what, int a, int b) {
  if (a != b) { std::printf("%s: %d, expected %d\\n", what, a, b); bad = 1; }
}
[[maybe_unused]] static D vec(std::initializer_list<double> l) { D v(l.size()); int i = 0; for (double x : l) { v[i++] = x; } return v; }
[[maybe_unused]] static S mat(int r, int c, std::initializer_list<double> l) {
  S m(r, c); int i = 0; for (double x : l) { if (x != 0) { m.insert(i / c, i % c) = x; } ++i; } m.makeCompressed(); return m; }
"""


def P(*h):
    return BASE + "".join('#include "sleipnir/%s"\n' % x for x in h) + "using namespace slp;\n"


IPM = P("optimization/solver/interior_point.hpp", "optimization/solver/sqp.hpp", "optimization/solver/newton.hpp") + """
static D id(int n) { return D::Ones(n); }
"""
PROB = P("optimization/problem.hpp")
SEEDS = [
 dict(id="s03-first-blocking-only", prop="S03", srcs="",
      needs="two components that both limit the step, the later one more",
      breaks="the fraction-to-the-boundary rule only looks at components up to the first one that limits the step, then at those with a larger fraction",
      edits=[(U + "fraction_to_the_boundary_rule.hpp", "    if (α * p(i) < -τ * x(i)) {", "    if (p(i) < -τ * x(i) && (α == Scalar(1) || p(i) < α * x(i) * -Scalar(2))) {")],
      demo=P("optimization/solver/util/fraction_to_the_boundary_rule.hpp") + """int main() {
  D x = vec({1, 1}), p = vec({-4, -1.5});
  double a = fraction_to_the_boundary_rule<double>(x, p, 0.99);
  near("first", a, 0.99 / 4);
  p = vec({-100, -100.0 / 99.0 * 1.0});
  x = vec({100, 0.99});
  a = fraction_to_the_boundary_rule<double>(x, p, 0.99);
  for (int i = 0; i < 2; ++i) { if (x[i] + a * p[i] < 0.01 * x[i] - 1e-12) { std::puts("left its bound"); bad = 1; } }
  return bad;
}
"""),
 dict(id="s03-tau-dropped-small", prop="S03", srcs="",
      needs="a step that would exhaust a component exactly at length one",
      breaks="the step length limit is only enforced for components the full step makes negative, so a slack may land on its bound",
      edits=[(U + "fraction_to_the_boundary_rule.hpp", "    if (α * p(i) < -τ * x(i)) {", "    if (α * p(i) < -x(i)) {")],
      demo=P("optimization/solver/util/fraction_to_the_boundary_rule.hpp") + """int main() {
  D x = vec({2, 1}), p = vec({1, -1});
  near("alpha", fraction_to_the_boundary_rule<double>(x, p, 0.99), 0.99);
  return bad;
}
"""),
 dict(id="s03-slack-limit-soc", prop="S03", srcs="ipm",
      needs="a second-order correction whose slack step is shorter than the first trial's",
      breaks="the corrected slack step is taken with the length limit of the uncorrected one",
      edits=[(SO + "interior_point.hpp", "          trial_s = s + α_soc * soc_step.p_s;", "          trial_s = s + α * soc_step.p_s;")],
      demo=IPM + """int main() {
  // Every step is limited so that the slacks stay positive: starting points,
  // curvature and signs are varied until corrections with shorter steps occur.
  unsigned r = 12345;
  auto rnd = [&] { r = r * 1103515245u + 12345u; return ((r >> 8) % 20001) / 10000.0 - 1.0; };
  for (int k = 0; k < 400; ++k) {
    double a = 3 * rnd(), b = 3 * rnd(), c = 5 * rnd(), q = 4 * rnd(), w = 2 * rnd();
    InteriorPointMatrixCallbacks<double> m{2, 1, 2,
      [=](const D& x) { return a * x[0] + b * x[1] + 0.5 * (x[0] * x[0] + x[1] * x[1]); },
      [=](const D& x) { D g = vec({a + x[0], b + x[1]}); return Eigen::SparseVector<double>(g.sparseView()); },
      [=](const D&, const D& y, const D& z) { return mat(2, 2, {1 - y[0] * 2 * q - 2 * z[0] * w, 0, 0, 1 - 2 * y[0]}); },
      [=](const D&, const D& y, const D& z) { return mat(2, 2, {-y[0] * 2 * q - 2 * z[0] * w, 0, 0, -2 * y[0]}); },
      [=](const D& x) { return vec({q * x[0] * x[0] + x[1] * x[1] - 1}); },
      [=](const D& x) { return mat(1, 2, {2 * q * x[0], 2 * x[1]}); },
      [=](const D& x) { return vec({x[1] + w * x[0] * x[0] + c, 10 - x[0] - x[1]}); },
      [=](const D& x) { return mat(2, 2, {2 * w * x[0], 1, -1, -1}); },
      {1.0, D::Ones(1), D::Ones(2)}};
    std::vector<std::function<bool(const IterationInfo<double>&)>> cb;
    cb.push_back([&](const IterationInfo<double>& i) {
      for (int j = 0; j < i.s.rows(); ++j) {
        if (!(i.s[j] > 0)) { std::printf("case %d iteration %d slack %g\\n", k, i.iteration, i.s[j]); bad = 1; }
      }
      return bad != 0;
    });
    D x = vec({2 * rnd() + 0.1, 2 * rnd() + 0.1});
    Options o; o.max_iterations = 60;
    interior_point<double>(m, cb, o, x);
    if (bad) { break; }
  }
  return bad;
}
"""),
 dict(id="s06-filter-one-coordinate", prop="S06", srcs="",
      needs="a trial that ties a stored entry's violation",
      breaks="an entry that ties a stored one is no longer considered dominated",
      edits=[(U + "filter.hpp", "           entry.constraint_violation <= constraint_violation;", "           entry.constraint_violation < constraint_violation;")],
      demo=P("optimization/solver/util/filter.hpp") + """int main() {
  FilterEntry<double> a{1.0, 0.5}, b{2.0, 0.5};
  same("dominated", b.dominated_by(a), 1);
  FilterEntry<double> z{1.0, 0.0}, w{2.0, 0.0};
  same("feasible dominated", w.dominated_by(z), 1);
  return bad;
}
"""),
 dict(id="s06-switching-exponents", prop="S06", srcs="",
      needs="a current violation just below the threshold and a small directional derivative",
      breaks="the switching condition compares against the first power of the violation",
      edits=[(U + "filter.hpp", "pow(current_entry.constraint_violation, s_θ);", "current_entry.constraint_violation;")],
      demo=P("optimization/solver/util/filter.hpp") + """int main() {
  // alpha (-D)^2.3 between theta^1.1 and theta: the Armijo rule decides
  double th = 1e-5, D_phi = -std::pow(0.5 * (std::pow(th, 1.1) + th), 1 / 2.3);
  Filter<double> f{0.0};
  FilterEntry<double> cur{1.0, th}, tri{1.0 + 1e-3, 0.5 * th};
  same("Armijo decides", f.try_add(cur, tri, D_phi, 1.0), 0);
  return bad;
}
"""),
 dict(id="s06-keep-dominated", prop="S06", srcs="",
      needs="an accepted iterate better than a stored entry in one coordinate only",
      breaks="adding an entry also removes stored entries it does not dominate",
      edits=[(U + "filter.hpp", "[&](const auto& elem) { return elem.dominated_by(entry); });", "[&](const auto& elem) {\n               return elem.constraint_violation >= entry.constraint_violation;\n             });")],
      demo=P("optimization/solver/util/filter.hpp") + """int main() {
  Filter<double> f{10.0};
  FilterEntry<double> a{1.0, 5.0}, b{4.0, 3.0};
  same("1", f.try_add(a, FilterEntry<double>{0.5, 5.0 * 0.9}, 1.0, 1.0), 1);
  same("2", f.try_add(b, FilterEntry<double>{3.0, 2.0}, 1.0, 1.0), 1);
  // dominated by the entry recorded for a (about cost 1, violation 5)
  FilterEntry<double> c{9.0, 9.0};
  same("3", f.try_add(c, FilterEntry<double>{1.5, 5.5}, 1.0, 1.0), 0);
  return bad;
}
"""),
 dict(id="s06-violation-slack-sign", prop="S06", srcs="",
      needs="an inequality whose value exceeds its slack",
      breaks="the constraint violation of an interior-point entry only counts inequalities below their slack",
      edits=[(U + "filter.hpp", "c_e.template lpNorm<1>() + (c_i - s).template lpNorm<1>()} {", "c_e.template lpNorm<1>() +\n                        (c_i - s).cwiseMin(Scalar(0)).template lpNorm<1>()} {")],
      demo=P("optimization/solver/util/filter.hpp") + """int main() {
  D s = vec({1, 2}), ce = vec({0.25}), ci = vec({3, 1.5});
  FilterEntry<double> e{4.0, s, ce, ci, 0.1};
  near("violation", e.constraint_violation, 0.25 + 2 + 0.5);
  near("cost", e.cost, 4.0 - 0.1 * std::log(2.0));
  return bad;
}
"""),
 dict(id="s08-sparse-zero-not-checked", prop="S08", srcs="",
      needs="a singular matrix whose leading factorization has the right number of positive entries",
      breaks="the regularization loop accepts a factorization once the positive and negative counts are at least the ideal ones minus zeros",
      edits=[(U + "sparse_regularized_ldlt.hpp", "        if (inertia == ideal_inertia) {", "        if (inertia == ideal_inertia ||\n            (inertia.positive == ideal_inertia.positive &&\n             inertia.negative + inertia.zero == ideal_inertia.negative)) {")],
      demo=P("optimization/solver/util/sparse_regularized_ldlt.hpp", "optimization/solver/util/inertia.hpp") + """int main() {
  // One pivot is zero to rounding and there is no constraint regularization
  S lhs = mat(4, 4, {1, 0, 0, 0,  0, 1, 0, 0,  0, 0, -1, 0,  0, 0, 0, 1e-17});
  SparseRegularizedLDLT<double> l{2, 2, 0.0};
  l.compute(lhs);
  same("info", l.info(), Eigen::Success);
  if (!(l.constraint_jacobian_regularization() > 0)) { std::puts("singular system accepted"); bad = 1; }
  return bad;
}
"""),
 dict(id="s08-reports-previous-delta", prop="S08", srcs="",
      needs="a system that needs several increases of the regularization",
      breaks="the reported Hessian regularization is the initial guess, not the one the accepted factorization used",
      edits=[(U + "sparse_regularized_ldlt.hpp", "          // If the inertia is ideal, report success\n          m_prev_δ = δ;", "          // If the inertia is ideal, report success\n          m_prev_δ = std::min(δ, Scalar(1e4));")],
      demo=P("optimization/solver/util/sparse_regularized_ldlt.hpp") + """int main() {
  S lhs = mat(2, 2, {-3e5, 0, 0, 4});
  SparseRegularizedLDLT<double> l{2, 0};
  l.compute(lhs);
  same("info", l.info(), Eigen::Success);
  D b = vec({1, 1});
  D x = l.solve(b);
  near("regularization", (-3e5 + l.hessian_regularization()) * x[0], 1, 1e-6);
  return bad;
}
"""),
 dict(id="s08-wrong-backend-info", prop="S08", srcs="",
      needs="a dense system that cannot be regularized into the ideal inertia",
      breaks="the status reported for dense systems is that of the unused sparse solver",
      edits=[(U + "regularized_ldlt.hpp", "      return m_dense_solver.info();", "      return m_sparse_solver.info();")],
      demo=P("optimization/solver/util/regularized_ldlt.hpp") + """int main() {
  double inf = std::numeric_limits<double>::quiet_NaN();
  S lhs = mat(2, 2, {inf, 0, 1, 1});
  RegularizedLDLT<double> l{false, 2, 0};
  l.compute(lhs);
  if (l.info() == Eigen::Success) { std::puts("success for a system that has no factorization"); bad = 1; }
  return bad;
}
"""),
 dict(id="s09-diagonal-zero-band", prop="S09", srcs="",
      needs="a dense factorization with a tiny negative pivot",
      breaks="the inertia of a factorization's diagonal counts tiny negative entries as negative",
      edits=[(U + "inertia.hpp", "          const Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>>& D) {\n    for (const auto& elem : D) {\n      if (elem > std::numeric_limits<Scalar>::epsilon()) {\n        ++positive;\n      } else if (elem < -std::numeric_limits<Scalar>::epsilon()) {", "          const Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>>& D) {\n    for (const auto& elem : D) {\n      if (elem > std::numeric_limits<Scalar>::epsilon()) {\n        ++positive;\n      } else if (elem < -std::numeric_limits<Scalar>::min()) {")],
      demo=P("optimization/solver/util/inertia.hpp") + """int main() {
  const Eigen::MatrixXd m = vec({1, -1e-17, -2}).asDiagonal();
  Inertia i{m.diagonal()};
  same("positive", i.positive, 1); same("negative", i.negative, 1); same("zero", i.zero, 1);
  return bad;
}
"""),
 dict(id="s10-sd-without-y", prop="S10", srcs="",
      needs="equality multipliers much larger than the inequality ones",
      breaks="the dual scaling of the optimality error leaves out the equality multipliers",
      edits=[(U + "kkt_error.hpp", "        std::max(s_max, (y.template lpNorm<1>() + z.template lpNorm<1>()) /", "        std::max(s_max, (z.template lpNorm<1>() + z.template lpNorm<1>()) /")],
      demo=P("optimization/solver/util/kkt_error.hpp") + """int main() {
  D g = vec({10}), ce = vec({0}), ci = vec({1}), s = vec({1}), y = vec({1000}), z = vec({0.0});
  S Ae = mat(1, 1, {0}), Ai = mat(1, 1, {1});
  double e = kkt_error<double, KKTErrorType::INF_NORM_SCALED>(g, Ae, ce, Ai, ci, s, y, z, 0.0);
  near("error", e, 10 / 5.0);
  return bad;
}
"""),
 dict(id="s10-unscale-dual", prop="S10", srcs="",
      needs="a problem with constraints scaled down, where stationarity holds",
      breaks="the unscaled optimality error does not undo the constraint scaling of the inequality multipliers",
      edits=[(U + "kkt_error.hpp", "  const DenseVector z_unscaled = scaling.c_i.cwiseProduct(z) * inv_d_f;", "  const DenseVector z_unscaled = z * inv_d_f;")],
      demo=P("optimization/solver/util/kkt_error.hpp") + """int main() {
  // scaled: g = 0.5*4, A_i = 0.25*8, z: A_i z = g
  ProblemScaling<double> sc{0.5, D(0), vec({0.25})};
  D g = vec({2}), ce(0), ci = vec({0}), s = vec({0}), y(0), z = vec({1});
  S Ae(0, 1), Ai = mat(1, 1, {2});
  double e = unscaled_kkt_error<double, KKTErrorType::INF_NORM_SCALED>(sc, g, Ae, ce, Ai, ci, s, y, z, 0.0);
  near("error", e, 0);
  return bad;
}
"""),
 dict(id="s11-scaling-ignores-inequalities", prop="S11", srcs="",
      needs="an inequality with a gradient above the cap next to an equality with a larger one",
      breaks="inequality constraints are scaled by the row norms of the equality Jacobian when there are as many of both",
      edits=[(U + "problem_scaling.hpp", "    c_i = (g_max / sparse_inf_norms(A_i).array()).min(Scalar(1)).matrix();", "    c_i = (g_max /\n           sparse_inf_norms(A_e.rows() == A_i.rows() ? A_e : A_i).array())\n              .min(Scalar(1))\n              .matrix();")],
      demo=P("optimization/solver/util/problem_scaling.hpp") + """int main() {
  D g = vec({200, -400});
  S Ae = mat(1, 2, {-1000, 3}), Ai = mat(1, 2, {5, 250});
  ProblemScaling<double> s{g, Ae, Ai};
  near("f", s.f, 0.25); near("c_e", s.c_e[0], 0.1); near("c_i", s.c_i[0], 0.4);
  return bad;
}
"""),
 dict(id="s11-norm-signed", prop="S11", srcs="",
      needs="a constraint whose largest derivative is negative",
      breaks="row norms of sparse matrices ignore the sign, so negative derivatives do not count",
      edits=[(U + "sparse_inf_norms.hpp", "      norms[it.row()] = std::max(norms[it.row()], abs(it.value()));", "      norms[it.row()] = abs(std::max(norms[it.row()], it.value()));")],
      demo=P("optimization/solver/util/sparse_inf_norms.hpp") + """int main() {
  D n = sparse_inf_norms(mat(2, 3, {1, -7, 2, 0, -3, 0}));
  near("row 0", n[0], 7); near("row 1", n[1], 3);
  return bad;
}
"""),
 dict(id="s12-first-violation-only", prop="S12", srcs="",
      needs="inequalities of which a violated one follows satisfied ones",
      breaks="inequality infeasibility looks at satisfied constraints instead of leaving them out",
      edits=[(U + "is_locally_infeasible.hpp", "    if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&", "    if ((A_i.transpose() * c_i).norm() < Scalar(1e-6) &&")],
      demo=P("optimization/solver/util/is_locally_infeasible.hpp") + """int main() {
  S A = mat(2, 1, {3, 0});
  D c = vec({2, -1});
  same("infeasible", is_inequality_locally_infeasible<double>(A, c), 1);
  S B = mat(2, 1, {1, 1});
  D e = vec({1, -1});
  same("can be improved", is_inequality_locally_infeasible<double>(B, e), 0);
  return bad;
}
"""),
 dict(id="s12-finite-first-column", prop="S12", srcs="",
      needs="a nonfinite entry in the last column of a matrix",
      breaks="the finiteness test of sparse matrices skips the last outer vector of wide matrices",
      edits=[(U + "all_finite.hpp", "  for (int k = 0; k < mat.outerSize(); ++k) {", "  for (int k = 0; k < std::max<Eigen::Index>(mat.innerSize(), 1) && k < mat.outerSize(); ++k) {")],
      demo=P("optimization/solver/util/all_finite.hpp") + """int main() {
  S A = mat(1, 3, {1, 2, 3});
  A.coeffRef(0, 2) = std::numeric_limits<double>::infinity();
  same("finite", all_finite(A), 0);
  return bad;
}
"""),
 dict(id="s13-restoration-jacobian-sign", prop="S13", srcs="",
      needs="an interior-point restoration with equality constraints",
      breaks="the restoration subproblem's elastic variables enter the constraints with one sign and the Jacobian with the other",
      edits=[(U + "feasibility_restoration.hpp", "        // [Aᵢ   0   0  −I  I]" , "        // [Aᵢ   0   0  −I  I]")],
      demo="", skip=True),
 dict(id="s13-pn-branch", prop="S13", srcs="",
      needs="constraints with negative values",
      breaks="the starting values of the elastic variables use the wrong sign for the quadratic's constant when the constraint is negative",
      edits=[(U + "feasibility_restoration.hpp", "    Scalar _c = -μ * c[row] / Scalar(2);", "    Scalar _c = -μ * (c[row] < Scalar(0) ? -c[row] : c[row]) / Scalar(2);")],
      demo=P("optimization/solver/util/feasibility_restoration.hpp") + """int main() {
  D c = vec({2, -3});
  double rho = 1000, mu = 0.5;
  auto [p, n] = compute_p_n<double>(c, rho, mu);
  for (int i = 0; i < 2; ++i) {
    double q = (mu - rho * c[i]) / (2 * rho);
    double e = q + std::sqrt(q * q + mu * c[i] / (2 * rho));
    near("n", n[i], e); near("p", p[i], c[i] + e);
  }
  return bad;
}
"""),
 dict(id="s14-negative-coefficient-swap", prop="S14", srcs="autodiff/variable_matrix.cpp autodiff/jacobian.cpp",
      needs="two upper bounds on one variable, the tighter given last",
      breaks="upper bounds keep the first one given instead of the tightest when the variable also has a lower bound",
      edits=[(U + "bounds.hpp", "    if (constraint_coefficient < Scalar(0) && detected_bound < upper_bound) {", "    if (constraint_coefficient < Scalar(0) &&\n        (detected_bound < upper_bound && upper_index == NO_BOUND)) {")],
      demo=P("optimization/solver/util/bounds.hpp", "autodiff/variable_matrix.hpp") + """int main() {
  std::vector<Variable<double>> x(1);
  std::vector<Variable<double>> c{x[0] - 1.0, 5.0 - x[0], 3.0 - x[0]};
  Eigen::SparseMatrix<double, Eigen::RowMajor> A = mat(3, 1, {1, -1, -1});
  auto b = get_bounds<double>(x, c, A);
  near("lower", b.bounds[0].first, 1); near("upper", b.bounds[0].second, 3);
  return bad;
}
"""),
 dict(id="s14-projection-relative", prop="S14", srcs="matrix",
      needs="a variable with both bounds of very different size",
      breaks="projection moves a variable away from its lower bound by a margin measured with the upper one",
      edits=[(U + "bounds.hpp", "      auto p_L = std::min(κ_1 * std::max(Scalar(1), abs(lower)),", "      auto p_L = std::min(κ_1 * std::max(Scalar(1), abs(upper)),")],
      demo=P("optimization/solver/util/bounds.hpp") + """int main() {
  D x = vec({0.5});
  std::vector<std::pair<double, double>> b{{0.0, 1000.0}};
  project_onto_bounds(x, std::span<const std::pair<double, double>>{b});
  near("x", x[0], 0.5);
  return bad;
}
"""),
 dict(id="s15-triplet-offset", prop="S15", srcs="",
      needs="three stacked matrices of different heights",
      breaks="the row offset of a stacked matrix is its own height times its index",
      edits=[(U + "append_as_triplets.hpp", "    mat_row_offsets.emplace_back(mat_row_offset);", "    mat_row_offsets.emplace_back(\n        mat_row_offsets.size() < 2 ? mat_row_offset\n                                   : 2 * mat_row_offsets.back());")],
      demo=P("optimization/solver/util/append_as_triplets.hpp") + """int main() {
  gch::small_vector<Eigen::Triplet<double>> t;
  append_as_triplets(t, 1, 2, {mat(1, 1, {1}), mat(3, 1, {2, 3, 4}), mat(1, 1, {5})});
  int rows[] = {1, 2, 3, 4, 5};
  same("count", t.size(), 5);
  for (int i = 0; i < 5 && i < int(t.size()); ++i) { same("row", t[i].row(), rows[i]); same("col", t[i].col(), 2); near("value", t[i].value(), i + 1); }
  return bad;
}
"""),
 dict(id="s15-estimate-sign", prop="S15", srcs="",
      needs="an estimate with equalities and inequalities both present",
      breaks="the complementarity target of the multiplier estimate enters with the opposite sign when there are equality constraints",
      edits=[(U + "lagrange_multiplier_estimate.hpp", ".setConstant(-μ);", ".setConstant(A_e.rows() > 0 ? μ : -μ);")],
      demo=P("optimization/solver/util/lagrange_multiplier_estimate.hpp") + """int main() {
  Eigen::SparseVector<double> g(2); g.insert(0) = 3; g.insert(1) = 1;
  S Ae = mat(1, 2, {1, 0}), Ai = mat(1, 2, {0, 1});
  D s = vec({2.0});
  auto e = lagrange_multiplier_estimate<double>(g, Ae, Ai, s, 0.5);
  near("y", e.y[0], 3); near("z", e.z[0], (1 + 2 * 0.5) / 5.0);
  return bad;
}
"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
