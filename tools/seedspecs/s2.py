import runpy, os
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s.py"))
P, IPM, U, SO, BASE = _s["P"], _s["IPM"], _s["U"], _s["SO"], _s["BASE"]
PROB = P("optimization/problem.hpp")
SEEDS = [
 dict(id="s01-ipm-scaled-error", prop="S01", srcs="solve",
      needs="a problem whose cost is scaled down a lot, with inequality constraints",
      breaks="from the second iteration on the interior-point method compares the error of the scaled problem with the tolerance",
      edits=[(SO + "interior_point.hpp", "    E_0 = unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(\n        matrices.scaling, g, A_e, c_e, A_i, c_i, s, y, z, Scalar(0));\n\n    // Update the barrier", "    E_0 = kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(\n        g, A_e, c_e, A_i, c_i, s, y, z, Scalar(0));\n\n    // Update the barrier")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable(2);
  x[0].set_value(30.0); x[1].set_value(-4.0);
  p.minimize(1e6 * pow(x[0] - 1.0, 2) + pow(x[1] - x[0] * x[0], 4) + 1e3 * pow(x[1], 2));
  p.subject_to(x[0] + x[1] >= -3.0);
  p.subject_to(x[0] <= 100.0);
  Options o; o.tolerance = 1e-8;
  auto s = p.solve(o);
  // At an interior minimum the gradient must vanish to the tolerance
  double a = x[0].value(), b = x[1].value(), r = b - a * a;
  double gx = 2e6 * (a - 1) - 8 * a * r * r * r, gy = 4 * r * r * r + 2e3 * b;
  same("status", int(s), 0);
  if (std::max(std::abs(gx), std::abs(gy)) > 1e-6) { std::printf("gradient %g %g\\n", gx, gy); bad = 1; }
  return bad;
}
"""),
 dict(id="s01-sqp-dual-only", prop="S01", srcs="solve",
      needs="an SQP step accepted after a second-order correction or restoration, where the equality values come from the trial",
      breaks="the SQP error is computed with the equality values of the point before the step",
      edits=[(SO + "sqp.hpp", "      // Update iterates\n      x = trial_x;\n      y = trial_y;\n\n      f = trial_f;\n      c_e = trial_c_e;\n    }", "      // Update iterates\n      x = trial_x;\n      y = trial_y;\n\n      f = trial_f;\n      c_e.swap(trial_c_e);\n      if (α != α_max) {\n        c_e.swap(trial_c_e);\n      }\n    }")],
      demo="", skip=True),
 dict(id="s02-stale-g-after-restoration", prop="S02", srcs="solve",
      needs="a step that ends in feasibility restoration",
      breaks="after feasibility restoration the next step uses the Jacobian of the equality constraints from before it",
      edits=[(SO + "interior_point.hpp", "    // Update autodiff for Jacobians and Hessian\n    A_e = matrices.A_e(x);\n", "    // Update autodiff for Jacobians and Hessian\n    if (!call_feasibility_restoration) {\n      A_e = matrices.A_e(x);\n    }\n")],
      demo=IPM + """int main() {
  unsigned r = 777;
  auto rnd = [&] { r = r * 1103515245u + 12345u; return ((r >> 8) % 20001) / 10000.0 - 1.0; };
  int restored = 0;
  for (int k = 0; k < 600 && !bad; ++k) {
    double a = 3 * rnd(), c = 5 * rnd(), q = 4 * rnd(), w = 3 * rnd(), e = 2 * rnd();
    InteriorPointMatrixCallbacks<double> m{2, 1, 1,
      [=](const D& x) { return a * x[0] + x[1]; },
      [=](const D&) { D g = vec({a, 1}); return Eigen::SparseVector<double>(g.sparseView()); },
      [=](const D& x, const D& y, const D& z) { return mat(2, 2, {-y[0] * (6 * q * x[0] + 2) - 2 * z[0] * w, 0, 0, -2 * y[0] * e}); },
      [=](const D& x, const D& y, const D& z) { return mat(2, 2, {-y[0] * (6 * q * x[0] + 2) - 2 * z[0] * w, 0, 0, -2 * y[0] * e}); },
      [=](const D& x) { return vec({q * x[0] * x[0] * x[0] + x[0] * x[0] + e * x[1] * x[1] - 1}); },
      [=](const D& x) { return mat(1, 2, {3 * q * x[0] * x[0] + 2 * x[0] + 1e-300, 2 * e * x[1] + 1e-300}); },
      [=](const D& x) { return vec({x[1] + w * x[0] * x[0] + c}); },
      [=](const D& x) { return mat(1, 2, {2 * w * x[0] + 1e-300, 1}); },
      {1.0, D::Ones(1), D::Ones(1)}};
    std::vector<std::function<bool(const IterationInfo<double>&)>> cb;
    cb.push_back([&](const IterationInfo<double>& i) {
      if (i.x.rows() != 2) { ++restored; return false; }
      D x = i.x;
      S A = m.A_e(x);
      if ((Eigen::MatrixXd(A) - Eigen::MatrixXd(i.A_e)).norm() > 1e-12) { std::printf("case %d iteration %d: stale Jacobian\\n", k, i.iteration); bad = 1; return true; }
      return false;
    });
    D x = vec({6 * rnd(), 6 * rnd()});
    Options o; o.max_iterations = 80;
    interior_point<double>(m, cb, o, x);
  }
  if (!restored) { std::puts("no restoration occurred"); bad = 1; }
  return bad;
}
"""),
 dict(id="s02-c-i-after-soc", prop="S02", srcs="ipm",
      needs="a second-order correction accepted by the filter",
      breaks="after an accepted correction the inequality values kept for the next iteration are those of the uncorrected trial",
      edits=[(SO + "interior_point.hpp", "          trial_f = matrices.f(trial_x);\n          trial_c_e = matrices.c_e(trial_x);\n          trial_c_i = matrices.c_i(trial_x);\n\n          // Check whether filter accepts trial iterate\n          FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};", "          trial_f = matrices.f(trial_x);\n          trial_c_e = matrices.c_e(trial_x);\n          DenseVector soc_c_i = matrices.c_i(trial_x);\n\n          // Check whether filter accepts trial iterate\n          FilterEntry trial_entry{trial_f, trial_s, trial_c_e, soc_c_i, μ};")],
      demo=IPM + """int main() {
  unsigned r = 4242;
  auto rnd = [&] { r = r * 1103515245u + 12345u; return ((r >> 8) % 20001) / 10000.0 - 1.0; };
  for (int k = 0; k < 600 && !bad; ++k) {
    double a = 3 * rnd(), b = 3 * rnd(), q = 1 + std::abs(4 * rnd()), w = 2 * rnd();
    D last;
    InteriorPointMatrixCallbacks<double> m{2, 1, 1,
      [=](const D& x) { return a * x[0] + b * x[1]; },
      [=](const D&) { D g = vec({a, b}); return Eigen::SparseVector<double>(g.sparseView()); },
      [=](const D&, const D& y, const D& z) { return mat(2, 2, {-2 * q * y[0] - 2 * z[0] * w, 0, 0, -2 * y[0]}); },
      [=](const D&, const D& y, const D& z) { return mat(2, 2, {-2 * q * y[0] - 2 * z[0] * w, 0, 0, -2 * y[0]}); },
      [=](const D& x) { return vec({q * x[0] * x[0] + x[1] * x[1] - 1}); },
      [=](const D& x) { return mat(1, 2, {2 * q * x[0], 2 * x[1]}); },
      [=](const D& x) { return vec({x[1] + w * x[0] * x[0] + 2}); },
      [=](const D& x) { return mat(1, 2, {2 * w * x[0], 1}); },
      {1.0, D::Ones(1), D::Ones(1)}};
    std::vector<std::function<bool(const IterationInfo<double>&)>> cb;
    D x = vec({2 * rnd(), 2 * rnd()});
    Options o; o.max_iterations = 100;
    auto st = interior_point<double>(m, cb, o, x);
    // Success means the constraints hold at the final point
    if (st == ExitStatus::SUCCESS) {
      if (m.c_i(x)[0] < -1e-6 || std::abs(m.c_e(x)[0]) > 1e-6) { std::printf("case %d: c_i %g c_e %g\\n", k, m.c_i(x)[0], m.c_e(x)[0]); bad = 1; }
    }
  }
  return bad;
}
"""),
 dict(id="s04-newton-iteration-limit", prop="S04", srcs="ipm",
      needs="an unconstrained problem that converges exactly at the iteration limit, with the limit and the timeout both hit",
      breaks="Newton's method allows one iteration more than the limit",
      edits=[(SO + "newton.hpp", "    if (iterations >= options.max_iterations) {", "    if (iterations > options.max_iterations) {")],
      demo=IPM + """int main() {
  NewtonMatrixCallbacks<double> m{1,
    [](const D& x) { return std::pow(x[0], 4); },
    [](const D& x) { D g = vec({4 * std::pow(x[0], 3)}); return Eigen::SparseVector<double>(g.sparseView()); },
    [](const D& x) { return mat(1, 1, {12 * x[0] * x[0]}); }, {1.0, D(0), D(0)}};
  int seen = 0;
  std::vector<std::function<bool(const IterationInfo<double>&)>> cb{[&](const IterationInfo<double>&) { ++seen; return false; }};
  D x = vec({3.0});
  Options o; o.max_iterations = 3; o.tolerance = 1e-14;
  auto s = newton<double>(m, cb, o, x);
  same("status", int(s), int(ExitStatus::MAX_ITERATIONS_EXCEEDED)); same("iterations", seen, 3);
  return bad;
}
"""),
 dict(id="s04-sqp-divergence-order", prop="S04", srcs="ipm",
      needs="a callback that wants to stop on an iterate that is also diverging",
      breaks="the SQP solver reports divergence only for infinite iterates, not for huge ones",
      edits=[(SO + "sqp.hpp", "    if (x.template lpNorm<Eigen::Infinity>() > Scalar(1e10) || !x.allFinite()) {", "    if (x.template lpNorm<Eigen::Infinity>() > Scalar(1e20) || !x.allFinite()) {")],
      demo=IPM + """int main() {
  SQPMatrixCallbacks<double> m{2, 1,
    [](const D& x) { return x[0]; },
    [](const D&) { D g = vec({1, 0}); return Eigen::SparseVector<double>(g.sparseView()); },
    [](const D&, const D&) { return S(2, 2); },
    [](const D&, const D&) { return S(2, 2); },
    [](const D& x) { return vec({x[1] - 1}); },
    [](const D&) { return mat(1, 2, {0, 1}); }, {1.0, D::Ones(1), D(0)}};
  std::vector<std::function<bool(const IterationInfo<double>&)>> cb;
  bool huge = false;
  cb.push_back([&](const IterationInfo<double>& i) { huge |= i.x.lpNorm<Eigen::Infinity>() > 1e10; return false; });
  D x = vec({0, 0});
  Options o; o.max_iterations = 5000;
  auto s = sqp<double>(m, cb, o, x);
  same("status", int(s), int(ExitStatus::DIVERGING_ITERATES));
  same("iterated on huge values", huge, 0);
  return bad;
}
"""),
 dict(id="s04-callback-short-circuit", prop="S04", srcs="ipm",
      needs="two callbacks of which only the first asks for a stop",
      breaks="Newton's method only stops when the last callback asks for it",
      edits=[(SO + "newton.hpp", "    for (const auto& callback : iteration_callbacks) {", "    for (const auto& callback : iteration_callbacks.last(\n             iteration_callbacks.size() > 1 ? 1 : iteration_callbacks.size())) {")],
      demo=IPM + """int main() {
  NewtonMatrixCallbacks<double> m{1,
    [](const D& x) { return std::pow(x[0], 4); },
    [](const D& x) { D g = vec({4 * std::pow(x[0], 3)}); return Eigen::SparseVector<double>(g.sparseView()); },
    [](const D& x) { return mat(1, 1, {12 * x[0] * x[0]}); }, {1.0, D(0), D(0)}};
  std::vector<std::function<bool(const IterationInfo<double>&)>> cb{
    [](const IterationInfo<double>& i) { return i.iteration == 2; }, [](const IterationInfo<double>&) { return false; }};
  D x = vec({3.0});
  auto s = newton<double>(m, cb, {}, x);
  same("status", int(s), int(ExitStatus::CALLBACK_REQUESTED_STOP));
  return bad;
}
"""),
 dict(id="s05-newton-accepts-inf", prop="S05", srcs="",
      needs="a trial point at which the cost is minus infinity",
      breaks="Newton's line search only rejects a trial cost that is plus infinity or not a number",
      edits=[(SO + "newton.hpp", "      if (!isfinite(trial_f)) {", "      if (!(trial_f < std::numeric_limits<Scalar>::infinity())) {")],
      demo="", skip=True),
 dict(id="s05-sqp-constraint-nan", prop="S05", srcs="",
      needs="a trial point whose cost is finite but whose constraints are not",
      breaks="the SQP line search only requires the cost of a trial to be finite before it tries second-order corrections",
      edits=[(SO + "sqp.hpp", "      if (!isfinite(trial_f) || !trial_c_e.allFinite()) {", "      if (!isfinite(trial_f)) {")],
      demo="", skip=True),
 dict(id="s07-soc-rhs-constraint", prop="S07", srcs="",
      needs="a second-order correction in a problem with equality constraints",
      breaks="second-order corrections solve with the original equality values instead of the corrected ones in the lower block",
      edits=[(SO + "sqp.hpp", "          c_e_soc = α_soc * c_e_soc + trial_c_e;", "          c_e_soc = α_soc * c_e + trial_c_e;")],
      demo="", skip=True),
 dict(id="s07-sigma-transposed", prop="S07", srcs="ipm",
      needs="slacks and multipliers away from complementarity with more than one inequality",
      breaks="the right-hand side recovers the multiplier part with the barrier parameter divided by the multiplier",
      edits=[(SO + "interior_point.hpp", "        A_i.transpose() * (-Σ * c_i + μ * s.cwiseInverse() + z);", "        A_i.transpose() *\n            (Σ * (s - c_i) + μ * s.cwiseInverse() - (z - s.cwiseProduct(z)));")],
      demo=IPM + """int main() {
  // min (x-3)^2/2 s.t. x >= 0.5: from s = 2, z = 1 the first step solves
  // [1 + z/s] p = -(x - 3) + (-z/s c + mu/s + z)
  InteriorPointMatrixCallbacks<double> m{1, 0, 1,
    [](const D& x) { return 0.5 * (x[0] - 3) * (x[0] - 3); },
    [](const D& x) { D g = vec({x[0] - 3}); return Eigen::SparseVector<double>(g.sparseView()); },
    [](const D&, const D&, const D&) { return mat(1, 1, {1}); },
    [](const D&, const D&, const D&) { return S(1, 1); },
    [](const D&) { return D(0); }, [](const D&) { return S(0, 1); },
    [](const D& x) { return vec({x[0] - 0.5}); }, [](const D&) { return mat(1, 1, {1}); },
    {1.0, D(0), D::Ones(1)}};
  std::vector<D> xs;
  std::vector<std::function<bool(const IterationInfo<double>&)>> cb{[&](const IterationInfo<double>& i) { xs.push_back(i.x); return xs.size() == 2; }};
  D x = vec({2.5}), s = vec({2.0}), y(0), z = vec({1.0});
  double mu = 0.1; int it = 0;
  interior_point<double>(m, cb, Options{}, false, x, s, y, z, mu, it);
  double rhs = -(2.5 - 3) + (-0.5 * 2.0 + 0.1 / 2.0 + 1.0), p = rhs / 1.5;
  if (xs.size() < 2) { return 1; }
  double got = xs[1][0] - 2.5;
  // the step may be shortened, but not for this start
  near("step", got, p, 1e-6);
  return bad;
}
"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
