import runpy, os
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s.py"))
P = _s["P"]
I = "include/sleipnir/optimization/solver/interior_point.hpp"
S = "include/sleipnir/optimization/solver/sqp.hpp"
PROB = P("optimization/problem.hpp")
RUN = """#include <vector>
struct Log { std::vector<double> x; int status = 99; };
static Log go(double w, double x0) {
  Problem<double> p;
  auto x = p.decision_variable();
  x.set_value(x0);
  p.minimize(w * x);
  p.subject_to(x >= 0);
  Log l;
  p.add_callback([&](const IterationInfo<double>& i) { l.x.push_back(i.x[0]); return false; });
  Options o; o.tolerance = 1e-8; o.max_iterations = 200;
  l.status = int(p.solve(o));
  l.x.push_back(x.value());
  return l;
}
"""
SEEDS = [
 dict(id="s16-mu-slower-of-two", prop="S16", srcs="solve",
      needs="a barrier parameter small enough for the superlinear decrease to be the faster one",
      breaks="the barrier parameter is reduced by the slower of the two documented decreases, so it never decreases superlinearly",
      edits=[(I, "μ = std::max(μ_min, std::min(κ_μ * μ, pow(μ, θ_μ)));", "μ = std::max(μ_min, std::max(κ_μ * μ, pow(μ, θ_μ)));")],
      demo=PROB + RUN + """int main() {
  Log l = go(1.0, 1.0);
  // superlinear decrease: the ratio of successive distances keeps growing
  double best = 1;
  for (size_t k = 1; k < l.x.size(); ++k) { best = std::max(best, l.x[k - 1] / l.x[k]); }
  std::printf("%zu iterations, largest decrease %g\\n", l.x.size(), best);
  same("status", l.status, 0);
  if (best < 50) { bad = 1; }
  return bad;
}
"""),
 dict(id="s16-mu-min-unscaled", prop="S16", srcs="solve",
      needs="a cost whose gradient is large enough to be scaled down",
      breaks="the smallest barrier parameter ignores the cost's scale, so complementarity of the unscaled problem cannot be met",
      edits=[(I, "      matrices.scaling.f * Scalar(options.tolerance) / Scalar(10);", "      Scalar(options.tolerance) / Scalar(10);")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable(), y = p.decision_variable();
  x.set_value(1.0);
  p.minimize(1e7 * pow(y - 5.0, 2) + x);
  p.subject_to(x >= 0);
  Options o; o.tolerance = 1e-8; o.max_iterations = 300;
  int status = int(p.solve(o));
  std::printf("status %d, x %g\\n", status, x.value());
  same("status", status, 0);
  if (x.value() > 1e-6) { bad = 1; }
  return bad;
}
"""),
 dict(id="s16-tau-never-set", prop="S16", srcs="solve",
      needs="a step towards a bound that shrinks a slack by more than a factor of a hundred",
      breaks="the fraction to the boundary keeps its minimum when the barrier parameter is reduced",
      edits=[(I, "    τ = std::max(τ_min, Scalar(1) - μ);", "    τ = std::max(τ_min, Scalar(1) - std::max(μ, Scalar(1) - τ));")],
      demo=PROB + RUN + """int main() {
  Log l = go(1.0, 1.0);
  double best = 1;
  for (size_t k = 1; k < l.x.size(); ++k) { best = std::max(best, l.x[k - 1] / l.x[k]); }
  std::printf("%zu iterations, largest decrease %g\\n", l.x.size(), best);
  same("status", l.status, 0);
  if (best < 150) { bad = 1; }
  return bad;
}
"""),
 dict(id="s16-one-reduction-per-step", prop="S16", srcs="solve",
      needs="an iterate whose error is already below the threshold of the next barrier parameter",
      breaks="the barrier parameter is reduced at most once after each step",
      edits=[(I, "      while (μ > μ_min && E_μ <= κ_ε * μ) {", "      if (μ > μ_min && E_μ <= κ_ε * μ) {")],
      demo=PROB + RUN + """int main() {
  Log l = go(1.0, 1.0);
  std::printf("%zu iterations\\n", l.x.size());
  for (double v : l.x) { std::printf(" %g\\n", v); }
  same("status", l.status, 0);
  if (l.x.size() < 3 || l.x[2] > 0.01) { bad = 1; }
  return bad;
}
"""),
]
