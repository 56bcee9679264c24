import runpy, os
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s.py"))
IPM, SO = _s["IPM"], _s["SO"]
SEEDS = [
 dict(id="s05-newton-fallback-increase", prop="S05", srcs="ipm",
      needs="a point with a small gradient from which no step reduces the cost",
      breaks="Newton's fallback accepts the full step although the error grows, when the error is below one",
      edits=[(SO + "newton.hpp", "        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {", "        if (next_kkt_error <= Scalar(0.999) * std::max(current_kkt_error, Scalar(1))) {")],
      demo=IPM + """int main() {
  NewtonMatrixCallbacks<double> m{1,
    [](const D& x) { return x[0] == 0 ? 0.0 : 1.0 + x[0] * x[0]; },
    [](const D& x) { D g = vec({x[0] == 0 ? 1e-3 : 0.5}); return Eigen::SparseVector<double>(g.sparseView()); },
    [](const D&) { return mat(1, 1, {1.0}); }, {1.0, D(0), D(0)}};
  std::vector<std::function<bool(const IterationInfo<double>&)>> cb;
  D x = vec({0.0});
  Options o; o.max_iterations = 5;
  auto s = newton<double>(m, cb, o, x);
  same("status", int(s), int(ExitStatus::LINE_SEARCH_FAILED)); near("x", x[0], 0, 1e-12);
  return bad;
}
"""),
]
