import runpy, os
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s.py"))
P = _s["P"]
PR = "include/sleipnir/optimization/problem.hpp"
OC = "include/sleipnir/optimization/ocp.hpp"
MS = "include/sleipnir/optimization/multistart.hpp"
PROB = P("optimization/problem.hpp")
OCPH = P("optimization/ocp.hpp")
SEEDS = [
 dict(id="p01-first-objective-kept", prop="P01", srcs="solve",
      needs="a problem given an objective twice, the second time as a temporary",
      breaks="minimizing a temporary keeps an objective that was given before",
      edits=[(PR, "  void minimize(Variable<Scalar>&& cost) { m_f = std::move(cost); }", "  void minimize(Variable<Scalar>&& cost) {\n    if (!m_f) {\n      m_f = std::move(cost);\n    }\n  }")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable();
  p.minimize(pow(x - 1.0, 2));
  p.minimize(pow(x - 7.0, 2));
  p.solve();
  near("x", x.value(), 7.0, 1e-6);
  return bad;
}
"""),
 dict(id="p01-maximize-quadratic", prop="P01", srcs="solve",
      needs="maximizing an lvalue objective that was built beforehand",
      breaks="maximizing a stored objective negates it only while no other objective was given before",
      edits=[(PR, "    m_f = -objective;", "    m_f = m_f ? objective : -objective;")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable();
  p.subject_to(x <= 4.0); p.subject_to(x >= -2.0);
  auto o = 3.0 * x;
  p.minimize(o);
  p.maximize(o);
  p.solve();
  near("x", x.value(), 4.0, 1e-5);
  return bad;
}
"""),
 dict(id="p02-symmetric-order", prop="P02", srcs="solve",
      needs="a symmetric matrix of at least three rows",
      breaks="the mirrored entry of a symmetric matrix refers to the first variable of its column from the third row on",
      edits=[(PR, "        vars[col, row] = m_decision_variables.back();", "        vars[col, row] = row < 2 || col == row ? m_decision_variables.back()\n                                   : vars[row, 0];")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.symmetric_decision_variable(3);
  Variable<double> f{0.0};
  for (int i = 0; i < 3; ++i) { for (int j = 0; j <= i; ++j) { f += pow(x[i, j] - (10.0 * i + j), 2); } }
  p.minimize(f);
  p.solve();
  for (int i = 0; i < 3; ++i) { for (int j = 0; j <= i; ++j) { near("lower", x[i, j].value(), 10 * i + j, 1e-6); near("upper", x[j, i].value(), 10 * i + j, 1e-6); } }
  return bad;
}
"""),
 dict(id="p02-no-writeback-on-failure", prop="P02", srcs="solve",
      needs="a solve that stops on its iteration limit",
      breaks="the final iterate of an unsuccessful solve is not written back",
      edits=[(PR, "    VariableMatrix<Scalar>{m_decision_variables}.set_value(x);\n\n    return status;", "    if (status != ExitStatus::MAX_ITERATIONS_EXCEEDED) {\n      VariableMatrix<Scalar>{m_decision_variables}.set_value(x);\n    }\n\n    return status;")],
      demo="", skip=True),
 dict(id="p03-conflict-only-first-variable", prop="P03", srcs="solve",
      needs="conflicting bounds together with an equality constraint",
      breaks="conflicting bounds are only reported when the problem has no equality constraints",
      edits=[(PR, "      if (!conflicting_bound_indices.empty()) {", "      if (!conflicting_bound_indices.empty() &&\n          conflicting_bound_indices.size() > m_equality_constraints.size()) {")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable(2);
  p.minimize(x[0] * x[0] + x[1] * x[1]);
  p.subject_to(x[0] + x[1] == 1.0);
  p.subject_to(x[0] >= 2.0);
  p.subject_to(x[0] <= 1.0);
  same("status", int(p.solve()), int(ExitStatus::GLOBALLY_INFEASIBLE));
  return bad;
}
"""),
 dict(id="p03-noop-ignores-equalities", prop="P03", srcs="solve",
      needs="a problem without objective whose only nonconstant part is its equality constraints",
      breaks="a problem is taken for constant when cost and inequalities are, whatever its equality constraints",
      edits=[(PR, "        c_e_type <= ExpressionType::CONSTANT &&\n", "        (c_e_type <= ExpressionType::CONSTANT || f_type == c_i_type) &&\n")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable();
  p.subject_to(x == 3.0);
  p.solve();
  near("x", x.value(), 3.0, 1e-6);
  return bad;
}
"""),
 dict(id="p04-callback-void-stops", prop="P04", srcs="solve",
      needs="a persistent callback registered before an ordinary one",
      breaks="persistent callbacks run before the ordinary ones",
      edits=[(PR, "    for (const auto& callback : m_iteration_callbacks) {\n      iteration_callbacks.emplace_back(callback);\n    }\n    for (const auto& callback : m_persistent_iteration_callbacks) {\n      iteration_callbacks.emplace_back(callback);\n    }\n", "    for (const auto& callback : m_persistent_iteration_callbacks) {\n      iteration_callbacks.emplace_back(callback);\n    }\n    for (const auto& callback : m_iteration_callbacks) {\n      iteration_callbacks.emplace_back(callback);\n    }\n")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable();
  p.minimize(pow(x - 1.0, 4));
  std::vector<int> order;
  p.add_persistent_callback([&](const IterationInfo<double>&) { order.push_back(2); return false; });
  p.add_callback([&](const IterationInfo<double>&) { order.push_back(1); });
  p.solve();
  for (size_t i = 0; i < order.size(); ++i) { same("order", order[i], i % 2 ? 2 : 1); }
  same("ran", order.size() >= 2, 1);
  return bad;
}
"""),
 dict(id="p04-clear-drops-persistent", prop="P04", srcs="solve",
      needs="clearing callbacks when there are no ordinary ones",
      breaks="clearing callbacks twice also removes the persistent ones",
      edits=[(PR, "  void clear_callbacks() { m_iteration_callbacks.clear(); }", "  void clear_callbacks() {\n    if (m_iteration_callbacks.empty()) {\n      m_persistent_iteration_callbacks.clear();\n    }\n    m_iteration_callbacks.clear();\n  }")],
      demo=PROB + """int main() {
  Problem<double> p;
  auto x = p.decision_variable();
  p.minimize(pow(x - 1.0, 4));
  int n = 0;
  p.add_persistent_callback([&](const IterationInfo<double>&) { ++n; return false; });
  p.clear_callbacks();
  p.clear_callbacks();
  p.solve();
  same("called", n > 0, 1);
  return bad;
}
"""),
 dict(id="p05-rk4-time-varying", prop="P05", srcs="ocp",
      needs="time-dependent dynamics with explicit integration",
      breaks="the third stage of the integrator is evaluated at the end of the step",
      edits=[(OC, "    State k3 = f(t0 + halfdt, x + k2 * halfdt, u, dt);", "    State k3 = f(t0 + dt, x + k2 * halfdt, u, dt);")],
      demo=OCPH + """int main() {
  using V = Variable<double>; using M = VariableMatrix<double>;
  auto f = [](const V& t, const M& x, const M& u, const V&) -> M { M r(1); r[0] = t * t * t + 0.0 * x[0] + 0.0 * u[0]; return r; };
  OCP<double> p(1, 1, std::chrono::duration<double>{0.5}, 2, function_ref<M(const V&, const M&, const M&, const V&)>{f}, DynamicsType::EXPLICIT_ODE, TimestepMethod::FIXED, TranscriptionMethod::SINGLE_SHOOTING);
  near("x(1)", p.X()[0, 2].value(), 0.25);
  return bad;
}
"""),
 dict(id="p05-collocation-midpoint-input", prop="P05", srcs="ocp",
      needs="collocation with inputs that differ between steps",
      breaks="the collocation point uses the input at the start of the step",
      edits=[(OC, "      auto u_c = Scalar(0.5) * (u_begin + u_end);", "      auto u_c = Scalar(0.5) * (u_begin + (i > 0 ? u_begin : u_end));")],
      demo=OCPH + """int main() {
  using V = Variable<double>; using M = VariableMatrix<double>;
  auto f = [](const M&, const M& u) -> M { M r(1); r[0] = u[0] * u[0]; return r; };
  OCP<double> p(1, 1, std::chrono::duration<double>{1.0}, 2, function_ref<M(const M&, const M&)>{f}, DynamicsType::EXPLICIT_ODE, TimestepMethod::FIXED, TranscriptionMethod::DIRECT_COLLOCATION);
  Eigen::VectorXd u = vec({0, 1, 2});
  for (int i = 0; i < 3; ++i) { p.subject_to(p.U()[0, i] == u[i]); }
  p.constrain_initial_state(0.0);
  p.solve();
  // u^2 integrated with Simpson's rule: 1/3 and 7/3
  near("x1", p.X()[0, 1].value(), 1.0 / 3.0, 1e-6);
  near("x2", p.X()[0, 2].value(), 8.0 / 3.0, 1e-6);
  return bad;
}
"""),
 dict(id="p05-last-input-unbounded", prop="P05", srcs="ocp",
      needs="an input bound and a cost on the input of the final step",
      breaks="upper input bounds leave out the final step",
      edits=[(OC, "    for (int i = 0; i < m_num_steps + 1; ++i) {\n      this->subject_to(U().col(i) <= upper_bound);", "    for (int i = 0; i < m_num_steps; ++i) {\n      this->subject_to(U().col(i) <= upper_bound);")],
      demo=OCPH + """int main() {
  using V = Variable<double>; using M = VariableMatrix<double>;
  auto f = [](const M& x, const M& u) -> M { return x + u; };
  OCP<double> p(1, 1, std::chrono::duration<double>{1.0}, 2, function_ref<M(const M&, const M&)>{f}, DynamicsType::DISCRETE, TimestepMethod::FIXED, TranscriptionMethod::DIRECT_TRANSCRIPTION);
  p.constrain_initial_state(0.0);
  p.set_upper_input_bound(1.0);
  Variable<double> c{0.0};
  for (int i = 0; i < 3; ++i) { c += pow(p.U()[0, i] - 5.0, 2); }
  p.minimize(c);
  p.solve();
  for (int i = 0; i < 3; ++i) { near("u", p.U()[0, i].value(), 1.0, 1e-4); }
  return bad;
}
"""),
 dict(id="p05-variable-dt-time", prop="P05", srcs="ocp",
      needs="a per-step time passed to the user's step callback with varying durations",
      breaks="the step callback's time is the step index times its duration",
      edits=[(OC, "      auto dt = this->dt()[0, i];\n      callback(time, x, u, dt);\n\n      time += dt;", "      auto dt = this->dt()[0, i];\n      callback(time, x, u, dt);\n\n      time = Scalar(i + 1) * dt;")],
      demo=OCPH + """int main() {
  using V = Variable<double>; using M = VariableMatrix<double>;
  auto f = [](const M& x, const M& u) -> M { return x + u; };
  OCP<double> p(1, 1, std::chrono::duration<double>{1.0}, 3, function_ref<M(const M&, const M&)>{f}, DynamicsType::DISCRETE, TimestepMethod::VARIABLE, TranscriptionMethod::DIRECT_TRANSCRIPTION);
  for (int i = 0; i < 4; ++i) { p.dt()[0, i].set_value(i + 1.0); }
  std::vector<double> t;
  auto cb = [&](const V& time, const M&, const M&, const V&) { V s = time; t.push_back(s.value()); };
  p.for_each_step(function_ref<void(const V&, const M&, const M&, const V&)>{cb});
  double e[] = {0, 1, 3, 6};
  for (int i = 0; i < 4; ++i) { near("t", t[i], e[i]); }
  return bad;
}
"""),
 dict(id="p06-last-guess-skipped", prop="P06", srcs="matrix",
      needs="the best outcome belonging to the last of many guesses",
      breaks="the last result is left out of the comparison when there are more than two",
      edits=[(MS, "  for (auto& future : futures) {\n    results.emplace_back(future.get());\n  }", "  for (auto& future : futures) {\n    auto result = future.get();\n    if (results.size() < 2 || result.cost < results.back().cost) {\n      results.emplace_back(std::move(result));\n    }\n  }")],
      demo=P("optimization/multistart.hpp") + """int main() {
  using R = MultistartResult<double, double>;
  auto solve = [](const double& g) -> R { return {g < 0 ? ExitStatus::MAX_ITERATIONS_EXCEEDED : ExitStatus::SUCCESS, g, g}; };
  std::vector<double> guesses{-3, -5, 2};
  auto r = multistart<double, double>(function_ref<R(const double&)>{solve}, std::span<const double>{guesses});
  near("variables", r.variables, 2); same("status", int(r.status), 0);
  return bad;
}
"""),
 dict(id="p06-prefers-any-cheap", prop="P06", srcs="matrix",
      needs="a failed solve with a lower cost than a successful one given before it",
      breaks="a failed result listed after a successful one wins if it is cheaper",
      edits=[(MS, "    // Otherwise prioritize solution with lower cost\n    return a.cost < b.cost;", "    // Otherwise prioritize solution with lower cost\n    return b.cost > a.cost && a.status >= b.status;")],
      demo=P("optimization/multistart.hpp") + """int main() {
  using R = MultistartResult<double, double>;
  auto solve = [](const double& g) -> R { return {g < 0 ? (g < -4 ? ExitStatus::TIMEOUT : ExitStatus::MAX_ITERATIONS_EXCEEDED) : ExitStatus::SUCCESS, g, g}; };
  std::vector<double> guesses{-3, -5};
  auto r = multistart<double, double>(function_ref<R(const double&)>{solve}, std::span<const double>{guesses});
  near("cheapest", r.variables, -5);
  return bad;
}
"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
