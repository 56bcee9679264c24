EX = "include/sleipnir/autodiff/expression.hpp"
EG = "include/sleipnir/autodiff/expression_graph.hpp"
VA = "include/sleipnir/autodiff/variable.hpp"
VM = "include/sleipnir/autodiff/variable_matrix.hpp"
HE = "include/sleipnir/autodiff/hessian.hpp"
JA = "include/sleipnir/autodiff/jacobian.hpp"
PRE = """#include <cmath>
#include <cstdio>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
static int bad = 0;
static void near(const char* what, double a, double b) {
  if (!(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)))) { std::printf("%s: %.17g, expected %.17g\\n", what, a, b); bad = 1; }
}
"""
SEEDS = [
 dict(id="a01-hypot-symbolic-slope", prop="A01", srcs="lib",
      needs="a hypot() whose first operand is negative, differentiated symbolically (second derivatives)",
      breaks="HypotExpression::grad_expr_r is written through the slope y / x, which has the wrong sign for negative x",
      edits=[(EX, "    return this->adjoint_expr * y / hypot(x, y);", "    // d/dy hypot(x, y) = sin(angle), computed through the normalized slope\n    auto slope = y / x;\n    return this->adjoint_expr * slope / sqrt(constant_ptr(Scalar(1)) + slope * slope);")],
      demo=PRE + """int main() {
  V x, y; x.set_value(-3); y.set_value(4);
  M w{{x}, {y}};
  auto f = slp::hypot(x, y);
  slp::Gradient<double> g{f, w};
  M gs = g.get();
  near("numeric", g.value().coeff(1), 0.8);
  near("symbolic", gs[1].value(), 0.8);
  return bad;
}
"""),
 dict(id="a01-hypot-grad-at-zero", prop="A01", srcs="lib",
      needs="hypot(x, y) differentiated by y at exactly x = 0 with y negative",
      breaks="a shortcut for x = 0 returns derivative 1 instead of sign(y)",
      edits=[(EX, "    return this->adjoint * y / hypot(x, y);", "    if (x == Scalar(0)) {\n      // hypot(0, y) has unit slope\n      return this->adjoint;\n    }\n    return this->adjoint * y / hypot(x, y);")],
      demo=PRE + """int main() {
  V x, y; x.set_value(0); y.set_value(-4);
  M w{{x}, {y}};
  auto f = slp::hypot(x, y);
  slp::Gradient<double> g{f, w};
  near("dy", g.value().coeff(1), -1);
  x.set_value(3);
  near("dy", g.value().coeff(1), -0.8);
  return bad;
}
"""),
 dict(id="a02-minus-zero-prune", prop="A02",
      needs="a difference whose left operand is the constant zero and whose right operand is a nonzero constant",
      breaks="0 - x with x a nonzero constant is folded before negation: operator- returns rhs itself",
      edits=[(EX, "      if (rhs->is_constant(Scalar(0))) {\n        // Return zero, which rhs currently is", "      if (rhs->type() == CONSTANT) {\n        // Return zero, which rhs currently is")],
      demo=PRE + """int main() {
  V c = 3.0, z = 0.0, x; x.set_value(2);
  auto f = (z - c) * x;
  near("(0 - 3) * 2", f.value(), -6);
  return bad;
}
"""),
 dict(id="a02-pow-half-sqrt", prop="A02",
      needs="pow with the constant exponent -1 at a negative base",
      breaks="pow(x, -1) is rewritten as 1 / |x| via sqrt(x * x)",
      edits=[(EX, "  return make_expression_ptr<PowExpression<Scalar, NONLINEAR>>(base, power);", "  // Reciprocals are cheaper than pow()\n  if (power->is_constant(Scalar(-1))) {\n    return constant_ptr(Scalar(1)) / sqrt(base * base);\n  }\n\n  return make_expression_ptr<PowExpression<Scalar, NONLINEAR>>(base, power);")],
      demo=PRE + """int main() {
  V x; x.set_value(-4);
  near("pow(-4, -1)", slp::pow(x, -1.0).value(), -0.25);
  x.set_value(4);
  near("pow(4, -1)", slp::pow(x, -1.0).value(), 0.25);
  return bad;
}
"""),
 dict(id="a03-div-by-linear-type", prop="A03", srcs="lib",
      needs="a constant divided by a linear expression",
      breaks="constant / linear is reported as quadratic, so solver selection and derivative caching go wrong",
      edits=[(EX, "      return make_expression_ptr<DivExpression<Scalar, NONLINEAR>>(lhs, rhs);\n      }\n    } else {\n      return make_expression_ptr<DivExpression<Scalar, NONLINEAR>>(lhs, rhs);", "      return make_expression_ptr<DivExpression<Scalar, NONLINEAR>>(lhs, rhs);\n      }\n    } else if (lhs->type() == CONSTANT && rhs->type() == LINEAR) {\n      return make_expression_ptr<DivExpression<Scalar, QUADRATIC>>(lhs, rhs);\n    } else {\n      return make_expression_ptr<DivExpression<Scalar, NONLINEAR>>(lhs, rhs);")],
      demo=PRE + """int main() {
  V x; x.set_value(2);
  auto f = 1.0 / x;
  if (f.type() != slp::ExpressionType::NONLINEAR) { std::printf("1/x is reported as %d\\n", (int)f.type()); return 1; }
  return 0;
}
"""),
 dict(id="a04-hypot-scalar-first", prop="A04",
      needs="hypot with a plain number first and a variable second",
      breaks="the overload uses the variable for both operands",
      edits=[(VA, "  return Variable{detail::hypot(Variable<Scalar>(x).expr, y.expr)};", "  return Variable{detail::hypot(y.expr, Variable<Scalar>(y).expr)};")],
      demo=PRE + """int main() {
  V y; y.set_value(4);
  near("hypot(3, 4)", slp::hypot(3.0, y).value(), 5);
  return bad;
}
"""),
 dict(id="a04-pow-scalar-base", prop="A04",
      needs="pow with a plain number as base and a variable as power",
      breaks="the overload for a numeric base passes base and power in the wrong order",
      edits=[(VA, "  return Variable{detail::pow(Variable<Scalar>(base).expr, power.expr)};", "  return Variable{detail::pow(power.expr, Variable<Scalar>(base).expr)};")],
      demo=PRE + """int main() {
  V y; y.set_value(5);
  near("pow(2, 5)", slp::pow(2.0, y).value(), 32);
  return bad;
}
"""),
 dict(id="a05-linear-not-refreshed", prop="A05",
      needs="a linear expression read twice with an input changed in between",
      breaks="linear expressions are only evaluated on the first read",
      edits=[(VA, "      m_graph_initialized = true;\n    }\n    detail::update_values(m_graph);", "      m_graph_initialized = true;\n      detail::update_values(m_graph);\n    } else if (type() > ExpressionType::LINEAR) {\n      detail::update_values(m_graph);\n    }")],
      demo=PRE + """int main() {
  V x, y; x.set_value(2); y.set_value(1);
  auto f = 3.0 * x + y;
  near("f", f.value(), 7);
  x.set_value(3);
  near("f", f.value(), 10);
  return bad;
}
"""),
 dict(id="a06-toposort-diamond", prop="A06",
      needs="a node that is reached along two paths of different length (a diamond with unequal arms)",
      breaks="the second pass of the sort emits a node at its first removed edge rather than its last, so parents may come after children and nodes are listed twice",
      edits=[(EG, "      if (arg != nullptr && --arg->scratch == -1) {", "      if (arg != nullptr && --arg->scratch <= 0) {")],
      demo=PRE + """int main() {
  V x; x.set_value(3);
  auto a = x * x;
  auto b = a * x;
  auto c = b + a * a;
  slp::VariableMatrix<double> w{{x}};
  near("value", c.value(), 27 + 81);
  slp::Gradient<double> g{c, w};
  near("gradient", g.value().coeff(0), 3 * 9 + 4 * 27);
  return bad;
}
""", srcs="lib"),
 dict(id="a06-adjoint-left", prop="A06", srcs="lib",
      needs="two gradients over graphs that share an interior node which is not the root of either",
      breaks="zeroing starts after the second node: the second node keeps the adjoint of an earlier pass",
      edits=[(EG, "  for (auto& node : top_list | std::views::drop(1)) {\n    node->adjoint = Scalar(0);", "  for (auto& node : top_list | std::views::drop(2)) {\n    node->adjoint = Scalar(0);")],
      demo=PRE + """int main() {
  V x; x.set_value(3);
  auto a = slp::sin(x);
  auto f = slp::exp(a), g = slp::cos(a);
  slp::VariableMatrix<double> v{{f}, {g}}, w{{x}};
  slp::Jacobian<double> J{v, w};
  (void)J.value();
  near("df/dx", J.value().coeff(0, 0), std::cos(3) * std::exp(std::sin(3)));
  near("dg/dx", J.value().coeff(1, 0), -std::cos(3) * std::sin(std::sin(3)));
  return bad;
}
"""),
 dict(id="a07-lower-hessian-mixed", prop="A07", srcs="lib",
      needs="a Hessian with both constant and varying rows whose first row varies",
      breaks="the cached entries of constant rows are dropped when the first row varies",
      edits=[(HE, "    auto triplets = m_cached_triplets;\n", "    gch::small_vector<Eigen::Triplet<Scalar>> triplets;\n    if (m_nonlinear_rows[0] != 0) {\n      triplets = m_cached_triplets;\n    }\n")],
      demo=PRE + """int main() {
  V x, y; x.set_value(2); y.set_value(5);
  slp::VariableMatrix<double> w{{x}, {y}};
  auto f = x * x * x + y * y;
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> H{f, w};
  near("xx", H.value().coeff(0, 0), 12);
  near("yy", H.value().coeff(1, 1), 2);
  return bad;
}
"""),
 dict(id="a07-jacobian-quadratic-cached", prop="A07", srcs="lib",
      needs="a Jacobian with a quadratic row evaluated at two points",
      breaks="quadratic rows are cached like linear ones",
      edits=[(JA, "      if (m_variables[row].type() == ExpressionType::LINEAR) {", "      if (m_variables[row].type() < m_variables[m_variables.rows() - 1].type() ||\n          m_variables[row].type() == ExpressionType::LINEAR) {")],
      demo=PRE + """int main() {
  V x; x.set_value(2);
  slp::VariableMatrix<double> v{{x * x}, {slp::sin(x)}}, w{{x}};
  slp::Jacobian<double> J{v, w};
  near("before", J.value().coeff(0, 0), 4);
  x.set_value(3);
  near("after", J.value().coeff(0, 0), 6);
  return bad;
}
"""),
 dict(id="a08-hessian-get-null", prop="A08", srcs="lib",
      needs="the symbolic Hessian of a function in which some variable does not occur in a row",
      breaks="get() reuses the previous column's entry for variables a row does not depend on",
      edits=[(HE, "          result[row, col] = Variable{Scalar(0)};", "          result[row, col] = col > row && result[row, row].expr != nullptr &&\n                                     m_top_lists[row].empty() == false\n                                 ? result[row, row]\n                                 : Variable{Scalar(0)};")],
      demo=PRE + """int main() {
  V x, y; x.set_value(2); y.set_value(5);
  slp::VariableMatrix<double> w{{x}, {y}};
  auto f = x * x * x + y * y;
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> H{f, w};
  auto h = H.get();
  near("xx", h[0, 0].value(), 12);
  near("xy", h[0, 1].value(), 0);
  return bad;
}
"""),
 dict(id="a09-compound-inplace", prop="A09",
      needs="compound addition of a constant to a constant handle that another expression already uses",
      breaks="operator+= updates the node in place when both sides are constants, changing every expression built from it",
      edits=[(VA, "  Variable<Scalar>& operator+=(const Variable<Scalar>& rhs) {\n    *this = *this + rhs;", "  Variable<Scalar>& operator+=(const Variable<Scalar>& rhs) {\n    if (type() == ExpressionType::CONSTANT &&\n        rhs.type() == ExpressionType::CONSTANT) {\n      // Avoid allocating a new node for running sums of constants\n      expr->val += rhs.expr->val;\n      return *this;\n    }\n    *this = *this + rhs;")],
      demo=PRE + """int main() {
  V x; x.set_value(2);
  V c = 3.0;
  auto f = c * x;
  c += V{4.0};
  near("f", f.value(), 6);
  near("c", c.value(), 7);
  return bad;
}
"""),
 dict(id="a10-bounds-order", prop="A10", srcs="matrix",
      needs="bounds() on an expression whose value is above the upper bound",
      breaks="bounds() emits the lower side twice",
      edits=[(VA, "  return InequalityConstraints{l <= x, x <= u};", "  return InequalityConstraints{l <= x, l <= x};")],
      demo=PRE + """int main() {
  V x; x.set_value(9);
  auto c = slp::bounds(1.0, x, 5.0);
  if (c) { std::printf("9 is said to be within [1, 5]\\n"); return 1; }
  return 0;
}
"""),
]
