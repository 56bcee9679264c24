// Analysis unit: small client programs whose abstract result is the rule of a
// property. Nothing here runs.
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/autodiff/variable_block.hpp>

using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>;

namespace client {
V copy_construct(V& a) { V b{a}; return b; }
V copy_construct_const(const V& a) { V b{a}; return b; }
V move_construct(V& a) { V b{std::move(a)}; return b; }
V copy_assign(V& a, V& b) { a = b; return a; }
V move_assign(V& a, V& b) { a = std::move(b); return a; }
V self_assign(V& a) { a = a; return a; }
V scalar_assign(V& a, double d) { a = d; return a; }
V int_assign(V& a, int d) { a = d; return a; }
V built_then_rebound(V& a, V& b, V& c) { V f = a * b; a = c; return f; }
V built_then_scalar(V& a, V& b, double d) { V f = a * b; a = d; return f; }
V built_then_compound(V& a, V& b, V& c) { V f = a + b; a *= c; return f; }
V built_then_scalar_compound(V& a, V& b, double d) { V f = a + b; a -= d; return f; }
double set_through_copy(V& a, double d) { V b = a; b.set_value(d); return a.expr->val; }
double set_through_original(V& a, double d) { V b = a; a.set_value(d); return b.expr->val; }
double set_after_rebind(V& a, V& c, double d) { V b = a; a = c; a.set_value(d); return b.expr->val; }
double set_after_scalar(V& a, double x, double d) { V b = a; a = x; a.set_value(d); return b.expr->val; }
double value_after_rebind(V& a, V& b) { (void)a.value(); a = b; return a.value(); }
double value_after_scalar(V& a, double d) { (void)a.value(); a = d; return a.value(); }
double value_after_compound(V& a, V& b) { (void)a.value(); a += b; return a.value(); }
double value_of_copy(V& a) { (void)a.value(); V b{a}; return b.value(); }
double value_after_move(V& a, V& b) { (void)a.value(); a = std::move(b); return a.value(); }
double value_after_set(V& a, V& b, double d) { (void)a.value(); b.set_value(d); return a.value(); }
double value_through_copy_assign(V& a, V& b, V& c) { (void)a.value(); (void)b.value(); V t = a; a = b; b = c; return a.value(); }
double read_then_scalar(V& a, V& b, double d) { V x{a * b}; (void)x.value(); x = d; return x.value(); }
double read_then_rebind(V& a, V& b, V& c) { V x{a * b}; (void)x.value(); x = c; return x.value(); }
double read_then_move(V& a, V& b, V& c) { V x{a * b}; (void)x.value(); x = V{b * c}; return x.value(); }
double read_then_compound(V& a, V& b, V& c) { V x{a * b}; (void)x.value(); x += c; return x.value(); }
V fresh() { V a; return a; }
V element_then_rebound(M& m, int i, int j, V& c) { V f = m[i, j]; m[i, j] = c; return f; }
V block_element_then_rebound(B& m, int i, int j, V& c) { V f = m[i, j]; m[i, j] = c; return f; }
V matrix_copy_then_rebound(M& m, int i, int j, V& c) { M n{m}; m[i, j] = c; return n[i, j]; }
V matrix_copy_assign(M& m, M& n, int i, int j, V& c) { n = m; m[i, j] = c; return n[i, j]; }
}  // namespace client
