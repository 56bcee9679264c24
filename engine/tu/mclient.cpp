// Analysis unit: small matrix programs. The abstract result of each is compared
// with the rule named by the function's name. Nothing here runs.
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_block.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>;
using C = slp::VariableBlock<const M>;
using D = Eigen::MatrixXd;
using S = double;
using Z = slp::Slice;
using slp::slicing::_;

template slp::VariableMatrix<double> slp::solve(const slp::VariableMatrix<double>&, const slp::VariableMatrix<double>&);

namespace mclient {
// ---- arithmetic: <op>_<lhs>_<rhs>
#define BIN(name, op, L, R) M name##_##L##_##R(const L& a, const R& b) { return a op b; }
BIN(mmul, *, M, M) BIN(mmul, *, M, B) BIN(mmul, *, B, M) BIN(mmul, *, B, B) BIN(mmul, *, M, C) BIN(mmul, *, C, M)
BIN(mmul, *, M, D) BIN(mmul, *, D, M) BIN(mmul, *, B, D) BIN(mmul, *, D, B)
BIN(add, +, M, M) BIN(add, +, M, B) BIN(add, +, B, M) BIN(add, +, B, B) BIN(add, +, M, D) BIN(add, +, D, M) BIN(add, +, B, D) BIN(add, +, D, B)
BIN(sub, -, M, M) BIN(sub, -, M, B) BIN(sub, -, B, M) BIN(sub, -, B, B) BIN(sub, -, M, D) BIN(sub, -, D, M) BIN(sub, -, B, D) BIN(sub, -, D, B)
BIN(scale, *, M, S) BIN(scale, *, S, M) BIN(scale, *, B, S) BIN(scale, *, S, B) BIN(scale, *, M, V) BIN(scale, *, V, M) BIN(scale, *, B, V) BIN(scale, *, V, B) BIN(scale, *, M, int) BIN(scale, *, int, M)
BIN(div, /, M, S) BIN(div, /, B, S) BIN(div, /, M, V) BIN(div, /, B, V) BIN(div, /, M, int)
#define UN(name, L, e) M name##_##L(const L& a) { return e; }
UN(neg, M, -a) UN(neg, B, -a) UN(neg, C, -a)
UN(trans, M, a.T()) UN(trans, B, a.T()) UN(trans, C, a.T())
UN(map, M, a.cwise_transform([](const V& x) { return slp::sin(x); }))
UN(map, B, a.cwise_transform([](const V& x) { return slp::sin(x); }))
M reduce_M_M(const M& a, const M& b) { return slp::cwise_reduce<double>(a, b, [](const V& x, const V& y) { return slp::atan2(x, y); }); }
V scalar_M(const M& a) { return a; }
V scalar_B(const B& a) { return a; }

// ---- in place: in<op>_<lhs>_<rhs>; the right operand may be the destination
// itself (self) or one of its elements (elem)
#define INP(name, op, L, R) void in##name##_##L##_##R(L& a, const R& b) { a op b; }
INP(add, +=, M, M) INP(add, +=, M, B) INP(add, +=, B, M) INP(add, +=, M, D) INP(add, +=, B, D) INP(add, +=, B, B)
INP(sub, -=, M, M) INP(sub, -=, M, B) INP(sub, -=, B, M) INP(sub, -=, M, D) INP(sub, -=, B, D) INP(sub, -=, B, B)
INP(mmul, *=, M, M) INP(mmul, *=, M, B) INP(mmul, *=, B, M) INP(mmul, *=, M, D) INP(mmul, *=, B, D) INP(mmul, *=, B, B)
INP(scale, *=, M, S) INP(scale, *=, M, V) INP(scale, *=, B, S) INP(scale, *=, B, V) INP(scale, *=, M, int) INP(scale, *=, B, int)
INP(div, /=, M, S) INP(div, /=, M, V) INP(div, /=, B, S) INP(div, /=, B, V) INP(div, /=, M, int) INP(div, /=, B, int)
INP(addone, +=, M, S) INP(addone, +=, M, V) INP(addone, +=, B, S) INP(addone, +=, B, V)
INP(subone, -=, M, S) INP(subone, -=, M, V) INP(subone, -=, B, S) INP(subone, -=, B, V)
INP(assign, =, M, M) INP(assign, =, B, M) INP(assign, =, M, B) INP(assign, =, M, D) INP(assign, =, B, D) INP(assign, =, B, B)
INP(assignone, =, M, S) INP(assignone, =, M, V) INP(assignone, =, B, S) INP(assignone, =, B, V)
void inassignmove_B_M(B& a, M& b) { a = std::move(b); }
void inassignmove_M_M(M& a, M& b) { a = std::move(b); }
void inassignmove_B_B(B& a, B& b) { a = std::move(b); }

void self_add_M(M& a) { a += a; }
void self_sub_M(M& a) { a -= a; }
void self_mmul_M(M& a) { a *= a; }
void self_scale_M(M& a, int p, int q) { a *= a[p, q]; }
void self_div_M(M& a, int p, int q) { a /= a[p, q]; }
void self_add_B(B& a) { a += a; }
void self_sub_B(B& a) { a -= a; }
void self_mmul_B(B& a) { a *= a; }
void self_scale_B(B& a, int p, int q) { a *= a[p, q]; }
void self_div_B(B& a, int p, int q) { a /= a[p, q]; }
void self_assign_M(M& a) { a = a; }
void self_assign_B(B& a) { a = a; }
void self_assignmmul_M(M& a) { a = a * a; }
void self_assigntrans_M(M& a) { a = a.T(); }

// ---- construction from other containers
M make_M(const M& a) { M r{a}; return r; }
M make_B(const B& a) { M r{a}; return r; }
M make_C(const C& a) { M r{a}; return r; }
M make_D(const D& a) { M r{a}; return r; }
M make_V(const V& a) { M r{a}; return r; }
M make_mV(V& a) { M r{std::move(a)}; return r; }
M make_mM(M& a) { M r{std::move(a)}; return r; }
M make_span(std::span<const V> a) { M r{a}; return r; }
M make_spanrc(std::span<const V> a, int rows, int cols) { M r{a, rows, cols}; return r; }
M make_diag(const Eigen::DiagonalMatrix<double, Eigen::Dynamic>& a) { M r{a}; return r; }
M make_rc(int rows, int cols) { M r(rows, cols); return r; }
M make_r(int rows) { M r(rows); return r; }
M make_ilist(const V& a, const V& b, const V& c, const V& d, const V& e, const V& f) { M r{{a, b, c}, {d, e, f}}; return r; }
M make_vvV(const std::vector<std::vector<V>>& a) { M r{a}; return r; }
M make_vvS(const std::vector<std::vector<double>>& a) { M r{a}; return r; }

// ---- builders
M build_identity(int rows) { return M::identity(rows); }
M build_zero(int rows, int cols) { return M::zero(rows, cols); }
M build_one(int rows, int cols) { return M::one(rows, cols); }
M build_constant(int rows, int cols, double c) { return M::constant(rows, cols, c); }
M cat_22(const M& a, const M& b, const M& c, const M& d) { return slp::block<double>({{a, b}, {c, d}}); }
M cat_13(const M& a, const M& b, const M& c) { return slp::block<double>({{a, b, c}}); }
M cat_31(const M& a, const M& b, const M& c) { return slp::block<double>({{a}, {b}, {c}}); }
M cat_vec(const std::vector<std::vector<M>>& l) { return slp::block<double>(l); }

// ---- views: view_<what>_<of>
#define VIEWS(X, R) \
  R view_block_##X(X& m, int r, int c, int nr, int nc) { return m.block(r, c, nr, nc); } \
  R view_segment_##X(X& m, int r, int nr) { return m.segment(r, nr); } \
  R view_row_##X(X& m, int r) { return m.row(r); } \
  R view_col_##X(X& m, int c) { return m.col(c); } \
  R view_slice_##X(X& m, Z r, Z c) { return m[r, c]; } \
  R view_lslice_##X(X& m, Z r, int nr, Z c, int nc) { return m[r, nr, c, nc]; }
VIEWS(M, B)
VIEWS(B, B)
using CM = const M;
using CB = const B;
using CC = const C;
VIEWS(CM, C)
VIEWS(CB, C)
VIEWS(CC, C)
B view_whole_M(M& m) { B b{m}; return b; }
C view_whole_CM(const M& m) { C b{m}; return b; }
B view_ctor_M(M& m, int r, int c, int nr, int nc) { B b{m, r, c, nr, nc}; return b; }
B view_copy_B(const B& m) { B b{m}; return b; }
B view_move_B(B& m) { B b{std::move(m)}; return b; }
V& at2_M(M& m, int i, int j) { return m[i, j]; }
V& at2_B(B& m, int i, int j) { return m[i, j]; }
const V& at2_CM(const M& m, int i, int j) { return m[i, j]; }
const V& at2_CB(const B& m, int i, int j) { return m[i, j]; }
const V& at2_CC(const C& m, int i, int j) { return m[i, j]; }
V& at1_M(M& m, int i) { return m[i]; }
V& at1_B(B& m, int i) { return m[i]; }
const V& at1_CM(const M& m, int i) { return m[i]; }
const V& at1_CB(const B& m, int i) { return m[i]; }
const V& at1_CC(const C& m, int i) { return m[i]; }
int size_M(const M& m) { return m.size(); }
int size_B(const B& m) { return m.size(); }

// ---- slices
struct PS { int count; int start; int step; };
#define PYS(name, params, ...) PS pys_##name params { Z z{__VA_ARGS__}; int k = z.adjust(n); return PS{k, z.start, z.step}; }
PYS(none, (int n), _)
PYS(one, (int a, int n), a)
PYS(iii, (int a, int b, int c, int n), a, b, c)
PYS(nii, (int b, int c, int n), _, b, c)
PYS(ini, (int a, int c, int n), a, _, c)
PYS(nni, (int c, int n), _, _, c)
PYS(iin, (int a, int b, int n), a, b, _)
PYS(nin, (int b, int n), _, b, _)
PYS(inn, (int a, int n), a, _, _)
PYS(nnn, (int n), _, _, _)
PYS(ii, (int a, int b, int n), a, b)
PYS(ni, (int b, int n), _, b)
PYS(in, (int a, int n), a, _)
PYS(nn, (int n), _, _)

// ---- writing through views and to copies
void put_block(M& m, int r, int c, const M& b) { m.block(r, c, b.rows(), b.cols()) = b; }
void put_row(M& m, int r, const M& b) { m.row(r) = b; }
void put_col(M& m, int c, const M& b) { m.col(c) = b; }
void put_at(M& m, int r, int c, const V& b) { m[r, c] = b; }
void put_atB(B& a, int r, int c, const V& b) { a[r, c] = b; }
void put_valM(M& m, const D& b) { m.set_value(b); }
void put_valB(B& a, const D& b) { a.set_value(b); }
void put_row_val(M& m, int r, const D& b) { m.row(r).set_value(b); }
void put_col_val(M& m, int c, const D& b) { m.col(c).set_value(b); }
void put_block_val(M& m, int r, int c, const D& b) { m.block(r, c, b.rows(), b.cols()).set_value(b); }
void put_at_val(M& m, int r, int c, double b) { m.block(r, c, 1, 1).set_value(b); }
// ---- parts of a 3x3 matrix that become other parts of it
#define PART(name, dst, src) void part_##name(M& m) { m dst = m src; }
PART(rows, .row(0), .row(2)) PART(rowsup, .row(2), .row(1)) PART(cols, .col(0), .col(1)) PART(colsdown, .col(2), .col(0))
PART(blocks, .block(0, 0, 1, 2), .block(2, 1, 1, 2)) PART(samerow, .block(1, 0, 1, 1), .block(1, 2, 1, 1)) PART(samecol, .block(0, 1, 1, 1), .block(2, 1, 1, 1))
// ---- reading values
S valat2_M(M& m, int i, int j) { return m.value(i, j); }
S valat2_B(B& m, int i, int j) { return m.value(i, j); }
S valat1_M(M& m, int i) { return m.value(i); }
S valat1_B(B& m, int i) { return m.value(i); }
D vals_M(M& m) { return m.value(); }
D vals_B(B& m) { return m.value(); }
V keep_copyM(M& m, int p, int q, int r, int c, const V& v) { M n{m}; n[p, q] = v; return m[r, c]; }
V keep_copyB(B& m, int p, int q, int r, int c, const V& v) { M n{m}; n[p, q] = v; return m[r, c]; }
V keep_assignB(B& m, int p, int q, int r, int c, const V& v) { M n; n = m; n[p, q] = v; return m[r, c]; }
V seen_parent(M& m, int p, int q, const V& v) { B b = m.block(0, 0, m.rows(), m.cols()); m[p, q] = v; return b[p, q]; }
V seen_view(M& m, int p, int q, const V& v) { B b = m.block(0, 0, m.rows(), m.cols()); b[p, q] = v; return m[p, q]; }
V seen_copyview(M& m, int p, int q, const V& v) { B b = m.block(0, 0, m.rows(), m.cols()); B c{b}; c[p, q] = v; return m[p, q]; }

// ---- solving
M solve_M_M(const M& a, const M& b) { return slp::solve(a, b); }
M exp_M(const M& a) { return a.exp(); }
M exp_B(const B& a) { return a.exp(); }

// ---- iterators
#define ITERS(X) \
  decltype(auto) it_begin_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { ++i; } return *i; } \
  decltype(auto) it_post_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { i++; } return *i; } \
  decltype(auto) it_end_##X(X& m, int n) { auto i = m.end(); --i; for (int k = 0; k < n; ++k) { --i; } return *i; } \
  decltype(auto) it_postend_##X(X& m, int n) { auto i = m.end(); i--; for (int k = 0; k < n; ++k) { i--; } return *i; } \
  decltype(auto) it_postval_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { ++i; } return *(i++); } \
  decltype(auto) it_postdecval_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { ++i; } return *(i--); } \
  bool it_eq_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { ++i; } return i == m.end(); } \
  bool it_neq_##X(X& m, int n) { auto i = m.begin(); for (int k = 0; k < n; ++k) { ++i; } return i != m.end(); } \
  bool it_ceq_##X(X& m, int n) { auto i = m.cbegin(); for (int k = 0; k < n; ++k) { ++i; } return i == m.cend(); } \
  decltype(auto) it_rbegin_##X(X& m, int n) { auto i = m.rbegin().base(); --i; for (int k = 0; k < n; ++k) { --i; } return *i; } \
  decltype(auto) it_crbegin_##X(X& m, int n) { auto i = m.crbegin().base(); --i; for (int k = 0; k < n; ++k) { --i; } return *i; } \
  decltype(auto) it_rend_##X(X& m, int n) { auto i = m.rend().base(); for (int k = 0; k < n; ++k) { ++i; } return *i; } \
  decltype(auto) it_crend_##X(X& m, int n) { auto i = m.crend().base(); for (int k = 0; k < n; ++k) { ++i; } return *i; } \
  decltype(auto) it_cbegin_##X(X& m, int n) { auto i = m.cbegin(); for (int k = 0; k < n; ++k) { ++i; } return *i; } \
  decltype(auto) it_cend_##X(X& m, int n) { auto i = m.cend(); --i; for (int k = 0; k < n; ++k) { --i; } return *i; }
ITERS(M)
ITERS(B)
ITERS(CM)
ITERS(CB)
}  // namespace mclient
