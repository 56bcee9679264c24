// Analysis unit: instantiates the autodiff library for Scalar = double so that
// every template body below is resolved and type-checked. Nothing here runs.
#include <sleipnir/autodiff/expression.hpp>
#include <sleipnir/autodiff/expression_graph.hpp>
#include <sleipnir/autodiff/expression_type.hpp>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/slice.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_block.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/util/pool.hpp>

using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>;
using CB = slp::VariableBlock<const M>;
using D = Eigen::MatrixXd;
using DV = Eigen::VectorXd;

template class slp::Variable<double>;
template class slp::Gradient<double>;
template class slp::Jacobian<double>;
template class slp::Hessian<double, Eigen::Lower>;
template class slp::Hessian<double, Eigen::Lower | Eigen::Upper>;
template struct slp::EqualityConstraints<double>;
template struct slp::InequalityConstraints<double>;

void exercise_variable(V& a, V& b, V& c, double d, int n) {
  V v1{d};
  V v2 = n;
  V v3{2.0f};
  V v4;
  V v5{nullptr};
  v4 = d;
  v4 = n;
  (void)(a * b); (void)(a * d); (void)(d * a); (void)(a * n); (void)(n * a);
  (void)(a / b); (void)(a / d); (void)(d / a);
  (void)(a + b); (void)(a + d); (void)(d + a);
  (void)(a - b); (void)(a - d); (void)(d - a);
  (void)(-a); (void)(+a);
  a *= b; a /= b; a += b; a -= b;
  a *= d; a /= d; a += d; a -= d;
  a.set_value(d);
  (void)a.value(); (void)a.type();
  (void)slp::abs(a); (void)slp::acos(a); (void)slp::asin(a); (void)slp::atan(a);
  (void)slp::atan2(a, b); (void)slp::atan2(a, d); (void)slp::atan2(d, a);
  (void)slp::cbrt(a); (void)slp::cos(a); (void)slp::cosh(a); (void)slp::erf(a); (void)slp::exp(a);
  (void)slp::hypot(a, b); (void)slp::hypot(a, d); (void)slp::hypot(d, a); (void)slp::hypot(a, b, c);
  (void)slp::log(a); (void)slp::log10(a);
  (void)slp::max(a, b); (void)slp::max(a, d); (void)slp::max(d, a);
  (void)slp::min(a, b); (void)slp::min(a, d); (void)slp::min(d, a);
  (void)slp::pow(a, b); (void)slp::pow(a, d); (void)slp::pow(d, a); (void)slp::pow(a, n);
  (void)slp::sign(a); (void)slp::sin(a); (void)slp::sinh(a); (void)slp::sqrt(a); (void)slp::tan(a); (void)slp::tanh(a);
}

void exercise_constraints(V& a, V& b, M& m, M& m2, B& bl, const D& e, const DV& ev, double d) {
  (void)(a == b); (void)(a == d); (void)(d == a);
  (void)(a < b); (void)(a < d); (void)(d < a);
  (void)(a <= b); (void)(a <= d); (void)(d <= a);
  (void)(a > b); (void)(a > d); (void)(d > a);
  (void)(a >= b); (void)(a >= d); (void)(d >= a);
  (void)(m == m2); (void)(m == a); (void)(a == m); (void)(m == d); (void)(d == m); (void)(m == e); (void)(e == m); (void)(m == bl); (void)(bl == m);
  (void)(m < m2); (void)(m < a); (void)(a < m); (void)(m < d); (void)(d < m); (void)(m < e); (void)(e < m);
  (void)(m <= m2); (void)(m <= a); (void)(a <= m); (void)(m <= d); (void)(d <= m); (void)(m <= e); (void)(e <= m);
  (void)(m > m2); (void)(m > a); (void)(a > m); (void)(m > d); (void)(d > m); (void)(m > e); (void)(e > m);
  (void)(m >= m2); (void)(m >= a); (void)(a >= m); (void)(m >= d); (void)(d >= m); (void)(m >= e); (void)(e >= m);
  (void)slp::bounds(d, a, d); (void)slp::bounds(d, m, d); (void)slp::bounds(e, m, e); (void)slp::bounds(a, b, a); (void)slp::bounds(m, m2, m); (void)slp::bounds(a, m, b); (void)slp::bounds(m, bl, e); (void)slp::bounds(d, bl, a);
  slp::EqualityConstraints<double> eq{a == b, m == m2};
  slp::InequalityConstraints<double> in{a >= b, m >= m2};
  std::vector<slp::EqualityConstraints<double>> ve;
  std::vector<slp::InequalityConstraints<double>> vi;
  slp::EqualityConstraints<double> eq2{ve};
  slp::InequalityConstraints<double> in2{vi};
  if (eq) {}
  if (in) {}
  (void)ev;
}

void exercise_matrix(M& m, const M& cm, B& b, const B& cb, CB& k, const CB& ck, V& v, const V& cv, D& e, DV& ev, double d, int n) {
  using slp::Slice;
  using namespace slp::slicing;
  M m1{};
  M m2{n};
  M m3{n, n};
  M m4{slp::detail::empty, n, n};
  M m5{{v, v}, {v, v}};
  std::vector<std::vector<double>> vd;
  std::vector<std::vector<V>> vv;
  M m6{vd}; M m7{vv};
  M m8{e}; M m8b{ev}; M m8c = ev.asDiagonal();
  M m9{v}; M m10{std::move(v)}; M m10b{cv};
  M m11{b}; M m11b{k}; M m11c{cb};
  std::span<const V> sp;
  M m12{sp}; M m13{sp, n, n};
  m = e; m = ev; m = d; 
  m.set_value(e); m.set_value(ev);
  (void)m[n, n]; (void)cm[n, n]; (void)m[n]; (void)cm[n];
  (void)m.block(n, n, n, n); (void)cm.block(n, n, n, n);
  (void)m[Slice{n, n}, Slice{n, n, n}]; (void)cm[Slice{n, n}, Slice{n, n, n}];
  (void)m[Slice{_, n}, Slice{n, _}]; (void)m[Slice{_, _, n}, Slice{_}]; (void)m[Slice{n, n, _}, Slice{n}];
  (void)Slice{n, _, n}; (void)Slice{_, n, n}; (void)Slice{_, _, _}; (void)Slice{_, _}; (void)Slice{_, n, _}; (void)Slice{n, _, _}; (void)Slice{};
  (void)m[Slice{n, n}, n, Slice{n, n}, n]; (void)cm[Slice{n, n}, n, Slice{n, n}, n];
  (void)m.segment(n, n); (void)cm.segment(n, n);
  (void)m.row(n); (void)cm.row(n); (void)m.col(n); (void)cm.col(n);
  (void)(e * m); (void)(m * e); (void)(m * m1); (void)(m * v); (void)(m * d); (void)(v * m); (void)(d * m);
  (void)(e * b); (void)(b * e); (void)(b * m1); (void)(m * b); (void)(b * b); (void)(b * v); (void)(b * d); (void)(v * b); (void)(d * b);
  (void)(m * k); (void)(k * m);
  m *= m1; m *= e; m *= d; m *= v; m *= b;
  (void)(m / v); (void)(m / d); (void)(b / v); (void)(b / d);
  m /= d; m /= v;
  (void)(e + m); (void)(m + e); (void)(m + m1); (void)(m + b); (void)(b + m); (void)(b + b); (void)(e + b); (void)(b + e);
  (void)(e - m); (void)(m - e); (void)(m - m1); (void)(m - b); (void)(b - m); (void)(b - b); (void)(e - b); (void)(b - e);
  m += m1; m += e; m += b; m += d; m += v;
  m -= m1; m -= e; m -= b; m -= d; m -= v;
  (void)(-m); (void)(-b);
  V vx = m; V vy = b; V vz = k; V vw{m};
  (void)m.T(); (void)b.T(); (void)k.T();
  (void)m.rows(); (void)m.cols();
  (void)m.value(n, n); (void)m.value(n); (void)m.value();
  (void)m.to_eigen();
  (void)m.cwise_transform([](const V& x) { return slp::sin(x); });
  (void)b.cwise_transform([](const V& x) { return slp::sin(x); });
  (void)m.size(); (void)b.size();
  for (auto& x : m) (void)x;
  for (const auto& x : cm) (void)x;
  for (auto& x : b) (void)x;
  for (const auto& x : cb) (void)x;
  (void)m.cbegin(); (void)m.cend(); (void)m.rbegin(); (void)m.rend(); (void)cm.rbegin(); (void)cm.rend(); (void)m.crbegin(); (void)m.crend();
  (void)b.cbegin(); (void)b.cend(); (void)b.rbegin(); (void)b.rend(); (void)cb.rbegin(); (void)cb.rend(); (void)b.crbegin(); (void)b.crend();
  { auto it = m.begin(); ++it; it++; --it; it--; (void)(it == m.end()); (void)*it; }
  { auto it = cm.begin(); ++it; it++; --it; it--; (void)(it == cm.end()); (void)*it; }
  { auto it = b.begin(); ++it; it++; --it; it--; (void)(it == b.end()); (void)*it; }
  { auto it = cb.begin(); ++it; it++; --it; (void)(it == cb.end()); (void)*it; }
  (void)M::identity(n); (void)M::zero(n, n); (void)M::one(n, n); (void)M::constant(n, n, d);
  (void)slp::cwise_reduce<double>(m, m1, [](const V& x, const V& y) { return x * y; });
  (void)slp::block<double>({{m, m}, {m, m}});
  std::vector<std::vector<M>> vm;
  (void)slp::block<double>(vm);
  // blocks
  B b1{m}; B b2{m, n, n, n, n}; B b3{m, Slice{n, n}, n, Slice{n, n}, n}; B b4{b};
  CB k1{cm}; CB k2{cm, n, n, n, n};
  b = b1; b = std::move(b2); b = d; b = v; b = e; b = m; b = std::move(m1);
  b.set_value(d); b.set_value(e);
  (void)b[n, n]; (void)cb[n, n]; (void)b[n]; (void)cb[n]; (void)k[n]; (void)ck[n, n]; (void)ck[n];
  (void)b.block(n, n, n, n); (void)k.block(n, n, n, n); (void)ck.block(n, n, n, n);
  (void)b[Slice{n, n}, Slice{n, n}]; (void)ck[Slice{n, n}, Slice{n, n}]; 
  (void)b[Slice{n, n}, n, Slice{n, n}, n]; (void)ck[Slice{n, n}, n, Slice{n, n}, n]; 
  (void)b.segment(n, n); (void)ck.segment(n, n);
  (void)b.row(n); (void)b.col(n); (void)ck.row(n); (void)ck.col(n); 
  b *= m1; b *= e; b *= d; b *= v; b *= b1; b /= d; b /= v; b += m1; b += e; b += d; b += v; b -= m1; b -= e; b -= d; b -= v; b += b1; b -= b1;
  (void)b.rows(); (void)b.cols(); (void)b.value(n, n); (void)b.value(n); (void)b.value();
}

void exercise_solve(const M& a, const M& b) {
  (void)slp::solve(a, b);
  (void)a.exp();
}

void exercise_derivatives(V& v, M& m, B& b) {
  slp::Jacobian<double> j1{v, v}, j2{v, m}, j3{m, m};
  slp::Hessian<double, Eigen::Lower> h1{v, v}, h2{v, m};
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> h3{v, v}, h4{v, m};
  slp::Gradient<double> g1{v, v}, g2{v, m};
}
