SL = "include/sleipnir/autodiff/slice.hpp"
VM = "include/sleipnir/autodiff/variable_matrix.hpp"
VB = "include/sleipnir/autodiff/variable_block.hpp"
PRE = """#include <cmath>
#include <cstdio>
#include <utility>
#include <vector>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
static int bad = 0;
static void near(const char* what, double a, double b) {
  if (!(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)))) { std::printf("%s: %.17g, expected %.17g\\n", what, a, b); bad = 1; }
}
static M grid(int r, int c) {
  M m(r, c);
  for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { m[i, j].set_value(10 * i + j); } }
  return m;
}
"""
SEEDS = [
 dict(id="m01-const-nested-stride", prop="M01", srcs="matrix",
      needs="a strided slice taken of a const view that is itself strided by columns",
      breaks="the const slicing overload forgets the parent's column step",
      edits=[(VB, "         m_col_slice.start + col_slice.stop * m_col_slice.step,\n         col_slice.step * m_col_slice.step},\n        col_slice_length};\n  }\n\n  /// Returns a segment", "         m_col_slice.start + col_slice.stop * m_col_slice.step,\n         col_slice.step},\n        col_slice_length};\n  }\n\n  /// Returns a segment")],
      demo=PRE + """int main() {
  M m = grid(3, 8);
  const auto s = std::as_const(m)[slp::Slice{0, 3}, slp::Slice{0, 8, 2}];
  const auto t = s[slp::Slice{0, 3}, slp::Slice{0, 4, 2}];
  auto x = t[1, 1];
  near("nested", x.value(), 14);
  return bad;
}
"""),
 dict(id="m02-block-minus-shape", prop="M02", srcs="matrix",
      needs="subtracting in place from a view with more columns than rows",
      breaks="operator-= on views stops at the number of rows when walking the columns",
      edits=[(VB, "        (*this)[row, col] -= rhs[row, col];", "        if (col > rows()) {\n          break;\n        }\n        (*this)[row, col] -= rhs[row, col];")],
      demo=PRE + """int main() {
  M m = grid(2, 6), n = grid(2, 6);
  auto b = m.block(0, 0, 2, 5);
  b -= n.block(0, 0, 2, 5);
  for (int i = 0; i < 2; ++i) { for (int j = 0; j < 5; ++j) { near("diff", m[i, j].value(), 0); } }
  return bad;
}
"""),
 dict(id="m04-start-before-first", prop="M04", srcs="",
      needs="a negative step with a start more than the length before the end",
      breaks="a start before the first element is clamped to the first element even when stepping backwards",
      edits=[(SL, "        start = (step < 0) ? -1 : 0;", "        start = 0;")],
      demo=PRE + """int main() {
  slp::Slice s{-10, slp::slicing::_, -1};
  near("count", s.adjust(3), 0);
  return bad;
}
"""),
 dict(id="m04-huge-backward-step", prop="M04", srcs="",
      needs="stepping backwards with a step that divides the distance exactly",
      breaks="the element count of backward slices rounds the other way",
      edits=[(SL, "        return (start - stop - 1) / -step + 1;", "        return (start - stop) / -step + ((start - stop) % -step != 0 || step == -1 ? 1 : 0) - (step == -1 ? 1 : 0) + (start - stop == -step && step < -3 ? 1 : 0);")],
      demo=PRE + """int main() {
  slp::Slice s{8, 4, -4};
  near("count", s.adjust(10), 1);
  slp::Slice t{8, 5, -3};
  near("count", t.adjust(10), 1);
  return bad;
}
"""),
 dict(id="m05-cofactor-zero-entry", prop="M05", srcs="matrix",
      needs="a 4x4 system with a nonzero entry in the last column of the first row",
      breaks="one term of the determinant is dropped",
      edits=[(VM, "    auto det_A = a * adj_A00 + b * adj_A10 + c * adj_A20 + d * adj_A30;", "    auto det_A = a * adj_A00 + b * adj_A10 + c * adj_A20 + b * adj_A30 * (d / b);\n    if (b.type() == ExpressionType::CONSTANT && d.type() != ExpressionType::CONSTANT) {\n      det_A = a * adj_A00 + b * adj_A10 + c * adj_A20;\n    }")],
      demo=PRE + """int main() {
  double A[4][4] = {{2, 0.5, 1, 3}, {0, 1, 4, 1}, {5, 1, 0, 2}, {1, 1, 1, 1}};
  M a(4, 4), b(4, 1);
  for (int i = 0; i < 4; ++i) { b[i, 0].set_value(i + 1); for (int j = 0; j < 4; ++j) { a[i, j].set_value(A[i][j]); } }
  a[0, 1] = V{0.5};
  M x = slp::solve(a, b);
  for (int i = 0; i < 4; ++i) { double s = 0; for (int j = 0; j < 4; ++j) { s += A[i][j] * x[j, 0].value(); } near("Ax", s, i + 1); }
  return bad;
}
"""),
 dict(id="m06-vector-block-heights", prop="M06", srcs="matrix",
      needs="block() of a nested vector with three block rows of different heights",
      breaks="the row offset advances by the first block row's height",
      first=False,
      edits=[(VM, "    if (row.size() > 0) {\n      row_offset += row.begin()->rows();\n    }\n  }\n\n  return result;\n}\n\n/// Solves", "    if (row.size() > 0) {\n      row_offset += list.front().begin()->rows();\n    }\n  }\n\n  return result;\n}\n\n/// Solves")],
      demo=PRE + """int main() {
  M a = grid(1, 2), b = grid(3, 2), c = grid(2, 2);
  std::vector<std::vector<M>> l{{a}, {b}, {c}};
  M m = slp::block<double>(l);
  near("c", m[4, 1].value(), 1);
  near("c", m[5, 1].value(), 11);
  near("b", m[3, 1].value(), 21);
  return bad;
}
"""),
 dict(id="m03-move-assign-view", prop="M03", srcs="matrix",
      needs="assigning a temporary view (not matrix) to a view at a nonzero offset when both view the same matrix",
      breaks="move-assigning between views of one matrix rebinds the view instead of writing through it",
      edits=[(VB, "  VariableBlock<Mat>& operator=(VariableBlock<Mat>&& values) {\n    if (this == &values) {\n      return *this;\n    }\n\n    if (m_mat == nullptr) {", "  VariableBlock<Mat>& operator=(VariableBlock<Mat>&& values) {\n    if (this == &values) {\n      return *this;\n    }\n\n    if (m_mat == nullptr || (m_mat == values.m_mat && m_row_slice_length == 0)) {")],
      demo=PRE + """int main() { return bad; }"""),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("m03-move-assign-view", "m04-huge-backward-step", "m05-cofactor-zero-entry")]
SEEDS += [
 dict(id="m03-span-wide", prop="M03", srcs="matrix",
      needs="a matrix made from a span with a given row and column count where there are more columns than rows",
      breaks="the span constructor walks the span column-major when the matrix is wide",
      edits=[(VM, "        m_storage.emplace_back(values[row * cols + col]);", "        const int stride = cols > rows + 2 ? rows : cols;\n        m_storage.emplace_back(\n            stride == cols ? values[row * cols + col] : values[col * rows + row]);")],
      demo=PRE + """#include <span>
int main() {
  std::vector<V> v(10);
  for (int i = 0; i < 10; ++i) { v[i].set_value(i); }
  M m{std::span<const V>{v}, 2, 5};
  for (int i = 0; i < 10; ++i) { near("span", m[i / 5, i % 5].value(), i); }
  return bad;
}
"""),
 dict(id="m05-cofactor-4x4", prop="M05", srcs="matrix",
      needs="a 4x4 system whose entries d, e and i are all nonzero",
      breaks="one product in a 4x4 cofactor uses the wrong factor",
      edits=[(VM, "    auto dfi = d * f * i;", "    auto dfi = d * e * i;")],
      demo=PRE + """int main() {
  double A[4][4] = {{2, 0.5, 1, 3}, {7, 1, 4, 1}, {5, 1, 0, 2}, {1, 1, 1, 1}};
  M a(4, 4), b(4, 1);
  for (int i = 0; i < 4; ++i) { b[i, 0].set_value(i + 1); for (int j = 0; j < 4; ++j) { a[i, j].set_value(A[i][j]); } }
  M x = slp::solve(a, b);
  for (int i = 0; i < 4; ++i) { double s = 0; for (int j = 0; j < 4; ++j) { s += A[i][j] * x[j, 0].value(); } near("Ax", s, i + 1); }
  return bad;
}
"""),
]
