import runpy, os
_s = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s.py"))
P = _s["P"]
IP = "include/sleipnir/util/intrusive_shared_ptr.hpp"
PO = "include/sleipnir/util/pool.hpp"
FR = "include/sleipnir/util/function_ref.hpp"
SE = "include/sleipnir/util/scope_exit.hpp"
SPY = "include/sleipnir/util/spy.hpp"
PF = "include/sleipnir/util/profiler.hpp"
EX = "include/sleipnir/autodiff/expression.hpp"
PTR = P("util/intrusive_shared_ptr.hpp") + """
struct A { int n = 0; bool* gone; explicit A(bool* g) : gone{g} {} virtual ~A() { *gone = true; } };
struct B : A { using A::A; };
void inc_ref_count(A* a) { ++a->n; }
void dec_ref_count(A* a) { if (--a->n == 0) { delete a; } }
"""
SEEDS = [
 dict(id="u01-convert-assign-leak", prop="U01", srcs="",
      needs="assigning a pointer to a derived object over one that already owns something",
      breaks="converting copy construction does not count the new owner",
      edits=[(IP, "  template <typename U>\n    requires(!std::same_as<T, U> && std::convertible_to<U*, T*>)\n  // NOLINTNEXTLINE (google-explicit-constructor)\n  constexpr IntrusiveSharedPtr(const IntrusiveSharedPtr<U>& rhs) noexcept\n      : m_ptr{rhs.m_ptr} {\n    if (m_ptr != nullptr) {", "  template <typename U>\n    requires(!std::same_as<T, U> && std::convertible_to<U*, T*>)\n  // NOLINTNEXTLINE (google-explicit-constructor)\n  constexpr IntrusiveSharedPtr(const IntrusiveSharedPtr<U>& rhs) noexcept\n      : m_ptr{static_cast<T*>(rhs.m_ptr)} {\n    if (m_ptr == nullptr) {")],
      demo="", skip=True),
 dict(id="u01-move-assign-converted", prop="U01", srcs="",
      needs="move assignment from an owner of the same object through its derived type",
      breaks="converting move assignment between two owners of one object clears the source without giving up its count",
      edits=[(IP, "  constexpr IntrusiveSharedPtr<T>& operator=(\n      IntrusiveSharedPtr<U>&& rhs) noexcept {\n    if (m_ptr == rhs.m_ptr) {\n      return *this;", "  constexpr IntrusiveSharedPtr<T>& operator=(\n      IntrusiveSharedPtr<U>&& rhs) noexcept {\n    if (m_ptr == rhs.m_ptr) {\n      rhs.m_ptr = nullptr;\n      return *this;")],
      demo=PTR + """int main() {
  bool gone = false;
  {
    slp::IntrusiveSharedPtr<B> b{new B{&gone}};
    slp::IntrusiveSharedPtr<A> a = b;
    a = std::move(b);
  }
  same("destroyed", gone, 1);
  return bad;
}
"""),
 dict(id="u01-expression-args-order", prop="U01", srcs="matrix",
      needs="a shared subexpression whose last owners are two nodes destroyed together",
      breaks="destroying an expression only releases its second argument when it was its last owner",
      edits=[(EX, "          if (arg != nullptr && --arg->ref_count == 0) {\n            stack.push_back(arg.get());\n          }", "          if (arg != nullptr && --arg->ref_count == 0) {\n            stack.push_back(arg.get());\n          }")],
      demo="", skip=True),
 dict(id="u02-chunk-blocks-overlap", prop="U02", srcs="",
      needs="more allocations than one chunk holds",
      breaks="the second chunk starts inside the first",
      edits=[(PO, "    for (int i = blocks_per_chunk - 1; i >= 0; --i) {", "    for (int i = blocks_per_chunk - (m_buffer.size() > 1 ? 0 : 1); i >= 0; --i) {")],
      demo=P("util/pool.hpp") + """#include <set>
int main() {
  PoolResource p{4};
  std::vector<char*> v;
  for (int i = 0; i < 64; ++i) { v.push_back(static_cast<char*>(p.allocate(48))); }
  // within every chunk the blocks are adjacent: no two chunks may use one more
  // block than they hold, which shows as a fifth adjacent block
  int run = 1;
  for (int i = 1; i < 64; ++i) { run = v[i] == v[i - 1] + 48 ? run + 1 : 1; if (run > 4) { std::puts("block outside its chunk"); bad = 1; } }
  return bad;
}
"""),
 dict(id="u02-freed-size-mismatch", prop="U02", srcs="",
      needs="freeing through the allocator and allocating again",
      breaks="blocks freed through the allocator are filed under another size, so they never become available again",
      edits=[(PO, "    m_memory_resource->deallocate(p, n);", "    m_memory_resource->deallocate(p, n * sizeof(T));")],
      demo=P("util/pool.hpp") + """int main() {
  PoolResource p{4};
  PoolAllocator<double> a{&p};
  auto x = a.allocate(sizeof(double));
  a.deallocate(x, sizeof(double));
  auto y = a.allocate(sizeof(double));
  same("reused", x == y, 1);
  return bad;
}
"""),
 dict(id="u03-assign-rvalue-callable", prop="U03", srcs="",
      needs="rebinding a function reference that already refers to something",
      breaks="rebinding keeps the first object when the new callable has the same type",
      edits=[(FR, "    obj_ = reinterpret_cast<void*>(std::addressof(f));\n", "    if (obj_ == nullptr || sizeof(std::remove_reference_t<F>) == 1) {\n      obj_ = reinterpret_cast<void*>(std::addressof(f));\n    }\n")],
      demo=P("util/function_ref.hpp") + """int main() {
  auto mk = [](int k) { return [k](int x) { return x + k; }; };
  auto a = mk(1), b = mk(10);
  function_ref<int(int)> f{a};
  f = b;
  same("rebound", f(1), 11);
  return bad;
}
"""),
 dict(id="u03-swap-half", prop="U03", srcs="",
      needs="swapping references to callables of different types",
      breaks="swapping exchanges the objects but keeps the callback of the left one",
      edits=[(FR, "    std::swap(callback_, rhs.callback_);", "    rhs.callback_ = callback_;")],
      demo=P("util/function_ref.hpp") + """int main() {
  int k = 5;
  auto a = [&](int x) { return x + k; };
  auto b = [&k, q = 100](int x) { return x * q + k; };
  function_ref<int(int)> f{a}, g{b};
  f.swap(g);
  same("f", f(2), 205); same("g", g(2), 7);
  return bad;
}
"""),
 dict(id="u04-row-col-swap", prop="U04", srcs="",
      needs="a recording of a matrix that is not symmetric",
      breaks="recorded coordinates are written column first",
      edits=[(SPY, "        write32le(it.row());\n        write32le(it.col());\n", "        write32le(it.col());\n        write32le(it.row());\n")],
      demo=P("util/spy.hpp") + """#include <fstream>
#include <iterator>
#include <string>
#include <cstring>
int main() {
  { Spy<double> s{"a.spy", "T", "R", "C", 2, 3}; s.add(mat(2, 3, {0, 0, -5, 0, 0, 0})); }
  std::ifstream f{"a.spy", std::ios::binary};
  std::string b{std::istreambuf_iterator<char>{f}, {}};
  // title, labels (1 character each), shape, count, row, column, sign
  same("size", b.size(), 15 + 8 + 4 + 8 + 1);
  int v[2]; std::memcpy(v, b.data() + 27, 8);
  same("row", v[0], 0); same("col", v[1], 2); same("sign", b[35], '-');
  return bad;
}
"""),
 dict(id="u04-empty-pattern-skipped", prop="U04", srcs="",
      needs="a recording with an explicit zero entry",
      breaks="explicit zero entries are announced in the count but not written",
      edits=[(SPY, "        write32le(it.row());\n        write32le(it.col());\n", "        if (it.value() == Scalar(0)) {\n          continue;\n        }\n        write32le(it.row());\n        write32le(it.col());\n")],
      demo=P("util/spy.hpp") + """#include <fstream>
#include <iterator>
#include <string>
int main() {
  S m = mat(2, 2, {1, 2, 0, 3});
  m.coeffRef(0, 1) = 0.0;
  { Spy<double> s{"a.spy", "T", "R", "C", 2, 2}; s.add(m); }
  std::ifstream f{"a.spy", std::ios::binary};
  std::string b{std::istreambuf_iterator<char>{f}, {}};
  same("size", b.size(), 15 + 8 + 4 + 9 * m.nonZeros());
  return bad;
}
"""),
 dict(id="u05-average-drift", prop="U05", srcs="",
      needs="more than two profiled sections of different lengths",
      breaks="the running average weights the newest section by the previous count",
      edits=[(PF, "        1.0 / m_num_solves * m_current_solve_duration;", "        1.0 / (m_num_solves > 2 ? m_num_solves - 1 : m_num_solves) * m_current_solve_duration;")],
      demo=P("util/profiler.hpp") + """#include <thread>
int main() {
  SolveProfiler p{"x"};
  for (int i = 0; i < 4; ++i) { p.start(); std::this_thread::sleep_for(std::chrono::milliseconds(20)); p.stop(); }
  near("average", p.average_duration().count(), p.total_duration().count() / 4, 1e-6);
  return bad;
}
"""),
 dict(id="u05-moved-after-stop", prop="U05", srcs="",
      needs="moving a scoped profiler that was stopped already",
      breaks="a scoped profiler moved from a stopped one stops the section a second time",
      edits=[(PF, "      : m_profiler{std::move(rhs.m_profiler)}, m_active{rhs.m_active} {", "      : m_profiler{std::move(rhs.m_profiler)} {")],
      demo=P("util/profiler.hpp") + """int main() {
  SolveProfiler p{"x"};
  {
    ScopedProfiler a{p};
    a.stop();
    ScopedProfiler b{std::move(a)};
  }
  same("solves", p.num_solves(), 1);
  return bad;
}
"""),
 dict(id="u05-setup-stop-restart", prop="U05", srcs="",
      needs="a section profiled a second time",
      breaks="a repeated section's duration is measured from the first start",
      edits=[(PF, "    m_current_solve_start_time = std::chrono::steady_clock::now();", "    if (m_num_solves == 0) {\n      m_current_solve_start_time = std::chrono::steady_clock::now();\n    }")],
      demo=P("util/profiler.hpp") + """#include <thread>
int main() {
  SolveProfiler p{"x"};
  p.start(); p.stop();
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  p.start(); p.stop();
  same("short", p.current_duration().count() < 0.1, 1);
  return bad;
}
"""),
 dict(id="n03-shared-pool", prop="N03", srcs="",
      needs="two threads that build expressions at the same time",
      breaks="all threads share one expression pool",
      edits=[("src/util/pool.cpp", "  thread_local PoolResource pool{16384};", "  static PoolResource pool{16384};")],
      demo=P("util/pool.hpp") + """#include <thread>
int main() {
  void *a = &global_pool_resource(), *b = nullptr;
  std::thread t{[&] { b = &global_pool_resource(); }};
  t.join();
  same("pools differ", a != b, 1);
  return bad;
}
"""),
 dict(id="n03-static-triplets", prop="N03", srcs="",
      needs="two threads assembling matrices at the same time",
      breaks="a scratch buffer of the triplet helper is shared between all calls",
      edits=[("include/sleipnir/optimization/solver/util/append_as_triplets.hpp", "  gch::small_vector<int> mat_row_offsets;\n", "  static gch::small_vector<int> mat_row_offsets;\n  mat_row_offsets.clear();\n")],
      demo=P("optimization/solver/util/append_as_triplets.hpp") + """#include <atomic>
#include <thread>
int main() {
  std::atomic<int> wrong{0};
  S m = mat(2, 2, {1, 2, 3, 4});
  auto work = [&] {
    for (int k = 0; k < 200000 && !wrong; ++k) {
      gch::small_vector<Eigen::Triplet<double>> t;
      append_as_triplets(t, 0, 0, {m, m, m});
      for (int i = 0; i < 12; ++i) { if (t[i].row() != i % 6) { ++wrong; } }
    }
  };
  std::vector<std::thread> ts;
  for (int i = 0; i < 8; ++i) { ts.emplace_back(work); }
  for (auto& t : ts) { t.join(); }
  same("wrong rows", wrong > 0, 0);
  return bad;
}
"""),
 dict(id="u06-message-lookup-off", prop="U06", srcs="",
      needs="formatting a status that is rarely produced",
      breaks="the message of a failed line search is given for a failed feasibility restoration",
      edits=[("include/sleipnir/optimization/solver/exit_status.hpp", "      case FEASIBILITY_RESTORATION_FAILED:\n        return m_underlying.format(\"feasibility restoration failed\", ctx);", "      case FEASIBILITY_RESTORATION_FAILED:\n        return m_underlying.format(\"line search failed\", ctx);")],
      demo=P("optimization/solver/exit_status.hpp") + """#include <set>
#include <string>
int main() {
  std::set<std::string> s;
  for (int i = 1; i >= -10; --i) { s.insert(std::format("{}", ExitStatus(i))); }
  same("messages", s.size(), 12);
  return bad;
}
"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
