// Analysis unit: utilities. Nothing here runs.
#include <sleipnir/util/function_ref.hpp>
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/util/pool.hpp>
#include <sleipnir/util/print_diagnostics.hpp>
#include <sleipnir/util/profiler.hpp>
#include <sleipnir/util/scope_exit.hpp>
#include <sleipnir/util/spy.hpp>
#include <sleipnir/optimization/solver/exit_status.hpp>
#include <sleipnir/autodiff/expression_type.hpp>

struct Base;
struct Node;
void inc_ref_count(Base*);
void dec_ref_count(Base*);
void inc_ref_count(Node*);
void dec_ref_count(Node*);
struct Base { uint32_t ref_count = 0; virtual ~Base() = default; };
struct Node : Base { slp::IntrusiveSharedPtr<Node> next; };
void inc_ref_count(Base* p) { ++p->ref_count; }
void dec_ref_count(Base* p) { if (--p->ref_count == 0) delete p; }

void exercise_isp(slp::IntrusiveSharedPtr<Base>& a, slp::IntrusiveSharedPtr<Base>& b, slp::IntrusiveSharedPtr<Node>& n, Base* r) {
  using P = slp::IntrusiveSharedPtr<Base>;
  P p1; P p2{nullptr}; P p3{r}; P p4{a}; P p5{std::move(a)}; P p6{n}; P p7{std::move(n)};
  a = b; a = std::move(b); a = n; a = std::move(n);
  (void)a.get(); (void)*a; (void)a->ref_count; (void)static_cast<bool>(a);
  (void)(a == b); (void)(a != b); (void)(a == nullptr); (void)(a != nullptr); (void)(nullptr == a); (void)(nullptr != a);
  (void)slp::make_intrusive_shared<Base>();
  auto pa = slp::global_pool_allocator<Base>();
  (void)slp::allocate_intrusive_shared<Base>(pa);
  pa.deallocate(pa.allocate(1), 1);
}

// function_ref: client programs
struct FA { int n; int operator()(double, int); };
struct FB { int n; int operator()(double, int) const; };
struct FC { int n; int operator()(double d, int i) { n += i; return n; } };
using FR = slp::function_ref<int(double, int)>;
int fr_call(FA& a, FB& b, double x, int y) { FR h{a}; return h(x, y); }
int fr_call_const(FA& a, const FB& b, double x, int y) { FR h{b}; return h(x, y); }
int fr_copy(FA& a, FB& b, double x, int y) { FR h{a}; FR g{h}; h = b; return g(x, y); }
int fr_copy_const(FA& a, FB& b, double x, int y) { FR h{a}; const FR& k = h; FR g{k}; h = b; return g(x, y); }
int fr_move(FA& a, FB& b, double x, int y) { FR h{a}; FR g{std::move(h)}; h = b; return g(x, y); }
int fr_rebind(FA& a, FB& b, double x, int y) { FR h{a}; h = b; return h(x, y); }
int fr_rebind_back(FA& a, FB& b, double x, int y) { FR h{a}; h = b; h = a; return h(x, y); }
int fr_assign(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; h = g; return h(x, y); }
int fr_assign_then_rebind(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; h = g; g = b; return h(x, y); }
int fr_assign_source(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; h = g; h = b; return g(x, y); }
int fr_assign_const(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; const FR& k = g; h = k; g = b; return h(x, y); }
int fr_assign_move(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; h = std::move(g); g = b; return h(x, y); }
int fr_assign_result(FA& a, FB& b, double x, int y) { FR h{b}; FR& r = (h = a); return r(x, y); }
int fr_swap(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; h.swap(g); return h(x, y); }
int fr_swap_other(FA& a, FB& b, double x, int y) { FR h{a}; FR g{b}; h.swap(g); return g(x, y); }
int fr_swap_free(FA& a, FB& b, double x, int y) { FR h{b}; FR g{a}; swap(h, g); return h(x, y); }
int fr_swap_free_other(FA& a, FB& b, double x, int y) { FR h{a}; FR g{b}; swap(h, g); return g(x, y); }
int fr_swap_twice(FA& a, FB& b, double x, int y) { FR h{a}; FR g{b}; swap(h, g); swap(g, h); return h(x, y); }
int fr_self(FA& a, FB& b, double x, int y) { FR h{a}; FR& s = h; h = s; return h(x, y); }
int fr_state(FC& c, double x, int y) { FR h{c}; FR g{h}; h(x, y); g(x, y); return c.n; }
int fr_state_rebound(FC& c, FC& d, double x, int y) { FR h{c}; h(x, y); h = d; h(x, y); h(x, y); return 100 * c.n + d.n; }
int fr_constness(FA& a, FB& b, double x, int y) { const FR h{a}; return h(x, y); }
int fr_argument(FR h, double x, int y) { return h(x, y); }
int fr_passed(FA& a, FB& b, double x, int y) { return fr_argument(a, x, y); }

// scope_exit: client programs
void se_plain(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; n += 3; }
void se_release(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; n += 3; e.release(); }
void se_move(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; slp::scope_exit f{std::move(e)}; n += 3; }
void se_move_release_new(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; slp::scope_exit f{std::move(e)}; n += 3; f.release(); }
void se_move_release_old(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; slp::scope_exit f{std::move(e)}; n += 3; e.release(); }
void se_release_move(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; e.release(); slp::scope_exit f{std::move(e)}; n += 3; }
void se_move_twice(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; slp::scope_exit f{std::move(e)}; slp::scope_exit g{std::move(f)}; n += 3; }
void se_release_twice(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; e.release(); e.release(); n += 3; }
void se_return(int& n, bool c) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; if (c) { n += 1; return; } n += 3; }
void se_release_if(int& n, bool c) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; n += 3; if (c) { e.release(); } }
void se_two(int& n) { slp::scope_exit e{[&] { n = 2 * n + 1; }}; slp::scope_exit f{[&] { n = 5 * n; }}; n += 3; }

// profilers: client programs
using Sec = std::chrono::duration<double>;
Sec pf_setup(slp::SetupProfiler p) { p.start(); p.stop(); return p.duration(); }
Sec pf_setup_again(slp::SetupProfiler p) { p.start(); p.stop(); p.start(); p.stop(); return p.duration(); }
Sec pf_setup_none() { slp::SetupProfiler p{"a"}; return p.duration(); }
Sec pf_setup_scoped(slp::SetupProfiler p) { { slp::ScopedProfiler s{p}; s.stop(); } return p.duration(); }
std::string_view pf_setup_name(std::string_view n) { slp::SetupProfiler p{n}; p.start(); p.stop(); return p.name(); }
std::string_view pf_solve_name(std::string_view n) { slp::SolveProfiler p{n}; p.start(); p.stop(); return p.name(); }
int pf_count0() { slp::SolveProfiler p{"a"}; return p.num_solves(); }
int pf_count1() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); return p.num_solves(); }
int pf_count_started() { slp::SolveProfiler p{"a"}; p.start(); return p.num_solves(); }
int pf_count3() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); p.start(); p.stop(); p.start(); p.stop(); return p.num_solves(); }
Sec pf_current1() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); return p.current_duration(); }
Sec pf_current3() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); p.start(); p.stop(); p.start(); p.stop(); return p.current_duration(); }
Sec pf_total0() { slp::SolveProfiler p{"a"}; return p.total_duration(); }
Sec pf_total1() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); return p.total_duration(); }
Sec pf_total3() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); p.start(); p.stop(); p.start(); p.stop(); return p.total_duration(); }
Sec pf_average0() { slp::SolveProfiler p{"a"}; return p.average_duration(); }
Sec pf_average1() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); return p.average_duration(); }
Sec pf_average2() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); p.start(); p.stop(); return p.average_duration(); }
Sec pf_average3() { slp::SolveProfiler p{"a"}; p.start(); p.stop(); p.start(); p.stop(); p.start(); p.stop(); return p.average_duration(); }
void ps_leave(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; }
void ps_stop(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; s.stop(); }
void ps_stop_twice(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; s.stop(); s.stop(); }
void ps_move(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; slp::ScopedProfiler t{std::move(s)}; }
void ps_move_stop(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; slp::ScopedProfiler t{std::move(s)}; t.stop(); }
void ps_move_stop_old(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; slp::ScopedProfiler t{std::move(s)}; s.stop(); t.stop(); }
void ps_stop_move(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; s.stop(); slp::ScopedProfiler t{std::move(s)}; }
Sec ps_current(slp::SolveProfiler& p) { slp::ScopedProfiler s{p}; s.stop(); return s.current_duration(); }
int ps_twice() { slp::SolveProfiler p{"a"}; ps_leave(p); ps_stop(p); return p.num_solves(); }
void ps_setup(slp::SetupProfiler& p) { slp::ScopedProfiler s{p}; }
template class slp::Spy<double>;

#include <vector>
std::string exercise_fmt() {
  return std::format("{}{}", slp::ExitStatus::SUCCESS, slp::ExpressionType::LINEAR);
}
