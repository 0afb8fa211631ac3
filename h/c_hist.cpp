// C17: history monitor, status report, solver counters and stopwatches, each driven through all bounded histories.
#include <vx.hpp>
#include <solvlib.hpp>
#include <History_monitor.hpp>
#include <Iteration_status.hpp>
#include <Stopwatch.hpp>
#include <Stopwatch_tree.hpp>
using namespace hexed;
static std::string cs;
#define BAD(x) do {std::ostringstream o__; o__.precision(17); o__ << x; vx::fail(cs, o__.str());} while (0)
static int64_t idx = 0;
template <typename F> static void cas(std::string name, F f)
{
  cs = name;
  if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {vx::begin_case(cs); vx::state(cs); vx::outcome(cs); vx::sample(cs); f(); ++vx::validated;}
  ++idx;
}

// virtual time: replaces the library's clock for this whole program
static int64_t now_ns = 0; static bool virt = false;
namespace std {namespace chrono {inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
  if (virt) return time_point(duration(now_ns));
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(int64_t(t.tv_sec)*1000000000 + t.tv_nsec));
}
}}}

// ---- history monitor ----
struct Sup {double it, v;};
static void feed(double w, int n, const std::vector<int>& its, const std::vector<double>& vals)
{
  History_monitor m(w, n); std::vector<Sup> h; double r = std::pow(1/(1 - w), 1./n);
  for (size_t i = 0; i < its.size(); ++i) {
    m.add_sample(its[i], vals[i]); h.push_back({double(its[i]), vals[i]}); ++vx::transitions;
    double lo = m.min(), hi = m.max(), it = its[i];
    auto ctx = [&]() {std::ostringstream o; o << "window " << w << " samples " << n << " after iteration " << it << " of " << its[0] << ".. : "; return o.str();};
    if (!(lo <= hi)) {BAD(ctx() << "min " << lo << " > max " << hi); return;}
    // attained by a supplied sample which the window held at the last recording
    double oldest = it*(1 - w)/r*(1 - 1e-9) - 1e-9; bool l = false, u = false;
    for (auto& s : h) if (s.it >= oldest) {l = l || s.v == lo; u = u || s.v == hi;}
    if (!l || !u) {BAD(ctx() << (l ? "maximum " : "minimum ") << (l ? hi : lo) << " is not attained in the window"); return;}
    // anything that lasted for at least one sampling interval within the window must be noticed
    for (size_t b = h.size(); b-- > 0;) {
      double vmin = h[b].v, vmax = h[b].v;
      for (size_t a = b + 1; a-- > 0;) {
        vmin = std::min(vmin, h[a].v); vmax = std::max(vmax, h[a].v);
        bool in_window = n > 1 ? h[a].it*std::pow(r, n - 1)*(1 - 1e-9) >= it : b + 1 == h.size();
        if (!in_window) break;
        bool seen = a == 0 ? b == a || h[b].it >= std::max(h[a].it, 1.)*r*(1 + 1e-9) : h[b].it >= std::max(h[a - 1].it, 1.)*r*(1 + 1e-9) && h[b].it >= 1;
        if (a == 0 && b == 0) seen = true;
        if (seen) {
          if (lo > vmax || hi < vmin) {BAD(ctx() << "bounds [" << lo << ", " << hi << "] miss the samples of iterations " << h[a].it << " to " << h[b].it << " which range over [" << vmin << ", " << vmax << "]"); return;}
          break;
        }
      }
    }
  }
}
static void monitors()
{
  for (double w : {.1, .25, .5, .9}) for (int n : {1, 2, 3, 5, 10}) for (int start : {0, 1, 5, 1000}) {
    std::ostringstream o; o << "monitor window " << w << " samples " << n << " start " << start;
    cas(o.str(), [&]() {
      int L = vx::thorough() ? 12 : 10;
      for (int gaps = 0; gaps < 27; ++gaps) {
        static const int g [] {1, 2, 7}; std::vector<int> its; int it = start;
        for (int i = 0; i < 60; ++i) {its.push_back(it); it += g[gaps/(i%3 == 0 ? 1 : i%3 == 1 ? 3 : 9)%3]*(start >= 1000 ? 20 : 1);}
        // all short binary histories
        for (int bits = 0; bits < 1 << L; ++bits) {
          std::vector<int> t(its.begin(), its.begin() + L); std::vector<double> v; for (int i = 0; i < L; ++i) v.push_back(bits >> i & 1);
          feed(w, n, t, v); ++vx::evals;
        }
        // long histories: every single pulse, up and down, and a ramp
        for (int a = 0; a < 60; a += gaps%2 + 1) for (int b : {a, a + 1, a + 3, a + 10, a + 30}) for (int sg : {1, -1}) {
          std::vector<double> v; for (int i = 0; i < 60; ++i) v.push_back(i >= a && i <= b ? sg : 0.);
          feed(w, n, its, v); ++vx::evals;
        }
        std::vector<double> up, down; for (int i = 0; i < 60; ++i) {up.push_back(i*.1 - 3); down.push_back(-up.back()*1e200);}
        feed(w, n, its, up); feed(w, n, its, down);
      }
    });
  }
  // documented configuration limits: useless settings must be refused instead of hanging or crashing
  for (double w : {0., 1., -.5, 1.5, std::nan("")}) for (int n : {0, 1, 5}) {
    std::ostringstream o; o << "monitor limits " << w << " " << n;
    cas(o.str(), [&]() {
      bool th = false; try {History_monitor m(w, n); (void) m;} catch (const std::exception&) {th = true;}
      if (!th) BAD("a history monitor with window " << w << " and " << n << " samples is accepted");
    });
  }
  for (int n : {0, -1}) cas("monitor limits samples " + std::to_string(n), [&]() {
    bool th = false; try {History_monitor m(.5, n); (void) m;} catch (const std::exception&) {th = true;}
    if (!th) BAD("a history monitor with " << n << " samples is accepted");
  });
}

// ---- status report ----
static std::vector<std::string> cells(std::string s) {std::vector<std::string> r; std::stringstream ss(s); std::string c; while (std::getline(ss, c, ',')) r.push_back(c); return r;}
static std::string trim(std::string s) {while (s.size() && s[0] == ' ') s.erase(0, 1); while (s.size() && s.back() == ' ') s.pop_back(); return s;}
static void reports()
{
  std::vector<double> alpha {0., 1., -1., 1.23456789012345e-7, -9.99999999e99, 1e300, -1e-300, 4.9e-324, INFINITY, -INFINITY, NAN};
  std::vector<int> ints {0, 1, -1, 12345, 2147483647, -2147483647 - 1};
  cas("status report", [&]() {
    static const char* labels [] {"iteration", "momtm resid", "mass resid", "energy resid", "av adv resid", "av diff resid", "flow time", "time step", "fix adm iters"};
    for (int field = 0; field < 9; ++field) for (int second = 0; second < 9; ++second) for (size_t x = 0; x < alpha.size(); ++x) for (size_t y = 0; y < alpha.size(); ++y) {
      if (second == field && x != y) continue;
      Iteration_status st; std::vector<double> want(9, 0.);
      auto set = [&](int f, size_t k) {
        double v = alpha[k]; int i = ints[k%ints.size()];
        if (f == 0) st.iteration = i; else if (f == 8) st.fix_admis_iters = i;
        double* p [] {nullptr, &st.mmtm_res, &st.mass_res, &st.ener_res, &st.adv_res, &st.diff_res, &st.flow_time, &st.time_step, nullptr};
        if (p[f]) *p[f] = v;
        want[f] = p[f] ? v : i;
      };
      set(second, y); set(field, x); ++vx::transitions;
      auto h = cells(st.header()), c = cells(st.report());
      if (h.size() != c.size()) {BAD("header has " << h.size() << " columns, report " << c.size()); return;}
      if (st.report().find('\n') != std::string::npos) BAD("report spans several lines");
      for (int f = 0; f < 9; ++f) {
        int col = -1; for (size_t k = 0; k < h.size(); ++k) if (trim(h[k]) == labels[f]) col = k;
        if (col < 0) {BAD("no column `" << labels[f] << "`"); return;}
        char* e; std::string t = trim(c[col]); double got = std::strtod(t.c_str(), &e);
        bool ok = *e == 0 && t.size() && (got == want[f] || (std::isnan(got) && std::isnan(want[f])) || std::abs(got - want[f]) <= 5.1e-9*std::abs(want[f]));
        if (f == 0 || f == 8) ok = ok && t == std::to_string(int(want[f]));
        if (!ok) {BAD("column `" << labels[f] << "` reads `" << t << "` instead of " << want[f]); return;}
        if (std::abs(want[f]) < 1e99 && !(want[f] != 0 && std::abs(want[f]) < 1e-90) && h[col].size() != c[col].size()) BAD("column `" << labels[f] << "` is misaligned");
      }
    }
  });
}

// ---- solver counters ----
static void counters()
{
  int which = 0;
  for (auto& mc : sl::all_cases(false)) {
    if (!(which++ % 7 == 0)) continue;
    cas("counters " + mc.name, [&]() {
      // histories of (flow_iters, n_cheby, time step limit) per update
      struct Op {int f, c; double dt;}; std::vector<Op> ops {{1, 1, 1e-9}, {2, 1, 3e-9}, {1, 3, 2e-9}, {3, 2, 1e-9}, {1, 1, 1e300}};
      int depth = vx::thorough() ? 4 : 3, tot = std::pow(5, depth);
      auto sp = std::make_shared<Namespace>();
      Solver s(mc.nd, mc.row_sizes[0], .8, false, inviscid, inviscid, sp, std::make_shared<sl::Quiet>());
      mc.build(s, [&](int) -> Flow_bc* {return new Copy;});
      Mat<> st(mc.nd + 2); st.setZero(); st(0) = 30.; st(mc.nd) = 1.2; st(mc.nd + 1) = 2.5e5; std::vector<double> vec(st.data(), st.data() + mc.nd + 2);
      s.initialize(Constant_func(vec));
      int updates = 0, fixes = 0; double time = 0;
      int64_t ne = s.mesh().n_elements();
      for (int seq = 0; seq < tot; ++seq) for (int k = 0, q = seq; k < depth; ++k, q /= 5) {
        Op o = ops[q%5]; sp->assign("flow_iters", o.f); sp->assign("n_cheby_flow", o.c); sp->assign("max_time_step", o.dt);
        double t0 = s.iteration_status().flow_time;
        s.update(); ++updates; ++vx::transitions;
        auto i = s.iteration_status();
        double inc = 0; if (o.dt < 1) {for (int c = 0; c < o.c; ++c) inc += o.f*o.dt*math::chebyshev_step(o.c, c);} else inc = i.time_step;
        time += inc;
        if (i.iteration != updates || sp->lookup<int>("iteration").value() != updates) BAD("iteration " << i.iteration << " (variable " << sp->lookup<int>("iteration").value() << ") after " << updates << " updates");
        if (std::abs(i.flow_time - t0 - inc) > 1e-9*inc + 1e-14*i.flow_time) BAD("flow time advanced by " << i.flow_time - t0 << " instead of " << inc);
        if (std::abs(i.flow_time - time) > 1e-9*time) BAD("flow time " << i.flow_time << " instead of " << time);
        if (sp->lookup<double>("flow_time").value() != i.flow_time || sp->lookup<double>("time_step").value() != i.time_step) BAD("variables disagree with the status");
        if (o.dt < 1 && std::abs(i.time_step - o.dt*math::chebyshev_step(o.c, o.c - 1)) > 1e-9*i.time_step) BAD("time step " << i.time_step);
        if (i.fix_admis_iters != fixes || sp->lookup<int>("fix_iters").value() != fixes) BAD("admissibility iterations counted although none were needed");
        if (s.stopwatch_tree().work_units_completed != ne*updates) BAD("work units " << s.stopwatch_tree().work_units_completed << " instead of " << ne*updates);
      }
    });
  }
}

// ---- stopwatches ----
static void watches()
{
  // two stopwatches; operations on each: start, pause, reset (only while stopped), advance time, add, accumulate
  cas("stopwatch", [&]() {
    virt = true;
    struct M {bool r = false; int n = 0; int64_t t = 0, t0 = 0;};
    int depth = vx::thorough() ? 7 : 6, nop = 9; int64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= nop;
    static const int64_t steps [] {1, 999999999, 1000000000, 7200000000000ll};
    for (int64_t seq = 0; seq < tot; ++seq) {
      Stopwatch w [2]; M m [2]; now_ns = 123456789; std::string hist;
      int64_t q = seq;
      for (int k = 0; k < depth; ++k, q /= nop) {
        int op = q%nop; bool th = false, want = false; ++vx::transitions;
        now_ns += steps[(seq + k)%4]; int64_t now = now_ns;
        try {
          if (op < 6) {
            int i = op/3; 
            if (op%3 == 0) {want = m[i].r; hist += "start "; if (!want) {m[i].r = true; m[i].t0 = now;} w[i].start();}
            if (op%3 == 1) {want = !m[i].r; hist += "pause "; if (!want) {m[i].r = false; ++m[i].n; m[i].t += now - m[i].t0;} w[i].pause();}
            if (op%3 == 2) {if (m[i].r) continue; hist += "reset "; m[i] = M(); w[i].reset();}
          } else if (op == 6) {want = m[0].r || m[1].r; hist += "+= "; if (!want) {m[0].n += m[1].n; m[0].t += m[1].t;} w[0] += w[1];}
          else if (op == 7) {want = m[0].r || m[1].r; hist += "+ "; Stopwatch x = w[0] + w[1]; if (!want) {m[1].n += m[0].n; m[1].t += m[0].t; w[1] = x;}}
          else {
            hist += "operator "; want = m[1].r; {if (!want) {m[1].r = true; m[1].t0 = now;} Stopwatch::Operator o(w[1]); now_ns += 5; if (w[1].running() != true) BAD("not running during the operator");}
            m[1].r = false; ++m[1].n; m[1].t += now_ns - m[1].t0;
          }
        } catch (const std::exception&) {th = true;}
        if (th != want) {BAD("after " << hist << (want ? ": invalid transition accepted" : ": valid transition rejected")); virt = false; return;}
        for (int i : {0, 1}) {
          if (w[i].running() != m[i].r || w[i].n_calls() != m[i].n || std::abs(w[i].time() - m[i].t*1e-9) > 1e-12*(1 + m[i].t*1e-9)) {
            BAD("after " << hist << ": stopwatch " << i << " running " << w[i].running() << " calls " << w[i].n_calls() << " time " << w[i].time() << ", expected " << m[i].r << " " << m[i].n << " " << m[i].t*1e-9);
            virt = false; return;
          }
        }
      }
      ++vx::evals;
    }
    virt = false;
  });
  cas("stopwatch tree", [&]() {
    virt = true;
    for (int64_t units : {0ll, 1ll, 7ll, 2147483647ll, 2147483648ll, 5000000000ll}) for (int depth = 0; depth < 4; ++depth) for (int wide = 0; wide < 3; ++wide) for (int64_t ns : {0ll, 1500000000ll, 1000000000000ll}) {
      ++vx::transitions; ++vx::evals;
      Stopwatch_tree t("step"); std::vector<std::string> want;
      auto fill = [&](Stopwatch_tree& x, int64_t u) {x.stopwatch.start(); now_ns += ns; x.stopwatch.pause(); for (int i = 0; i < 5; ++i) x.work_units_completed += u/5; x.work_units_completed += u%5;};
      auto line = [&](std::string unit, int64_t u) {
        char b [300]; snprintf(b, 300, "%lld %ss completed in %g s", (long long) u, unit.c_str(), ns*1e-9); std::string r = b;
        if (u) {snprintf(b, 300, " at %g s / %s", ns*1e-9/u, unit.c_str()); r += b;}
        return r + ".";
      };
      fill(t, units); want.push_back(line("step", units));
      Stopwatch_tree* cur = &t;
      for (int d = 0; d < depth; ++d) {
        Stopwatch_tree* next = nullptr;
        for (int k = 0; k <= wide; ++k) {
          std::string nm = "task" + std::to_string(k); auto it = cur->children.emplace(nm, Stopwatch_tree("unit" + std::to_string(d))).first;
          fill(it->second, units/2 + k); if (k == wide) next = &it->second;
          want.push_back(std::string(4*(d + 1), ' ') + nm + ": " + line("unit" + std::to_string(d), units/2 + k));
        }
        cur = next;
      }
      std::vector<std::string> got; std::stringstream ss(t.report()); std::string l; while (std::getline(ss, l)) got.push_back(l);
      if (got != want) {std::string g, e; for (auto& x : got) g += x + "\n"; for (auto& x : want) e += x + "\n"; BAD("report reads\n" << g << "instead of\n" << e); virt = false; return;}
    }
    Stopwatch_tree t("", {{"a", Stopwatch_tree("u")}}); if (t.report() != "Total:\n    a: 0 us completed in 0 s.\n") BAD("report of a total reads " << t.report());
    virt = false;
  });
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  monitors(); reports(); watches(); counters();
  return vx::finish();
}
