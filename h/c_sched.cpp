// C12: schedule independence.  The library is compiled against the controlled OpenMP runtime of ompx.hpp.
//  phase "races": every iteration of every parallel loop of the scenario is a logical thread of its own and every memory access is
//    recorded.  If no two logical threads access the same byte without synchronisation, one of them writing, then executions only
//    differ by the order of synchronised operations (everything else commutes).
//  phase "order": the order of synchronised operations is varied: every dependent pair of atomic loads/stores found is reversed by a
//    preemption, and whole schedules are permuted for several team sizes; the result must not change beyond roundoff.
#include "ompx.hpp"
#include "solvlib.hpp"
#include <config.hpp>
#include <fstream>
#include <algorithm>
#include <filesystem>
#include <Struct_expr.hpp>
#include <Interpreter.hpp>
#include <iostream>
#include <Case.hpp>
// the driver keeps its solver to itself: explicit instantiation may name private members
struct Case_access {static hexed::Solver& solver(hexed::Case& c);};
template <auto M> struct Case_door {friend hexed::Solver& case_solver(hexed::Case& c) {return *(c.*M);}};
template struct Case_door<&hexed::Case::_solver_ptr>;
hexed::Solver& case_solver(hexed::Case& c);
hexed::Solver& Case_access::solver(hexed::Case& c) {return case_solver(c);}
using namespace hexed;
using namespace sl;

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o.precision(12); _o << msg; vx::fail(cs, _o.str());} while (0)
static std::set<std::string> fns, sync_fns;

struct Sig {std::vector<std::vector<double>> el; std::vector<double> scalars; std::string err;};
// everything that characterises the mesh and the solution on it
static void collect(Sig& sig, Accessible_mesh& m, bool solution)
{
  auto& el = m.elements();
  for (int i = 0; i < el.size(); ++i) {
    Element& e = el[i]; auto par = e.storage_params(); std::vector<double> v; V3 c = V3::Zero();
    for (int k = 0; k < par.n_vertices(); ++k) c += e.vertex(k).pos/par.n_vertices();
    for (int d = 0; d < 3; ++d) v.push_back(c(d));
    v.push_back(e.refinement_level()); v.push_back(e.get_is_deformed()); v.push_back(bool(e.tree)); v.push_back(e.record);
    v.push_back(e.unrefinement_locked); v.push_back(e.uncertainty);
    for (int k = 0; k < par.n_vertices(); ++k) for (int d = 0; d < 3; ++d) v.push_back(e.vertex(k).pos(d));
    for (int k = 0; k < par.n_vertices(); ++k) v.push_back(e.vertex_time_step_scale(k));
    if (solution) {
      for (int q = 0; q < par.n_qpoint(); ++q) v.push_back(e.jacobian_determinant(q));
      for (int q = 0; q < par.n_qpoint(); ++q) v.push_back(e.time_step_scale()[q]);
      for (int q = 0; q < par.n_qpoint()*par.n_var; ++q) v.push_back(e.state()[q]);
      for (int q = 0; q < par.n_qpoint(); ++q) {v.push_back(e.bulk_av_coef()[q]); v.push_back(e.laplacian_av_coef()[q]); v.push_back(e.art_visc_forcing()[q]);}
    }
    sig.el.push_back(v);
  }
  auto add = [&](double x) {sig.scalars.push_back(x);};
  add(m.elements().size()); add(m.element_connections().size()); add(m.boundary_connections().size()); add(m.refined_faces().size());
  add(m.hanging_vertex_matchers().size()); add(m.vertices().size());
  auto& cons = m.element_connections(); double a = 0, b = 0, c = 0;
  for (int i = 0; i < cons.size(); ++i) {auto d = cons[i].get_direction(); a += d.i_dim[0] + 3*d.i_dim[1]; b += d.face_sign[0] + 2*d.face_sign[1]; V3 x = cons[i].element(0).vertex(0).pos, y = cons[i].element(1).vertex(0).pos; c += x.dot(y) + x(0)*y(1);}
  add(a); add(b); add(c);
  auto& bc = m.boundary_connections(); a = b = 0;
  for (int i = 0; i < bc.size(); ++i) {a += (bc[i].i_dim()*2 + bc[i].inside_face_sign())*(1 + bc[i].bound_cond_serial_n()); b += bc[i].element().vertex(0).pos.sum()*bc[i].bound_cond_serial_n();}
  add(a); add(b);
}
static bool close(double x, double y, double tol) {return x == y || std::abs(x - y) <= tol*(1 + std::max(std::abs(x), std::abs(y))) || (std::isnan(x) && std::isnan(y));}
static std::string differ(const Sig& a, const Sig& b, double tol)
{
  std::ostringstream o; o.precision(14);
  if (a.err != b.err) {o << "'" << a.err << "' against '" << b.err << "'"; return o.str();}
  if (a.el.size() != b.el.size()) {o << a.el.size() << " elements against " << b.el.size(); return o.str();}
  // pair the elements by position
  std::multimap<long long, int> grid; auto cell = [](double x) {return (long long) std::floor(x*1e5);};
  for (int i = 0; i < int(b.el.size()); ++i) grid.insert({cell(b.el[i][0]), i});
  std::vector<char> used(b.el.size(), 0);
  for (int i = 0; i < int(a.el.size()); ++i) {
    auto& x = a.el[i]; int best = -1; double bd = 1e-8;
    for (long long k = cell(x[0]) - 1; k <= cell(x[0]) + 1; ++k) for (auto r = grid.equal_range(k); r.first != r.second; ++r.first) {
      int j = r.first->second; auto& y = b.el[j]; if (used[j]) continue;
      double d = std::abs(x[0] - y[0]) + std::abs(x[1] - y[1]) + std::abs(x[2] - y[2]); if (d < bd && x[3] == y[3]) {bd = d; best = j;}
    }
    if (best < 0) {o << "the element at " << x[0] << " " << x[1] << " " << x[2] << " level " << x[3] << " has no counterpart"; return o.str();}
    used[best] = 1; auto& y = b.el[best];
    for (int k = 0; k < int(x.size()); ++k) if (!close(x[k], y[k], tol)) {o << "item " << k << " of the element at " << x[0] << " " << x[1] << " " << x[2] << " is " << x[k] << " against " << y[k]; return o.str();}
  }
  for (int k = 0; k < int(std::max(a.scalars.size(), b.scalars.size())); ++k) {
    if (a.scalars.size() != b.scalars.size()) {o << "number of scalar results"; return o.str();}
    if (!close(a.scalars[k], b.scalars[k], tol)) {o << "scalar result " << k << " is " << a.scalars[k] << " against " << b.scalars[k]; return o.str();}
  }
  return "";
}

static int64_t built = 0; // number of parallel regions executed while building the mesh of a solver scenario
struct Scenario {std::string name; double tol; std::function<void(Sig&)> run;};
static std::vector<Scenario> scenarios;

static Sig execute(const Scenario& sc, const ox::Plan& p)
{
  Sig s; ox::begin(p); built = 0;
  try {sc.run(s);} catch (std::exception& e) {s.err = e.what();} catch (...) {s.err = "exception";}
  if (ox::failed_exc) s.err += " exception left a parallel region";
  return s;
}

static void examine(const Scenario& sc)
{
  ox::Plan det; det.detect = true; det.n_threads = 512;
  double t0 = clock();
  Sig base = execute(sc, det);
  auto log = ox::log_; auto fn = ox::region_fn;
  double t1 = clock();
  vx::extra("parallel_regions_executed", ox::n_regions);
  vx::transitions += ox::n_access;
  if (base.err.size()) BAD("scenario ends with " << base.err);
  {std::set<uintptr_t> pcs; for (auto& r : ox::races) for (int i : {0, 1}) pcs.insert(r.second.pc[i]); for (auto f : fn) pcs.insert(f + 1); ox::resolve(pcs);}
  std::set<std::string> seen;
  for (auto& r : ox::races) {
    auto& x = r.second; const char* kn [] {"read", "write", "atomic read", "atomic write"};
    std::string w = std::string(kn[x.kind[1]]) + " in " + ox::where(x.pc[1]) + " and " + kn[x.kind[0]] + " in " + ox::where(x.pc[0]);
    if (!seen.insert(w).second || seen.size() > 12) continue;
    BAD("unsynchronised accesses by two iterations of a parallel loop: " << w);
  }
  for (auto f : fn) {std::string w = ox::where(f + 1); vx::outcome(w); if (getenv("VERIF_FNS")) fns.insert(w);}
  // dependent pairs of synchronised accesses
  struct Pair {ox::Preempt p; uintptr_t fn;}; std::vector<Pair> pairs;
  for (size_t r = built; r < log.size(); ++r) {
    std::map<uintptr_t, std::vector<ox::Event>> by; for (auto& e : log[r]) if (e.kind < 2) by[e.addr].push_back(e);
    for (auto& a : by) {
      // the first and the last dependent operation of each thread on this location
      std::map<int, std::vector<ox::Event>> th; for (auto& e : a.second) th[e.tid].push_back(e);
      for (auto i = th.begin(); i != th.end(); ++i) for (auto j = std::next(i); j != th.end(); ++j) {
        bool st = false; for (auto& e : i->second) st = st || e.kind; for (auto& e : j->second) st = st || e.kind;
        if (!st) continue;
        for (auto& e : i->second) for (auto& f : j->second) if (e.kind || f.kind) {pairs.push_back({{int64_t(r), e.tid, e.k, f.tid, f.k}, fn[r]}); if (getenv("VERIF_FNS")) sync_fns.insert(ox::where(fn[r] + 1));}
      }
    }
  }
  vx::extra("dependent_pairs", pairs.size());
  // permuted schedules and team sizes
  auto compare = [&](const ox::Plan& p, const std::string& desc) {
    Sig s = execute(sc, p); ++vx::validated;
    std::string d = differ(base, s, sc.tol);
    if (d.size()) BAD(desc << ": " << d);
    return d.empty();
  };
  if (getenv("VERIF_FNS")) fprintf(stderr, "  detect %.2f s, %ld accesses, %zu pairs\n", (t1 - t0)/CLOCKS_PER_SEC, (long) ox::n_access, pairs.size());
  bool ok = true;
  for (int n : vx::thorough() ? std::vector<int>{1, 2, 3, 4, 5, 8, 16, 512} : std::vector<int>{1, 3, 8, 512}) for (int o = 0; o < 4 && ok; ++o) {
    if (n == 1 && o) continue; if (n == 512 && !o) continue;
    if (!vx::thorough() && n == 3 && o != 1 && o != 2) continue;
    if (!vx::thorough() && n == 8 && o != 3) continue;
    ox::Plan p; p.n_threads = n; p.order = o;
    ok = compare(p, std::to_string(n) + " threads in order " + std::to_string(o));
  }
  // one reversal at a time; in the quick tier at most so many per scenario, spread evenly
  size_t cap = vx::thorough() ? 20000 : 24, step = std::max<size_t>(1, (pairs.size() + cap - 1)/cap);
  if (step > 1) vx::extra("dependent_pairs_not_reversed", pairs.size() - (pairs.size() + step - 1)/step);
  for (size_t i = 0; i < pairs.size() && ok; i += step) {
    ox::Plan p; p.n_threads = 512; p.preempts.push_back(pairs[i].p); int64_t n0 = ox::n_preempted;
    std::ostringstream o; o << "iteration " << pairs[i].p.tid2 << " of region " << ox::where(pairs[i].fn + 1) << " overtaking iteration " << pairs[i].p.tid1 << " at its operation " << pairs[i].p.k1;
    ok = compare(p, o.str());
    if (ox::n_preempted == n0) vx::extra("preemptions_not_taken", 1); else vx::extra("pairs_reversed", 1);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  #include "sched_cases.hpp"
  int idx = 0;
  for (auto& sc : scenarios) {
    cs = sc.name;
    if (vx::replaying ? cs == vx::replay_case : (getenv("VERIF_ONLY") ? cs.find(getenv("VERIF_ONLY")) != cs.npos : vx::mine(idx))) {
      vx::begin_case(cs); vx::new_state(cs); vx::sample(cs);
      double t0 = clock(); examine(sc);
      if (getenv("VERIF_FNS")) fprintf(stderr, "%-50s %.2f s  regions %ld\n", cs.c_str(), (clock() - t0)/CLOCKS_PER_SEC, (long) ox::n_regions);
    }
    ++idx;
  }
  if (getenv("VERIF_FNS")) {for (auto& f : fns) fprintf(stderr, "FN %s\n", f.c_str()); for (auto& f : sync_fns) fprintf(stderr, "SYNC %s\n", f.c_str());}
  return vx::finish();
}
