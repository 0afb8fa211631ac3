// C21: observing the solution does not change it.  Every short history of time advancement is run with and without every
// observation (and every pair of them) inserted at every point, on the real solver and through the case driver.
#include "solvlib.hpp"
#include <Case.hpp>
#include <Qpoint_func.hpp>
#include <Element_func.hpp>
#include <Domain_func.hpp>
#include <Boundary_func.hpp>
#include <config.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace hexed;
using namespace sl;
template <auto M> struct Solver_door {friend Solver* case_solver(Case& c) {return (c.*M).get();}};
template struct Solver_door<&Case::_solver_ptr>;
Solver* case_solver(Case& c);

static std::string cs, dir;
#define BAD(msg) do {std::ostringstream _o; _o.precision(12); _o << msg; vx::fail(cs, _o.str());} while (0)

static std::vector<double> wild(std::vector<double> pos, int nd)
{
  double rho = 1.2*(.9 + .2*hash01(pos.data(), nd, 1)), k = 0, p = .9*(.9 + .2*hash01(pos.data(), nd, 2));
  std::vector<double> r; for (int d = 0; d < nd; ++d) {double u = .3*(hash01(pos.data(), nd, 3 + d) - .4); r.push_back(rho*u); k += .5*rho*u*u;}
  r.push_back(rho); r.push_back(p/.4 + k); return r;
}
struct Probe : public Surface_func
{
  int nd; Probe(int n) : nd{n} {}
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double, std::vector<double>, std::vector<double>) const override {return wild(pos, nd);}
};

struct Setup {std::string name; bool visc; int av; int bc;}; // av: 0 none, 1 constant, 2 smoothness, 3 elementwise, 4 admissibility
static const Setup setups [] {{"inviscid", false, 0, 0}, {"viscous", true, 0, 1}, {"constant", false, 1, 2}, {"smooth", true, 2, 1}, {"elementwise", false, 3, 0}, {"admissibility", false, 4, 0}};
struct Run
{
  const Mesh_case& mc; int rs; const Setup& su; std::unique_ptr<Solver> s; int nd;
  Run(const Mesh_case& m, int r, const Setup& u) : mc{m}, rs{r}, su{u}, nd{m.nd}
  {
    s.reset(new Solver(nd, rs, 1., false, su.visc ? Transport_model::constant(.01) : inviscid, su.visc ? Transport_model::constant(2.) : inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>()));
    auto& n = s->nspace(); n.assign("max_safety", .2); n.assign<std::string>("working_dir", dir);
    n.assign("freestream" + std::to_string(nd), 1.2); n.assign("freestream" + std::to_string(nd + 1), 2.5); n.assign("freestream_speed", .3); n.assign("freestream_sound_speed", 1.); n.assign("freestream_density", 1.2);
    Mat<> fs(nd + 2); auto f = wild(std::vector<double>(nd, .3), nd); for (int i = 0; i < nd + 2; ++i) fs(i) = f[i];
    int count = 0;
    mc.build(*s, [&](int) -> Flow_bc* {
      switch ((su.bc + count++)%6) {
        case 0: return new Riemann_invariants(fs); case 1: return new No_slip(std::make_shared<Prescribed_heat_flux>(.1)); case 2: return new Cache_bc(new Probe(nd));
        case 3: return new Nonpenetration; case 4: return new Pressure_outflow(.9); default: return new Freestream(fs);
      }
    });
    s->initialize(Fn(nd + 2, [this](std::vector<double> p) {return wild(p, nd);}));
  }
  void advance()
  {
    switch (su.av) {
      case 1: s->set_art_visc_constant(.01); break;
      case 2: s->update_art_visc_smoothness(.3); break;
      case 3: s->update_art_visc_elwise(.3, false); break;
      case 4: s->set_fix_admissibility(true); s->set_art_visc_admis(); break;
    }
    s->update();
  }
  std::vector<double> result()
  {
    std::vector<double> r; auto& el = am(*s).elements();
    for (int i = 0; i < el.size(); ++i) {
      r.insert(r.end(), el[i].state(), el[i].state() + s->storage_params().n_dof());
      r.insert(r.end(), el[i].bulk_av_coef(), el[i].bulk_av_coef() + s->storage_params().n_qpoint());
      r.insert(r.end(), el[i].laplacian_av_coef(), el[i].laplacian_av_coef() + s->storage_params().n_qpoint());
      if (su.av == 2) r.insert(r.end(), el[i].advection_state(), el[i].advection_state() + s->storage_params().n_qpoint()*rs);
      for (int v = 0; v < (1 << nd); ++v) for (int d = 0; d < nd; ++d) r.push_back(el[i].vertex(v).pos(d));
    }
    auto st = s->iteration_status(); r.push_back(st.iteration); r.push_back(st.flow_time); r.push_back(st.time_step); r.push_back(s->nspace().lookup<double>("flow_time").value()); r.push_back(s->nspace().lookup<int>("iteration").value());
    return r;
  }
};
struct Observer {std::string name; std::function<bool(Run&)> applies; std::function<void(Run&)> look;};
static bool always(Run&) {return true;}
static std::vector<int> all_bcs(Run& r) {std::set<int> b; auto& c = am(*r.s).boundary_connections(); for (int i = 0; i < c.size(); ++i) b.insert(c[i].bound_cond_serial_n()); return {b.begin(), b.end()};}
static std::vector<Observer> observers()
{
  std::vector<Observer> o;
  o.push_back({"sample", always, [](Run& r) {auto& el = am(*r.s).elements(); Gauss_legendre b(r.rs); State_variables sv; Mass m; const Qpoint_func& qs = sv; const Qpoint_func& qm = m; Elem_average avg(sv); Elem_nonsmooth ns(sv); const Element_func& ea = avg; const Element_func& en = ns; Equiangle_skewness sk; const Element_func& es = sk; for (int i = 0; i < el.size(); ++i) {qs(el[i], b, 1, 0.); ea(el[i], b, 0.); en(el[i], b, 0.); qm(el[i], b, 0, 0.); es(el[i], b, 0.);}}});
  o.push_back({"integral_field", always, [](Run& r) {r.s->integral_field(State_variables()); r.s->integral_field(Physical_residual()); r.s->integral_field(Art_visc_coef()); Advection_state a(r.rs); r.s->integral_field(a);}});
  o.push_back({"integral_surface", always, [](Run& r) {for (int b : all_bcs(r)) {r.s->integral_surface(State_variables(), b); r.s->integral_surface(Pressure_stress(), b); r.s->integral_surface(Viscous_stress(), b); r.s->integral_surface(Heat_flux(), b);}}});
  o.push_back({"bounds_field", always, [](Run& r) {r.s->bounds_field(State_variables(), 5);}});
  o.push_back({"visualize_field", [](Run& r) {return r.nd > 1;}, [](Run& r) {r.s->visualize_field("xdmf", dir + "field", State_variables(), 3); r.s->visualize_field("xdmf", dir + "edges", State_variables(), 3, true);}});
  o.push_back({"visualize_surface", [](Run& r) {return r.nd > 1;}, [](Run& r) {for (int b : all_bcs(r)) {r.s->visualize_surface("xdmf", dir + "surface", b, State_variables(), 3); if (r.nd > 2) r.s->visualize_surface("xdmf", dir + "surface", b, Viscous_stress(), 3, true);}}});
  o.push_back({"vis_cart_surf", [](Run& r) {return r.nd > 1;}, [](Run& r) {for (int b : all_bcs(r)) r.s->vis_cart_surf("xdmf", dir + "cart", b);}});
  o.push_back({"vis_lts_constraints", [](Run& r) {return r.nd > 1;}, [](Run& r) {r.s->vis_lts_constraints("xdmf", dir + "lts", 3);}});
  o.push_back({"write_state", always, [](Run& r) {r.s->write_state(dir + "st");}});
  o.push_back({"write_mesh", [](Run& r) {return r.mc.tree;}, [](Run& r) {r.s->mesh().write(dir + "me");}});
  o.push_back({"export_polymesh", [](Run& r) {return r.mc.tree && r.nd == 3;}, [](Run& r) {r.s->mesh().export_polymesh(dir + "poly/");}});
  o.push_back({"compute_residual", always, [](Run& r) {r.s->compute_residual();}});
  o.push_back({"is_admissible", always, [](Run& r) {r.s->is_admissible();}});
  o.push_back({"set_uncertainty", always, [](Run& r) {Jac_inv_det_func j; r.s->set_uncertainty(Elem_nonsmooth(j));}});
  o.push_back({"set_uncert_surface_rep", [](Run& r) {return r.nd > 1;}, [](Run& r) {
    // defined if no element has several faces on the boundary
    for (int b : all_bcs(r)) {std::map<Element*, int> n; bool ok = true; auto& c = am(*r.s).boundary_connections(); for (int i = 0; i < c.size(); ++i) if (c[i].bound_cond_serial_n() == b) ok = ok && ++n[&c[i].element()] < 2; if (ok) r.s->set_uncert_surface_rep(b);}
  }});
  o.push_back({"synch_extruded_uncert", always, [](Run& r) {r.s->synch_extruded_uncert();}});
  o.push_back({"status", always, [](Run& r) {r.s->iteration_status(); r.s->stopwatch_tree().report(); r.s->mesh().valid(); r.s->mesh().n_elements();}});
  o.push_back({"reset_counters", always, [](Run& r) {r.s->reset_counters();}});
  return o;
}

static bool same(const std::vector<double>& a, const std::vector<double>& b, std::string& why)
{
  if (a.size() != b.size()) {why = "different numbers of values"; return false;}
  double worst = 0; size_t at = 0;
  for (size_t i = 0; i < a.size(); ++i) {double d = a[i] == b[i] ? 0 : std::abs(a[i] - b[i])/(1e-2 + std::abs(a[i]) + std::abs(b[i])); if (!(d <= worst)) {worst = d; at = i;}}
  if (worst < 1e-9) return true;
  std::ostringstream o; o.precision(10); o << "value " << at << " of " << a.size() << " is " << b[at] << " instead of " << a[at]; why = o.str(); return false;
}

static void solver_histories()
{
  auto cases = all_cases(vx::thorough()); auto obs = observers(); int no = obs.size(); int idx = 0;
  for (size_t ic = 0; ic < cases.size(); ++ic) {
    auto& mc = cases[ic];
    // every kind of mesh, with a stride
    int stride = mc.name.compare(0, 4, "tree") == 0 ? (mc.nd == 3 ? 67 : 23) : mc.name.compare(0, 4, "hang") == 0 ? (mc.nd == 3 ? 61 : 13) : mc.name.compare(0, 4, "pair") == 0 ? 11 : mc.name.compare(0, 5, "mixed") == 0 ? 3 : mc.name.compare(0, 4, "ball") == 0 ? 3 : mc.name.compare(0, 4, "disc") == 0 ? 5 : 2;
    if (vx::thorough()) stride = (stride + 2)/3;
    if (ic%stride) continue;
    for (auto& su : setups) for (int rs : mc.row_sizes) {
      if (rs != mc.row_sizes[(ic/stride)%mc.row_sizes.size()]) continue;
      if (mc.nd == 3 && !vx::thorough() && (ic/stride + (&su - setups))%3) continue;
      cs = "solver " + mc.name + " rows " + std::to_string(rs) + " " + su.name;
      if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
      vx::begin_case(cs); vx::new_state(cs);
      // words: positions 0..2 (before each of three advances), each with a list of observers
      std::vector<std::vector<std::vector<int>>> words;
      auto app = [&](int i, Run& r) {return obs[i].applies(r);};
      std::vector<double> ref; std::vector<bool> ok(no);
      {Run r(mc, rs, su); for (int i = 0; i < no; ++i) ok[i] = app(i, r); for (int k = 0; k < 3; ++k) r.advance(); ref = r.result(); vx::state(std::string(reinterpret_cast<char*>(ref.data()), ref.size()*8));}
      for (int i = 0; i < no; ++i) if (ok[i]) for (int p = 0; p < 3; ++p) {std::vector<std::vector<int>> w(3); w[p] = {i}; words.push_back(w);}
      for (int i = 0; i < no; ++i) if (ok[i]) {words.push_back({{i}, {i}, {i}});}
      bool cheap = mc.nd < 3 || vx::thorough();
      for (int i = 0; i < no; ++i) for (int j = 0; j < no; ++j) if (ok[i] && ok[j] && i != j && (cheap ? (i + j + ic)%(vx::thorough() ? 1 : 4) == 0 : false)) words.push_back({{}, {i, j}, {}});
      std::vector<int> every; for (int i = 0; i < no; ++i) if (ok[i]) every.push_back(i);
      words.push_back({every, every, every}); std::reverse(every.begin(), every.end()); words.push_back({every, every, every});
      int nbad = 0;
      for (auto& w : words) {
        ++vx::evals; Run r(mc, rs, su); std::string text;
        for (int k = 0; k < 3; ++k) {for (int i : w[k]) {obs[i].look(r); text += obs[i].name + " "; ++vx::transitions;} r.advance(); text += "advance "; ++vx::transitions;}
        std::string why; if (!same(ref, r.result(), why)) {BAD(text.substr(0, 200) << ": " << why); if (++nbad > 3) break;} else ++vx::validated;
      }
    }
  }
}

// the case driver: results of a run with every subset of the observations and different reporting intervals
static void driver()
{
  const char* looks [] {"println report", "visualize", "write_mesh; write_state", "integrate_field", "integrate_surface", "compute_residuals", "println performance_report", "println header", "println n_elements"};
  const char* modes [] {"", "art_visc_constant = .01\n", "art_visc_width = .3\n", "art_visc_width = .3\nelementwise_art_visc = 1\n", "fix_therm_admis = 1\ndiffusive_admissibility = 1\n", "viscosity_model = {ref_value = 1.7e-5; ref_temperature = 273.; offset = 110.;}\n"};
  int idx = 0;
  for (int nd = 1; nd <= 2; ++nd) for (int mode = 0; mode < 6; ++mode) {
    std::vector<double> ref;
    auto run = [&](int mask, int freq) {
      std::string t = "n_dim = " + std::to_string(nd) + "\nrow_size = 3\nworking_dir = {" + dir + "}\nfreestream_density = 1.1\nfreestream_pressure = 9e4\nfreestream_mach = .3\nattack = .2\nsurface_bc = {nonpenetration}\ninit_ref_level = 2\n";
      for (int d = 0; d < 3; ++d) t += "mesh_extreme" + std::to_string(d) + "0 = 0.\nmesh_extreme" + std::to_string(d) + "1 = 1.\n";
      t += modes[mode]; t += "print_freq = " + std::to_string(freq) + "\nvis_n_sample = 3\nintegrand_field = {a = density}\nintegrand_surface = {a = density}\nmonitor_vars = {a = iteration}\ninit_residual_momentum = 1.\ninit_residual_density = 1.\ninit_residual_energy = 1.\n";
      t += "init_cond = init_cond + {state" + std::to_string(nd) + " = freestream" + std::to_string(nd) + "*(1 + 0.1*(pos0 > 0.4))" "} + newline\n";
      if (nd == 2) t += "geom0 = {" + dir + "g.csv}\nflood_fill_start0 = .05\nflood_fill_start1 = .05\nn_smooth = 2\nvis_surface = 1\n"; else t += "vis_surface = 0\nvis_field = 0\n";
      t += "create_solver\ninit_refinement\nadd_geom\ninit_state\n";
      std::string obs; for (int i = 0; i < 9; ++i) if (mask >> i & 1) {if (nd == 1 && i == 4) continue; obs += looks[i]; obs += "\n";}
      std::string obs0 = obs; if (mask & 1) obs0.erase(0, std::string(looks[0]).size() + 1); // there is nothing to report before the first update
      int n = freq == 1 ? 6 : freq == 2 ? 4 : 3; // 6 iterations in all: the first alone, then up to each multiple of the reporting interval
      t += obs0; for (int k = 0; k < n; ++k) t += "update\n" + obs;
      {std::ofstream o(dir + "run.hil"); o << t; std::ofstream g(dir + "g.csv"); g << "1.1, -.1\n.7, .5\n1.1, 1.1\n";}
      std::vector<double> r;
      try {
        Case c(dir + "run.hil"); auto& s = *case_solver(c); auto& el = dynamic_cast<Accessible_mesh&>(s.mesh()).elements();
        for (int i = 0; i < el.size(); ++i) r.insert(r.end(), el[i].state(), el[i].state() + s.storage_params().n_dof());
        auto st = s.iteration_status(); r.push_back(st.iteration); r.push_back(st.flow_time);
      } catch (std::exception& e) {BAD("mask " << mask << " freq " << freq << ": " << std::string(e.what()).substr(0, 300));}
      for (size_t i = 0; i < r.size(); ++i) r[i] /= 1e2;
      return r;
    };
    // masks: all with up to two observations, and all together
    for (int freq : {1, 2, 3}) {
      cs = "driver " + std::to_string(nd) + " mode " + std::to_string(mode) + " freq " + std::to_string(freq);
      if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
      vx::begin_case(cs); vx::new_state(cs); ref = run(0, 1);
      if (ref.size() < 3 || std::abs(ref[ref.size() - 2] - .06) > 1e-12) {BAD("harness: " << ref.size() << " values"); continue;}
      int nbad = 0;
      for (int mask = 0; mask < 512 && nbad < 3; ++mask) {
        int bits = __builtin_popcount(mask); if (bits > (vx::thorough() ? 4 : 1) && mask != 511 && (bits > 2 || (mask + mode)%4)) continue;
        if (mask && freq == 2 && !vx::thorough() && bits < 9) continue;
        ++vx::evals; vx::transitions += 8; std::string why; auto r = run(mask, freq);
        if (!same(ref, r, why)) {BAD("observations " << mask << " reporting every " << freq << " iterations: " << why); ++nbad;} else ++vx::validated;
      }
    }
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c21_XXXXXX"; dir = std::string(mkdtemp(t)) + "/"; std::filesystem::create_directory(dir + "poly"); std::cout.rdbuf(nullptr);
  driver(); solver_histories();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
