// C20: the ways of specifying a case.  Every subset of the specification variables is given to the real driver.
#include "vx.hpp"
#include <Case.hpp>
#include <constants.hpp>
#include <standard_atmosphere.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace hexed;
template <auto M> struct Solver_door {friend Solver* case_solver(Case& c) {return (c.*M).get();}};
template struct Solver_door<&Case::_solver_ptr>;
Solver* case_solver(Case& c);
template <auto M> struct Inter_door {friend Interpreter& case_inter(Case& c) {return c.*M;}};
template struct Inter_door<&Case::_inter>;
Interpreter& case_inter(Case& c);

static std::string cs, dir;
#define BAD(msg) do {std::ostringstream _o; _o.precision(14); _o << msg; vx::fail(cs, _o.str());} while (0)

struct Result {bool ok; std::string err; std::map<std::string, double> v;};
static std::string num(double x) {std::ostringstream o; o.precision(17); o << std::scientific << x; return o.str();}
static Result run(const std::string& script)
{
  Result r {true, "", {}};
  {std::ofstream f(dir + "run.hil"); f << script;}
  try {
    Case c(dir + "run.hil");
    if (!case_solver(c)) {r.ok = false; r.err = "no solver was created"; return r;}
    auto& n = *case_inter(c).variables;
    for (const char* name : {"freestream0", "freestream1", "freestream2", "freestream3", "freestream4", "freestream_density", "freestream_pressure", "freestream_temperature", "freestream_speed", "freestream_mach", "freestream_sound_speed",
      "freestream_velocity0", "freestream_velocity1", "freestream_velocity2", "freestream_direction0", "freestream_direction1", "freestream_direction2"}) {
      auto x = n.lookup<double>(name); if (x) r.v[name] = *x;
    }
  } catch (std::exception& e) {r.ok = false; r.err = e.what();}
  return r;
}

struct Flow {double rho, p, t; Mat<> veloc;};
static void compare(const Result& r, const Flow& f, int nd)
{
  if (!r.ok) {BAD("rejected: " << r.err.substr(0, 200)); return;}
  std::map<std::string, double> e; double sq = f.veloc.squaredNorm(), speed = std::sqrt(sq), c = std::sqrt(1.4*287.05287*f.t);
  for (int d = 0; d < nd; ++d) {e["freestream" + std::to_string(d)] = f.rho*f.veloc(d); e["freestream_velocity" + std::to_string(d)] = f.veloc(d);}
  for (int d = 0; d < 3; ++d) e["freestream_direction" + std::to_string(d)] = d < nd && speed > 0 ? f.veloc(d)/speed : 0;
  e["freestream" + std::to_string(nd)] = f.rho; e["freestream" + std::to_string(nd + 1)] = f.p/.4 + .5*f.rho*sq;
  e["freestream_density"] = f.rho; e["freestream_pressure"] = f.p; e["freestream_temperature"] = f.t; e["freestream_speed"] = speed; e["freestream_sound_speed"] = c; e["freestream_mach"] = speed/c;
  for (auto& x : e) {
    if (speed == 0 && x.first.find("direction") != std::string::npos) continue;
    auto it = r.v.find(x.first);
    if (it == r.v.end()) {BAD("`" << x.first << "` is not defined"); return;}
    double scale = x.first == "freestream" + std::to_string(nd + 1) ? std::abs(x.second) : x.first.find("direction") != std::string::npos ? 1 : x.first.size() == 11 ? f.rho*(speed + c) : x.first.find("veloc") != std::string::npos || x.first.find("speed") != std::string::npos ? speed + c : std::abs(x.second) + 1e-9;
    if (!(std::abs(it->second - x.second) <= 1e-9*scale)) {BAD("`" << x.first << "` is " << it->second << " instead of " << x.second); return;}
  }
  ++vx::validated;
}
static std::string base(int nd)
{
  std::string s = "n_dim = " + std::to_string(nd) + "\nrow_size = 2\nworking_dir = {" + dir + "}\nsurface_bc = {nonpenetration}\n";
  for (int d = 0; d < 3; ++d) s += "mesh_extreme" + std::to_string(d) + "0 = -1.\nmesh_extreme" + std::to_string(d) + "1 = 1.\n";
  return s;
}
static Mat<> direction(int nd, double attack, double sideslip)
{
  Mat<> d(nd); if (nd == 1) d << 1; if (nd == 2) d << std::cos(attack), std::sin(attack);
  if (nd == 3) d << std::cos(attack)*std::cos(sideslip), std::cos(attack)*std::sin(sideslip), std::sin(attack);
  return d;
}

static void freestreams()
{
  int idx = 0;
  // every subset of the ways to give the thermodynamic state and the velocity
  const char* thermo [] {"density", "pressure", "temperature", "altitude"}; const char* veloc [] {"velocity", "speed", "mach"};
  struct Values {double rho, p, mach, attack, sideslip, alt, off;};
  std::vector<Values> values {{1.2, 1e5, .4, 0, 0, 0, 0}, {.02, 800, 6, .1, -.07, 11000, 0}, {.5, 4e4, 1, -1.2, 2, 31234.5, -12}, {1, 1e5, 0, .3, .4, 500, 20}};
  if (vx::thorough()) for (double a : {-3., -.5, .01, 1.5707963267948966, 3.}) for (double s : {-2.5, -.2, .6}) values.push_back({3.3, 2e6, 2.2, a, s, 70000, 5});
  for (int nd = 1; nd <= 3; ++nd) for (int tm = 0; tm < 16; ++tm) for (int vm = 0; vm < 8; ++vm) for (int dir_mode = 0; dir_mode < 3; ++dir_mode) for (size_t iv = 0; iv < values.size(); ++iv) {
    if (iv >= 4 && (tm > 12 || vm > 4)) continue;
    std::ostringstream key; key << "freestream " << nd << " thermo " << tm << " velocity " << vm << " direction " << dir_mode << " values " << iv; cs = key.str();
    if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    vx::begin_case(cs); vx::new_state(cs); ++vx::evals; ++vx::transitions;
    auto& v = values[iv]; std::string s = base(nd); Flow f;
    bool alt = tm & 8; int n_thermo = __builtin_popcount(tm & 7);
    bool valid_thermo = alt ? n_thermo == 0 : n_thermo == 2, valid_veloc = __builtin_popcount(vm) == 1;
    if (alt) {auto a = standard_atmosphere(v.alt, v.off); f.rho = a[0]; f.p = a[1];} else {f.rho = v.rho; f.p = v.p;}
    f.t = f.p/f.rho/287.05287; double c = std::sqrt(1.4*287.05287*f.t);
    double given [] {v.rho, v.p, v.p/v.rho/287.05287, v.alt};
    for (int i = 0; i < 4; ++i) if (tm >> i & 1) s += std::string(i < 3 ? "freestream_" : "") + thermo[i] + " = " + num(given[i]) + "\n";
    if (alt) s += "temperature_offset = " + num(v.off) + "\n";
    Mat<> d = direction(nd, 0, 0);
    if (dir_mode == 1) {s += "attack = " + num(v.attack) + "\nsideslip = " + num(v.sideslip) + "\n"; d = direction(nd, v.attack, v.sideslip);}
    if (dir_mode == 2) {d = direction(nd, v.attack + .5, v.sideslip - .3); for (int i = 0; i < nd; ++i) s += "freestream_direction" + std::to_string(i) + " = " + num(3.5*d(i)) + "\n";}
    f.veloc = v.mach*c*d;
    if (vm & 1) for (int i = 0; i < nd; ++i) s += "freestream_velocity" + std::to_string(i) + " = " + num(f.veloc(i)) + "\n";
    if (vm & 2) s += "freestream_speed = " + num(v.mach*c) + "\n";
    if (vm & 4) s += "freestream_mach = " + num(v.mach) + "\n";
    auto r = run(s + "create_solver\n");
    vx::outcome(std::string(valid_thermo && valid_veloc ? "valid" : "invalid"));
    if (valid_thermo && valid_veloc) compare(r, f, nd);
    else if (r.ok) {BAD("over- or underspecified freestream is accepted"); continue;}
    // the same flow given as conserved variables
    if (valid_thermo && valid_veloc) {
      std::string t = base(nd); Mat<> st(nd + 2); for (int i = 0; i < nd; ++i) st(i) = f.rho*f.veloc(i); st(nd) = f.rho; st(nd + 1) = f.p/.4 + .5*f.rho*f.veloc.squaredNorm();
      for (int i = 0; i < nd + 2; ++i) t += "freestream" + std::to_string(i) + " = " + num(st(i)) + "\n";
      ++vx::evals; compare(run(t + "create_solver\n"), f, nd);
      for (int skip = 1; skip < nd + 2; ++skip) { // one component missing
        std::string u = base(nd); for (int i = 0; i < nd + 2; ++i) if (i != skip) u += "freestream" + std::to_string(i) + " = " + num(st(i)) + "\n";
        ++vx::evals; if (iv == 0 && run(u + "create_solver\n").ok) BAD("a freestream state without its component " << skip << " is accepted");
      }
    }
  }
  // a vector with components missing
  for (int nd = 2; nd <= 3; ++nd) for (const char* what : {"velocity", "direction"}) for (int skip = 1; skip < nd; ++skip) {
    std::ostringstream key; key << "incomplete " << nd << what << skip; cs = key.str(); if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    vx::begin_case(cs); ++vx::evals; std::string s = base(nd) + "freestream_density = 1.\nfreestream_pressure = 1e5\n";
    for (int i = 0; i < nd; ++i) if (i != skip) s += std::string("freestream_") + what + std::to_string(i) + " = .6\n";
    if (what[0] == 'd') s += "freestream_mach = .5\n";
    if (run(s + "create_solver\n").ok) BAD("accepted");
  }
}

// the other inputs that must make sense
static void others()
{
  int idx = 0; std::string fs = "freestream_density = 1.\nfreestream_pressure = 1e5\nfreestream_mach = .5\n";
  auto expect = [&](std::string name, std::string script, bool ok) {
    cs = "other " + name; if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) return;
    vx::begin_case(cs); vx::new_state(cs); ++vx::evals; ++vx::transitions; auto r = run(script); vx::outcome(ok ? "valid" : "invalid");
    if (r.ok != ok) BAD((ok ? "rejected: " + r.err.substr(0, 200) : std::string("accepted"))); else ++vx::validated;
  };
  for (std::string nd : {"0", "1", "2", "3", "4", "-1", "2.", "{2}"}) expect("n_dim " + nd, base(2) + fs + "n_dim = " + nd + "\ncreate_solver\n", nd == "1" || nd == "2" || nd == "3");
  for (int rs = -1; rs <= config::max_row_size + 2; ++rs) expect("row_size " + std::to_string(rs), base(1) + fs + "row_size = " + std::to_string(rs) + "\ncreate_solver\n", rs >= 2 && rs <= config::max_row_size);
  for (int nd = 1; nd <= 3; ++nd) for (int d = 0; d < 3; ++d) for (double hi : {-3., -1., -.999, 4.}) {
    std::ostringstream o; o << "extent " << nd << d << " " << hi; expect(o.str(), base(nd) + fs + "mesh_extreme" + std::to_string(d) + "1 = " + num(hi) + "\ncreate_solver\n", d >= nd || hi > -1);
  }
  for (std::string m : {"", "junk = 1.", "ref_value = 1.7e-5; ref_temperature = 273.; offset = 110.;", "ref_value = 1.7e-5; offset = 110.;", "offset = 1."}) for (std::string which : {"viscosity", "conductivity"})
    expect("transport " + which + " " + m, base(2) + fs + which + "_model = {" + m + "}\ncreate_solver\n", m.empty() || m.compare(0, 12, "ref_value = ") == 0 && m.find("ref_temp") != m.npos);
  for (std::string bc : {"characteristic", "freestream", "pressure_outflow", "outflow", "nonpenetration", "no_slip", "Freestream", "", "wall", "outflow "})
    for (int nd = 1; nd <= 3; ++nd) for (int face = 0; face < 6; ++face)
      expect("bc " + bc + " " + std::to_string(nd) + " " + std::to_string(face), base(nd) + fs + "thermal_bc = {heat_flux = 0.}\nextremal_bc" + std::to_string(face/2) + std::to_string(face%2) + " = {" + bc + "}\ncreate_solver\n",
        face >= 2*nd || !(bc == "Freestream" || bc == "" || bc == "wall" || bc == "outflow "));
  // thermal conditions at walls
  for (int mask = 0; mask < 32; ++mask) {
    const char* names [] {"heat_flux", "emissivity", "heat_transfer_coef", "internal_energy", "temperature"}; std::string t; for (int i = 0; i < 5; ++i) if (mask >> i & 1) t += std::string(names[i]) + " = 2.5; ";
    bool hf = mask & 1, em = mask & 2, ht = mask & 4, en = mask & 8, te = mask & 16;
    bool sensible = mask && !(!hf && (em || ht) && ht != te);
    int meanings = hf + en + (em || ht) + (te && !ht); // how many kinds of condition are asked for
    if (meanings > 1) continue; // which one is chosen is not documented
    expect("thermal " + std::to_string(mask), base(2) + fs + "thermal_bc = {" + t + "}\nextremal_bc00 = {no_slip}\ncreate_solver\n", sensible);
  }
  for (std::string g : {"missing.csv", "noextension", "there.xyz", "there.csv", "there.stl"}) {
    {std::ofstream f(dir + "there.csv"); f << "-.3, -.3\n.4, -.3\n.4, .4\n-.3, -.3\n"; std::ofstream h(dir + "there.xyz"); h << "0, 1\n"; std::ofstream k(dir + "there.stl"); k << "solid x\nendsolid x\n"; std::ofstream l(dir + "noextension"); l << "0, 1\n";}
    for (int nd = 2; nd <= 3; ++nd) if (!(g == "there.stl" && nd == 3))
      expect("geometry " + g + " " + std::to_string(nd), base(nd) + fs + "geom0 = {" + dir + g + "}\nflood_fill_start0 = -.9\nflood_fill_start1 = -.9\nflood_fill_start2 = -.9\ninit_ref_level = 2\ncreate_solver\ninit_refinement\nadd_geom\n", g == "there.csv" && nd == 2);
  }
  {std::ofstream f(dir + "thin.csv"); f << "1.\n2.\n";} expect("geometry with one column", base(2) + fs + "geom0 = {" + dir + "thin.csv}\ncreate_solver\ninit_refinement\nadd_geom\n", false);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c20_XXXXXX"; dir = std::string(mkdtemp(t)) + "/";
  std::cout.rdbuf(nullptr);
  freestreams(); others();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
