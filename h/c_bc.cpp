// C19: boundary conditions against their documented physics.
// 1. pointwise, on a lattice of states, normals and faces; 2. global wall balances and 3. mirror symmetry with the real solver;
// 4. the mapping from the case's inputs to the conditions on every face.
#include "solvlib.hpp"
#include <Case.hpp>
#include <constants.hpp>
#include <config.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace hexed;
using namespace sl;
template <auto M> struct Solver_door {friend Solver* case_solver(Case& c) {return (c.*M).get();}};
template struct Solver_door<&Case::_solver_ptr>;
Solver* case_solver(Case& c);

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o.precision(10); _o << msg; vx::fail(cs, _o.str());} while (0)
static int n_viol() {return vx::violations.size();}
static bool skip() {static int idx = 0; if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) return true; vx::begin_case(cs); vx::new_state(cs); return false;}

// ---- 1. pointwise ----
struct Mock : public Boundary_face
{
  Storage_params par; int dim; bool sign; std::vector<double> gh[2], in[2], nrml, pos, sc, fc;
  Mock(Storage_params p, int d, bool s) : par{p}, dim{d}, sign{s}
  {
    int n = p.n_var_numeric()*p.n_face_qpoint(); for (int i = 0; i < 2; ++i) {gh[i].assign(n, -77.); in[i].assign(n, 0.);}
    nrml.assign(p.n_dim*p.n_face_qpoint(), 0.); pos = nrml; sc.assign(n, -55.); fc.assign(n, 0.);
  }
  Storage_params storage_params() override {return par;}
  double* ghost_face(bool l) override {return gh[l].data();}
  double* inside_face(bool l) override {return in[l].data();}
  int i_dim() override {return dim;}
  bool inside_face_sign() override {return sign;}
  double* surface_normal() override {return nrml.data();}
  double* surface_position() override {return pos.data();}
  double* state_cache() override {return sc.data();}
  double* flux_cache() override {return fc.data();}
  Mat<> get(std::vector<double>& v, int q, int n) {Mat<> r(n); for (int i = 0; i < n; ++i) r(i) = v[i*par.n_face_qpoint() + q]; return r;}
  void set(std::vector<double>& v, int q, Mat<> x) {for (int i = 0; i < x.size(); ++i) v[i*par.n_face_qpoint() + q] = x(i);}
};
struct Prim {double rho, p; Mat<> u;};
static Mat<> conserved(Prim s) {int nd = s.u.size(); Mat<> r(nd + 2); r.head(nd) = s.rho*s.u; r(nd) = s.rho; r(nd + 1) = s.p/.4 + .5*s.rho*s.u.squaredNorm(); return r;}
static Prim primitive(Mat<> c) {int nd = c.size() - 2; Prim s; s.rho = c(nd); s.u = c.head(nd)/s.rho; s.p = .4*(c(nd + 1) - .5*s.rho*s.u.squaredNorm()); return s;}
// projection of a perturbation of the conserved variables onto the waves which enter (travel against the outward normal); via primitive variables
static Mat<> incoming(Prim s, Mat<> out, Mat<> dc)
{
  int nd = out.size(); double c = std::sqrt(1.4*s.p/s.rho), un = s.u.dot(out);
  double drho = dc(nd); Mat<> du = (dc.head(nd) - s.u*drho)/s.rho; double dp = .4*(dc(nd + 1) - s.u.dot(dc.head(nd)) + .5*s.u.squaredNorm()*drho), dun = du.dot(out);
  double r = 0, p = 0; Mat<> u = Mat<>::Zero(nd);
  auto acoustic = [&](int sg) {double a = .5*(dp/(s.rho*c) + sg*dun); r += a*s.rho/c; p += a*s.rho*c; u += sg*a*out;};
  if (un + c < 0) acoustic(1);
  if (un - c < 0) acoustic(-1);
  if (un < 0) {r += drho - dp/(c*c); u += du - dun*out;} // entropy and shear
  Mat<> res(nd + 2); res.head(nd) = s.u*r + s.rho*u; res(nd) = r; res(nd + 1) = p/.4 + .5*s.u.squaredNorm()*r + s.rho*s.u.dot(u);
  return res;
}
struct Probe : public Surface_func
{
  int nd; Probe(int n) : nd{n} {}
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double, std::vector<double> state, std::vector<double> n) const override
  {
    std::vector<double> r; for (int v = 0; v < nd + 2; ++v) r.push_back(1 + v + 2*pos[v%nd] + .25*state[v] - .125*n[v%nd]); return r;
  }
};
static void pointwise()
{
  const double ms [] {-3.1, -1.3, -.45, .35, .8, 1.9};
  const double ratios [] {1, .2, 4};
  for (int nd = 1; nd <= 3; ++nd) for (int dim = 0; dim < nd; ++dim) for (int sign = 0; sign < 2; ++sign) for (int rs = 2; rs <= (vx::thorough() ? 6 : 4); ++rs) {
    std::ostringstream key; key << "pointwise " << nd << " dim " << dim << " sign " << sign << " rows " << rs; cs = key.str();
    if (skip()) continue;
    Storage_params par {2, nd + 2, nd, rs}; int nfq = par.n_face_qpoint(), nv = nd + 2;
    // all states and normals
    struct Pt {Prim s; Mat<> n;}; std::vector<Pt> pts;
    int nn = std::pow(3, nd);
    for (double m : ms) for (double rho : {.02, 1.1}) for (double p : {1e5, .3}) for (int in = 0; in < nn; ++in) for (double mag : {1., .01, 30.}) {
      if (in == nn/2) continue;
      Mat<> n(nd); for (int d = 0, k = in; d < nd; ++d, k /= 3) n(d) = (k%3 - 1)*(1 + .3*d); n *= mag;
      double c = std::sqrt(1.4*p/rho); Mat<> o = n.normalized()*(sign ? 1 : -1), t(nd); for (int d = 0; d < nd; ++d) t(d) = .7 - .5*d; t -= t.dot(o)*o;
      pts.push_back({{rho, p, c*(m*o + (std::abs(m) > 1 ? 1. : .4)*t)}, n});
    }
    while (pts.size()%nfq) pts.push_back(pts[pts.size()/2]);
    auto sweep = [&](std::string what, Flow_bc& bc, std::function<void(Mock&)> before, std::function<void(Mat<> in, Mat<> gh, Mat<> flux, Mat<> ghf, Mat<> n, Mat<> pos)> check) {
      for (size_t i = 0; i < pts.size(); i += nfq) {
        Mock f(par, dim, sign);
        for (int q = 0; q < nfq; ++q) {
          auto& pt = pts[(i + q*97)%pts.size()]; Mat<> st = conserved(pt.s); f.set(f.in[0], q, st); f.set(f.nrml, q, pt.n);
          Mat<> x(nd); for (int d = 0; d < nd; ++d) x(d) = .1*q + d; f.set(f.pos, q, x);
          Mat<> fl(nv); for (int v = 0; v < nv; ++v) fl(v) = st(nd)*std::pow(1.4*pt.s.p/st(nd), v < nd ? 1 : v == nd ? .5 : 1.5)*(.3 + .2*v - .05*q)*pt.n.norm(); f.set(f.in[1], q, fl);
        }
        auto in0 = f.in[0];
        if (before) before(f);
        auto in1 = f.in[1];
        bc.apply_state(f);
        auto g0 = f.gh[0];
        bc.apply_flux(f);
        ++vx::transitions; ++vx::evals;
        for (size_t k = 0; k < in0.size(); ++k) if (f.in[0][k] != in0[k] || f.in[1][k] != in1[k]) {BAD(what << " changes the inside face"); return;}
        for (int q = 0; q < nfq; ++q) {
          int nb = n_viol(); check(f.get(in0, q, nv), f.get(g0, q, nv), f.get(in1, q, nv), f.get(f.gh[1], q, nv), f.get(f.nrml, q, nd), f.get(f.pos, q, nd)); ++vx::validated;
          if (n_viol() > nb) return;
        }
      }
    };
    auto near = [&](Mat<> a, Mat<> b, Mat<> in) { // relative to the state's scales
      Prim s = primitive(in); double c = std::sqrt(1.4*s.p/s.rho) + s.u.norm();
      for (int v = 0; v < nv; ++v) {double sc = v < nd ? s.rho*c : v == nd ? s.rho : in(v); sc = std::max(sc, std::abs(b(v))); if (!(std::abs(a(v) - b(v)) <= 1e-9*sc)) return false;}
      return true;
    };
    auto nearf = [&](Mat<> a, Mat<> b, Mat<> ref, double f = 1e-9) {for (int v = 0; v < nv; ++v) if (!(std::abs(a(v) - b(v)) <= f*(std::abs(ref(v)) + std::abs(b(v))))) return false; return true;};
    #define SHOW "in " << in.transpose() << " ghost " << gh.transpose() << " normal " << n.transpose()
    #define SHOWF "flux " << fl.transpose() << " ghost " << gf.transpose() << " state " << in.transpose() << " normal " << n.transpose()
    for (int k = 0; k < 3; ++k) {
      Prim fp {1.1*ratios[k], 1e5/ratios[k], Mat<>(nd)}; for (int d = 0; d < nd; ++d) fp.u(d) = (d ? -80. : 300.)*ratios[k]; Mat<> fs = conserved(fp);
      {Freestream bc(fs); sweep("freestream", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
        if (!near(gh, fs, fs)) BAD("freestream: " << SHOW);
        if (!nearf(gf, fl, fl)) BAD("freestream: " << SHOWF);
      });}
      int limited = 0, total = 0;
      auto characteristic = [&](Flow_bc& bc, std::function<Mat<>(Prim)> fs_of) {sweep("characteristic", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
        Prim s = primitive(in); Mat<> out = n.normalized()*(sign ? 1 : -1), e = in + incoming(s, out, fs_of(s) - in); ++total;
        bool ok = e(nd) > .5001*s.rho && e(nd + 1) - .5*e.head(nd).squaredNorm()/e(nd) > .5001*s.p/.4;
        if (!ok) { // must be admissible, no more
          ++limited;
          Prim g = primitive(gh); if (!(g.rho >= .4999*s.rho) || !(g.p >= .4999*s.p - 1e-11*std::abs(gh(nd + 1)))) BAD("characteristic: inadmissible ghost state: " << SHOW);
        } else {
          if (!near(gh, e, in)) {BAD("characteristic: " << SHOW << " expected " << e.transpose()); }
        }
        Mat<> ef = incoming(s, out, fl); double c = std::sqrt(1.4*s.p/s.rho) + s.u.norm(), a = std::abs(fl(nd)) + fl.head(nd).norm()/c + std::abs(fl(nd + 1))/c/c; a *= 1e-9;
        for (int v = 0; v < nv; ++v) if (!(std::abs(gf(v) - ef(v)) <= a*std::pow(c, v < nd ? 1 : v == nd ? 0 : 2)*(1 + c*c*s.rho/s.p))) {BAD("characteristic: " << SHOWF << " expected " << ef.transpose()); break;}
      });};
      Riemann_invariants ri(fs); characteristic(ri, [&](Prim) {return fs;});
      if (limited == total) BAD("vacuous");
    }
    // a freestream near the state itself, where nothing is limited
    for (size_t i = 0; i < pts.size(); i += vx::thorough() ? 3 : 7) {
      Prim s = pts[i].s, fp = s; fp.rho *= 1.1; fp.p *= .93; for (int d = 0; d < nd; ++d) fp.u(d) += (d ? -.05 : .08)*std::sqrt(1.4*s.p/s.rho);
      Riemann_invariants bc(conserved(fp)); Mock f(par, dim, sign); Mat<> in = conserved(s), n = pts[i].n;
      for (int q = 0; q < nfq; ++q) {f.set(f.in[0], q, in); f.set(f.nrml, q, n*(q + 1));}
      bc.apply_state(f); ++vx::evals; ++vx::validated;
      Mat<> e = in + incoming(s, n.normalized()*(sign ? 1 : -1), conserved(fp) - in);
      for (int q = 0; q < nfq; ++q) {Mat<> gh = f.get(f.gh[0], q, nv); if (!near(gh, e, in)) {BAD("characteristic (near): " << SHOW << " expected " << e.transpose()); break;}}
    }
    for (double p : {1., 3e4}) {Pressure_outflow bc(p); sweep("pressure outflow", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
      Prim s = primitive(in); double un = s.u.dot(n.normalized())*(sign ? 1 : -1), c = std::sqrt(1.4*s.p/s.rho);
      if (un > 0) {
        if (un < c) {s.p = p; if (!near(gh, conserved(s), in)) BAD("pressure outflow (subsonic): " << SHOW);}
        else if (!near(gh, in, in)) BAD("pressure outflow (supersonic): " << SHOW);
      }
      if (!nearf(gf, -fl, fl)) BAD("pressure outflow: " << SHOWF);
    });}
    {Outflow bc; sweep("outflow", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
      if (!near(gh, in, in)) BAD("outflow: " << SHOW);
      if (!nearf(gf, -fl, fl)) BAD("outflow: " << SHOWF);
    });}
    {Nonpenetration bc; sweep("nonpenetration", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
      Mat<> o = n.normalized(), e = in; e.head(nd) -= 2*in.head(nd).dot(o)*o; if (!near(gh, e, in)) BAD("nonpenetration: " << SHOW);
      Mat<> avg = Mat<>::Zero(nv); avg.head(nd) = fl.head(nd).dot(o)*o; Mat<> m = .5*(fl + gf); double sc = fl.head(nd).norm();
      for (int v = 0; v < nv; ++v) if (!(std::abs(m(v) - avg(v)) <= 1e-10*(v < nd ? sc : std::abs(fl(v))))) {BAD("nonpenetration: " << SHOWF); break;}
    });}
    Probe probe(nd);
    auto expect_probe = [&](Mat<> in, Mat<> n, Mat<> pos) {auto r = probe(std::vector<double>(pos.data(), pos.data() + nd), 0, std::vector<double>(in.data(), in.data() + nv), std::vector<double>(n.data(), n.data() + nd)); return Mat<>(Eigen::Map<Mat<>>(r.data(), nv));};
    {Function_bc bc(probe); sweep("function", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<> pos) {
      if (!near(gh, expect_probe(in, n, pos), in)) BAD("function: " << SHOW);
      if (!nearf(gf, fl, fl)) BAD("function: " << SHOWF);
    });}
    {Cache_bc bc(new Probe(nd)); sweep("cache", bc, [&](Mock& f) {
      auto keep = f.in[0]; for (int k = 0; k < nv*nfq; ++k) f.in[0][k] *= 2.5; bc.init_cache(f); f.in[0] = keep; // remembers the state at initialization
    }, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<> pos) {
      if (!near(gh, expect_probe(2.5*in, n, pos), in)) BAD("cache: " << SHOW);
      if (!nearf(gf, fl, fl)) BAD("cache: " << SHOWF);
    });}
    struct Th {std::string name; std::shared_ptr<Thermal_bc> t; double q, eps, h, tw, e;};
    std::vector<Th> ths;
    for (double q : {0., 1e3, -2.}) ths.push_back({"heat flux", std::make_shared<Prescribed_heat_flux>(q), q, 0, 0, 0, -1});
    for (double e : {2e5, 30.}) ths.push_back({"energy", std::make_shared<Prescribed_energy>(e), 0, 0, 0, 0, e});
    for (double eps : {0., .7}) for (double h : {0., 40.}) {auto t = std::make_shared<Thermal_equilibrium>(); t->emissivity = eps; t->heat_transfer_coef = h; t->temperature = 350.; ths.push_back({"equilibrium", t, 0, eps, h, 350., -1});}
    for (auto& th : ths) for (double co : {2., 1., .3}) {
      No_slip bc(th.t, co); sweep("no slip", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {
        Mat<> e = in; e.head(nd) *= -1; double wall = th.e*in(nd);
        if (th.e > 0) e(nd + 1) = gh(nd + 1);
        if (!near(gh, e, in)) BAD("no slip " << th.name << ": " << SHOW);
        // an energy is prescribed by reflection about the wall value
        if (th.e > 0 && (!(gh(nd + 1) > 0) || (std::abs(in(nd + 1)/wall - 1) < 1e-9 ? std::abs(gh(nd + 1)/wall - 1) > 1e-8 : (gh(nd + 1) - wall)*(in(nd + 1) - wall) >= 0))) BAD("no slip " << th.name << ": wall energy " << wall << ": " << SHOW);
        for (int d = 0; d < nd; ++d) if (gf(d) != fl(d)) {BAD("no slip " << th.name << ": " << SHOWF); return;}
        if (std::abs(.5*(gf(nd) + fl(nd))) > 1e-12*std::abs(fl(nd))) BAD("no slip " << th.name << ": mass flux: " << SHOWF);
        double target = fl(nd + 1);
        if (th.e <= 0) {
          double t = in(nd + 1)*.4/in(nd)/287.05287; // there is no kinetic energy at the wall
          target = (th.q + th.eps*5.670374419e-8*t*t*t*t + th.h*(t - th.tw))*n.norm()*(sign ? 1 : -1);
        }
        double x = fl(nd + 1) + co*(target - fl(nd + 1));
        if (!(std::abs(gf(nd + 1) - x) <= 1e-8*(std::abs(target) + std::abs(fl(nd + 1))))) BAD("no slip " << th.name << " coercion " << co << ": expected " << x << ": " << SHOWF);
      });
    }
    {Copy bc; sweep("copy", bc, nullptr, [&](Mat<> in, Mat<> gh, Mat<> fl, Mat<> gf, Mat<> n, Mat<>) {if (!near(gh, in, in)) BAD("copy: " << SHOW); if (!nearf(gf, fl, fl)) BAD("copy: " << SHOWF);});}
  }
}

// ---- 2./3. with the solver ----
struct Config {std::string name; bool visc; double av, lap; bool smooth, filter;};
static const Config configs [] {{"inviscid", false, 0, 0, false, false}, {"viscous", true, 0, 0, false, false}, {"artificial", false, .02, .03, false, true}, {"smooth", true, 0, 0, true, false}};
static std::unique_ptr<Solver> make_solver(int nd, int rs, const Config& c)
{
  return std::unique_ptr<Solver>(new Solver(nd, rs, 1., false, c.visc ? Transport_model::constant(.02) : inviscid, c.visc ? Transport_model::constant(7.) : inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>()));
}
static void set_up(Solver& s, const Config& c, int nd)
{
  if (c.av != 0 || c.lap != 0) {
    s.set_art_visc_constant(c.av); auto& el = am(s).elements();
    for (int i = 0; i < el.size(); ++i) for (int q = 0; q < s.storage_params().n_qpoint(); ++q) el[i].laplacian_av_coef()[q] = c.lap;
  }
  s.nspace().assign("use_filter", int(c.filter)); s.nspace().assign("max_safety", .1);
  s.nspace().assign("freestream" + std::to_string(nd), 1.2); s.nspace().assign("freestream" + std::to_string(nd + 1), 2.5);
}
struct Qp {Element* e; int q; double w; std::vector<double> pos;};
static std::vector<Qp> qpoints(Solver& s, const Basis& basis)
{
  std::vector<Qp> v; auto par = s.storage_params(); auto& el = am(s).elements(); auto w = basis.node_weights();
  for (int i = 0; i < el.size(); ++i) for (int q = 0; q < par.n_qpoint(); ++q) {
    double x = std::pow(el[i].nominal_size(), par.n_dim)*el[i].jacobian_determinant(q);
    for (int d = 0, k = q; d < par.n_dim; ++d, k /= par.row_size) x *= w(k%par.row_size);
    v.push_back({&el[i], q, x, el[i].position(basis, q)});
  }
  return v;
}
// a block of cells; positions given by a map of the cell lattice
static void block(Solver& s, int nd, std::array<int, 3> lo, std::array<int, 3> hi, bool deformed, std::function<V3(V3)> f, std::function<Flow_bc*(int)> mk)
{
  auto& m = am(s); std::map<std::array<int, 3>, int> sn; std::vector<int> bc; for (int i = 0; i < 2*nd; ++i) bc.push_back(m.add_boundary_condition(mk(i), new Null_mbc));
  for (int d = nd; d < 3; ++d) {lo[d] = 0; hi[d] = 1;}
  auto each = [&](std::function<void(std::array<int, 3>)> g) {for (int i = lo[0]; i < hi[0]; ++i) for (int j = lo[1]; j < hi[1]; ++j) for (int k = lo[2]; k < hi[2]; ++k) g({i, j, k});};
  each([&](std::array<int, 3> c) {
    sn[c] = m.add_element(1, deformed, std::vector<int>(c.begin(), c.begin() + nd));
    if (deformed) place(m.element(1, true, sn[c]), nd, [&](V3 x) {for (int d = 0; d < nd; ++d) x(d) += c[d]; return V3(.5*f(x));});
  });
  each([&](std::array<int, 3> c) {
    for (int d = 0; d < nd; ++d) {
      auto o = c; ++o[d];
      if (o[d] < hi[d]) {if (deformed) m.connect_deformed(1, {sn[c], sn[o]}, {{d, d}, {true, false}}); else m.connect_cartesian(1, {sn[c], sn[o]}, {d});}
      if (c[d] == lo[d]) m.connect_boundary(1, deformed, sn[c], d, 0, bc[2*d]);
      if (c[d] == hi[d] - 1) m.connect_boundary(1, deformed, sn[c], d, 1, bc[2*d + 1]);
    }
  });
  m.cleanup(); s.calc_jacobian();
}
// state at a position; symmetric about coordinate `dim` = 0 if 0 <= dim
static std::vector<double> wild(std::vector<double> p, int nd, int dim)
{
  bool flip = dim >= 0 && p[dim] < 0; if (flip) p[dim] *= -1;
  std::vector<double> r; double rho = 1.2*(1 + .2*(hash01(p.data(), nd, 1) - .5)), pr = .9*(1 + .2*(hash01(p.data(), nd, 2) - .5)), k = 0;
  for (int d = 0; d < nd; ++d) {double u = .3*(hash01(p.data(), nd, 3 + d) - .4); if (flip && d == dim) u *= -1; r.push_back(rho*u); k += .5*rho*u*u;}
  r.push_back(rho); r.push_back(pr/.4 + k); return r;
}
static void fill(Solver& s, const Basis& b, int nd, int dim)
{
  std::vector<double> mid {0, 0, 0}; for (int d = 0; d < nd; ++d) mid[d] = 0;
  s.initialize(Constant_func(wild(std::vector<double>(nd, .1), nd, -1)));
  // set at exact lattice independent positions: round to make mirrored positions identical
  for (auto& q : qpoints(s, b)) {for (auto& x : q.pos) x = std::round(x*1e8)/1e8 + 0.; auto st = wild(q.pos, nd, dim); for (int v = 0; v < nd + 2; ++v) q.e->state()[v*s.storage_params().n_qpoint() + q.q] = st[v];}
}
struct Position_state : public Spacetime_func
{
  int nd, dim; Position_state(int n, int d) : nd{n}, dim{d} {}
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> p, double) const override {for (auto& x : p) x = std::round(x*1e8)/1e8 + 0.; return wild(p, nd, dim);}
};

static void walls()
{
  for (int nd = 1; nd <= 3; ++nd) for (int rs = 2; rs <= (vx::thorough() ? config::max_row_size : nd == 3 ? 3 : 5); ++rs) for (int def = 0; def < 3; ++def) for (auto& c : configs) for (int kind = 0; kind < 4; ++kind) for (int wall = 0; wall < 2*nd + 1; ++wall) {
    if (nd == 3 && def == 2) continue; // curved faces

    std::ostringstream key; key << "walls " << nd << " rows " << rs << " mesh " << def << " " << c.name << " thermal " << kind << " wall " << wall; cs = key.str();
    if (skip()) continue;
    ++vx::evals; ++vx::transitions;
    Gauss_legendre basis(rs); auto ps = make_solver(nd, rs, c); Solver& s = *ps;
    double q = 0, temp = .9/1.2/287.05287;
    // nonpenetration everywhere except possibly one no slip wall
    std::shared_ptr<Thermal_bc> th; bool rest = false;
    if (kind == 0) th = std::make_shared<Prescribed_heat_flux>(0.);
    if (kind == 1) th = std::make_shared<Prescribed_heat_flux>(q = .37);
    if (kind == 2) th = std::make_shared<Prescribed_heat_flux>(q = -.21);
    if (kind == 3) {rest = true; auto t = std::make_shared<Thermal_equilibrium>(); t->emissivity = .8; t->heat_transfer_coef = 30.; t->temperature = temp*.6; q = .8*5.670374419e-8*std::pow(temp, 4) + 30.*(temp*.4); th = t;}
    V3 a[3] {V3(1.1, .1, -.2), V3(.2, .9, .1), V3(-.1, .15, 1.2)};
    auto f = [&](V3 x) {
      if (!def) return x;
      V3 y = V3::Zero(); for (int d = 0; d < nd; ++d) for (int e = 0; e < nd; ++e) y(e) += x(d)*a[d](e);
      if (def == 2 && nd == 2) {y(0) += .08*x(0)*x(1) + .03*x(1)*x(1); y(1) -= .06*x(0)*x(1);}
      return y;
    };
    block(s, nd, {0, 0, 0}, {2, 2, 1}, def, f, [&](int face) -> Flow_bc* {if (face == wall) return new No_slip(th); return new Nonpenetration;});
    set_up(s, c, nd);
    if (rest) {std::vector<double> st(nd, 0.); st.push_back(1.2); st.push_back(.9/.4); s.initialize(Constant_func(st));}
    else s.initialize(Position_state(nd, -1));
    if (c.smooth) for (int k = 0; k < 2; ++k) s.update_art_visc_smoothness(.5);
    // area of the wall
    double area = 0; bool diffusive = c.visc || c.av != 0 || c.lap != 0;
    if (wall < 2*nd) {
      int d = wall/2, hi[3] {2, 2, 1}; V3 at = V3::Zero(); at(d) = wall%2 ? hi[d] : 0;
      if (nd == 1) area = 1;
      if (nd == 2) for (int i = 0; i < 2; ++i) {V3 x = at, y = at; x(1 - d) = i; y(1 - d) = i + 1; area += .5*(f(y) - f(x)).norm();}
      if (nd == 3) {int e = (d + 1)%3, g = (d + 2)%3; V3 x = at, y = at, z = at; y(e) += hi[e]; z(g) += hi[g]; V3 u = f(y) - f(x), v = f(z) - f(x); area = .25*u.cross(v).norm();}
    }
    double rate = diffusive && wall < 2*nd ? -q*area : 0;
    s.compute_residual();
    double mass = 0, ener = 0, sm = 0, se = 0; int nq = s.storage_params().n_qpoint();
    for (auto& p : qpoints(s, basis)) {
      double dm = p.w*p.e->residual_cache()[nd*nq + p.q]/p.e->time_step_scale()[p.q], de = p.w*p.e->residual_cache()[(nd + 1)*nq + p.q]/p.e->time_step_scale()[p.q];
      mass += dm; ener += de; sm += std::abs(dm); se += std::abs(de);
    }
    sm += 1e-3; se += std::abs(rate) + 1e-3;
    if (!(std::abs(mass) < 1e-10*sm)) BAD("mass passes through walls at the rate " << mass);
    if (!(std::abs(ener - rate) < 1e-9*se)) BAD("rate of energy " << ener << " instead of " << rate);
    ++vx::validated;
  }
}

static void mirror()
{
  for (int nd = 1; nd <= 3; ++nd) for (int dim = 0; dim < nd; ++dim) for (int side = 0; side < 2; ++side) for (int rs = 2; rs <= (vx::thorough() ? config::max_row_size : nd == 3 ? 3 : 5); ++rs) for (int def = 0; def < 2; ++def) for (auto& c : configs) for (int outer = 0; outer < 5; ++outer) {

    std::ostringstream key; key << "mirror " << nd << " dim " << dim << " side " << side << " rows " << rs << " deformed " << def << " " << c.name << " outer " << outer; cs = key.str();
    if (skip()) continue;
    ++vx::evals; ++vx::transitions;
    Gauss_legendre basis(rs); std::unique_ptr<Solver> ps [2];
    Prim fp {1.2, .9, Mat<>::Zero(nd)}; for (int d = 0; d < nd; ++d) if (d != dim) fp.u(d) = .2; Mat<> fs = conserved(fp);
    for (int half = 0; half < 2; ++half) {
      ps[half] = make_solver(nd, rs, c); Solver& s = *ps[half];
      std::array<int, 3> lo {0, 0, 0}, hi {nd == 1 ? 2 : 1, 1, 1}; if (nd == 2) hi = {2, 2, 1}; hi[dim] = 2;
      if (!half) {lo[dim] = -2; hi[dim] = 2;} else if (side) {lo[dim] = -2; hi[dim] = 0;}
      auto f = [&](V3 x) {
        bool flip = x(dim) < 0; if (flip) x(dim) *= -1; V3 y = x;
        for (int d = 0; d < nd; ++d) if (d != dim) y(d) += .05*x(dim)*(1 + x((d + 1)%nd)); else for (int e = 0; e < nd; ++e) if (e != d) y(d) += .04*x(d)*x(e);
        if (flip) y(dim) *= -1; return y;
      };
      block(s, nd, lo, hi, def, f, [&](int face) -> Flow_bc* {
        if (half && face/2 == dim && face%2 == side) return new Nonpenetration;
        int k = outer; if (outer == 4) k = face/2 == dim ? 3 : 0; // corners of different conditions
        if (k == 0) return new Nonpenetration; if (k == 1) return new Freestream(fs); if (k == 2) return new Riemann_invariants(fs); return new No_slip(std::make_shared<Prescribed_heat_flux>(.1));
      });
      set_up(s, c, nd); s.initialize(Position_state(nd, dim));
      if (c.smooth) for (int k = 0; k < 2; ++k) s.update_art_visc_smoothness(.5);
    }
    auto compare = [&](std::string when) {
      auto key = [&](std::vector<double> p) {std::array<long, 3> k {0, 0, 0}; for (int d = 0; d < nd; ++d) k[d] = std::lround(p[d]*1e6); if ((side ? -1 : 1)*p[dim] < 0) k[dim] *= -1; return k;};
      std::map<std::array<long, 3>, Qp> h; for (auto& q : qpoints(*ps[1], basis)) h[key(q.pos)] = q;
      int nq = ps[0]->storage_params().n_qpoint(), n = 0;
      for (auto& q : qpoints(*ps[0], basis)) {
        auto it = h.find(key(q.pos)); if (it == h.end()) {BAD("harness: no mirrored point"); return;}
        bool flip = (side ? -1 : 1)*q.pos[dim] < 0; ++n;
        for (int what = 0; what < 2; ++what) for (int v = 0; v < nd + 2; ++v) {
          double a = (what ? q.e->residual_cache() : q.e->state())[v*nq + q.q], b = (what ? it->second.e->residual_cache() : it->second.e->state())[v*nq + it->second.q];
          if (flip && v == dim) b *= -1;
          if (what) {a /= q.e->time_step_scale()[q.q]; b /= it->second.e->time_step_scale()[it->second.q];}
          if (!(std::abs(a - b) < (what ? 1e-8*(c.visc || c.lap != 0 ? 100 : 10) : 1e-9))) {BAD(when << (what ? ": residual" : ": state") << " of variable " << v << " is " << b << " with a symmetry plane and " << a << " in the whole domain"); return;}
        }
        if (c.smooth) {double a = q.e->bulk_av_coef()[q.q], b = it->second.e->bulk_av_coef()[it->second.q]; if (!(std::abs(a - b) < 1e-9*(1 + std::abs(a)))) {BAD(when << ": artificial viscosity " << b << " with a symmetry plane and " << a << " in the whole domain"); return;}}
      }
      ++vx::validated;
    };
    for (auto& p : ps) p->compute_residual();
    compare("initially");
    for (int k = 0; k < 2; ++k) {for (auto& p : ps) {p->update(); if (c.smooth) p->update_art_visc_smoothness(.5);}}
    for (auto& p : ps) p->compute_residual();
    compare("after two updates");
  }
}

// ---- 4. the inputs of a case ----
static std::string dir;
static std::string num(double x) {std::ostringstream o; o.precision(17); o << std::scientific << x; return o.str();}
static void inputs()
{
  const char* names [] {"characteristic", "freestream", "pressure_outflow", "outflow", "nonpenetration", "no_slip"};
  struct Th {std::string spec; double q, eps, h, tw, e;};
  double cv = 287.05287/.4;
  std::vector<Th> ths {{"heat_flux = 12.5", 12.5, 0, 0, 0, -1}, {"heat_flux = -3.", -3, 0, 0, 0, -1}, {"temperature = 290.", 0, 0, 0, 0, 290*cv}, {"internal_energy = 1.5e5", 0, 0, 0, 0, 1.5e5},
    {"emissivity = .6", 0, .6, 0, 0, -1}, {"heat_transfer_coef = 25.; temperature = 280.", 0, 0, 25, 280, -1}, {"emissivity = .3; heat_transfer_coef = 25.; temperature = 280.", 0, .3, 25, 280, -1}, {"", 0, 0, 0, 0, -1}};
  for (int nd = 1; nd <= 3; ++nd) for (int first = 0; first < 6; ++first) for (int step : {0, 1, 5}) for (size_t it = 0; it < ths.size(); ++it) for (double co : {-1., 1.5}) {
    bool has_wall = false; for (int f = 0; f < 2*nd; ++f) has_wall = has_wall || (first + f*step)%6 == 5;
    if (!has_wall && (it || co > 0)) continue;
    std::ostringstream key; key << "inputs " << nd << " first " << first << " step " << step << " thermal " << it << " coercion " << co; cs = key.str();
    if (skip()) continue;
    ++vx::evals; ++vx::transitions;
    std::string t = "n_dim = " + std::to_string(nd) + "\nrow_size = 2\nworking_dir = {" + dir + "}\nfreestream_density = 1.1\nfreestream_pressure = 9e4\nfreestream_mach = .3\nattack = .2\n";
    for (int d = 0; d < 3; ++d) t += "mesh_extreme" + std::to_string(d) + "0 = -1.\nmesh_extreme" + std::to_string(d) + "1 = 1.\n";
    for (int f = 0; f < 2*nd; ++f) t += "extremal_bc" + std::to_string(f/2) + std::to_string(f%2) + " = {" + names[(first + f*step)%6] + "}\n";
    if (!ths[it].spec.empty()) t += "thermal_bc = {" + ths[it].spec + "}\n";
    if (co > 0) t += "heat_flux_coercion = " + num(co) + "\n";
    {std::ofstream o(dir + "run.hil"); o << t << "create_solver\n";}
    try {
      Case c(dir + "run.hil"); auto& m = dynamic_cast<Accessible_mesh&>(case_solver(c)->mesh());
      Mat<> fs(nd + 2); for (int v = 0; v < nd + 2; ++v) fs(v) = case_solver(c)->nspace().lookup<double>("freestream" + std::to_string(v)).value();
      auto& bcs = m.boundary_connections(); if (bcs.size() != 2*nd) {BAD(bcs.size() << " boundary connections"); continue;}
      for (int i = 0; i < bcs.size(); ++i) {
        int face = 2*bcs[i].i_dim() + bcs[i].inside_face_sign(); std::string name = names[(first + face*step)%6]; bool sign = face%2;
        Flow_bc& bc = *m.boundary_condition(bcs[i].bound_cond_serial_n()).flow_bc;
        Storage_params par {2, nd + 2, nd, 2}; Mock f(par, face/2, sign); int nfq = par.n_face_qpoint(), nv = nd + 2;
        // a subsonic outflow, so that every condition shows its parameters
        Prim s {1.3, 1.4e5, Mat<>::Zero(nd)}; for (int d = 0; d < nd; ++d) s.u(d) = d == face/2 ? (sign ? 90. : -90.) : 20. + d; Mat<> in = conserved(s), fl(nv); for (int v = 0; v < nv; ++v) fl(v) = 7. - v; Mat<> n = Mat<>::Zero(nd); n(face/2) = 1.7;
        for (int q = 0; q < nfq; ++q) {f.set(f.in[0], q, in); f.set(f.in[1], q, fl); f.set(f.nrml, q, n);}
        bc.apply_state(f); Mat<> gh = f.get(f.gh[0], 0, nv); bc.apply_flux(f); Mat<> gf = f.get(f.gh[1], 0, nv);
        Mat<> e = in, ef = -fl; Mat<> out = n.normalized()*(sign ? 1 : -1);
        if (name == "characteristic") {e = in + incoming(s, out, fs - in); ef = incoming(s, out, fl);}
        if (name == "freestream") {e = fs; ef = fl;}
        if (name == "pressure_outflow") {Prim g = s; g.p = 9e4; e = conserved(g);}
        if (name == "nonpenetration") {e(face/2) *= -1; ef(face/2) *= -1;}
        if (name == "no_slip") {
          e.head(nd) *= -1; ef = fl; ef(nd) *= -1; auto& h = ths[it]; double tm = in(nd + 1)*.4/in(nd)/287.05287;
          if (h.e > 0) {
            // whatever the way of reflection, a state with the prescribed energy is left alone
            e(nd + 1) = gh(nd + 1); Mat<> at = in; at(nd + 1) = h.e*in(nd); Mock g(par, face/2, sign);
            for (int q = 0; q < nfq; ++q) {g.set(g.in[0], q, at); g.set(g.nrml, q, n);}
            bc.apply_state(g); if (!(std::abs(g.get(g.gh[0], 0, nv)(nd + 1)/at(nd + 1) - 1) < 1e-9)) BAD(name << " with " << h.spec << " at face " << face << " does not prescribe the energy");
            if ((gh(nd + 1) - at(nd + 1))*(in(nd + 1) - at(nd + 1)) >= 0) BAD(name << " with " << h.spec << " at face " << face << " does not reflect the energy");
          } else {
            double target = (h.q + h.eps*5.670374419e-8*tm*tm*tm*tm + h.h*(tm - h.tw))*n.norm()*(sign ? 1 : -1), co1 = co > 0 ? co : 2;
            ef(nd + 1) = fl(nd + 1) + co1*(target - fl(nd + 1));
          }
        }
        for (int v = 0; v < nv; ++v) {
          if (!(std::abs(gh(v) - e(v)) <= 1e-9*(std::abs(in(v)) + std::abs(e(v)) + (v < nd ? 1e2 : 0)))) {BAD(name << " with " << ths[it].spec << " at face " << face << ": ghost state " << gh.transpose() << " expected " << e.transpose()); break;}
          double sc = name == "characteristic" ? std::pow(1e3, v == nd ? 0 : v < nd ? 1 : 2) : 1;
          if (!(std::abs(gf(v) - ef(v)) <= 1e-9*(std::abs(ef(v)) + 10*sc))) {BAD(name << " with " << ths[it].spec << " at face " << face << ": ghost flux " << gf.transpose() << " expected " << ef.transpose()); break;}
        }
      }
      ++vx::validated;
    } catch (std::exception& x) {BAD("rejected: " << std::string(x.what()).substr(0, 300));}
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c19_XXXXXX"; dir = std::string(mkdtemp(t)) + "/"; std::cout.rdbuf(nullptr);
  pointwise(); walls(); mirror(); inputs();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
