// C08 (freestream preservation) and C09 (discrete conservation) on every mesh of the enumerated families (solvlib.hpp).
// VERIF_PROP selects the property.
#include "solvlib.hpp"
#include <config.hpp>
using namespace hexed;
using namespace sl;

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o.precision(10); _o << msg; vx::fail(cs, _o.str());} while (0)

struct Qp {Element* e; int q; double w;}; // quadrature point with physical weight
static std::vector<Qp> qpoints(Solver& s, const Basis& basis)
{
  std::vector<Qp> v; auto par = s.storage_params(); auto& el = am(s).elements();
  auto w = basis.node_weights();
  for (int i = 0; i < el.size(); ++i) for (int q = 0; q < par.n_qpoint(); ++q) {
    double x = std::pow(el[i].nominal_size(), par.n_dim)*el[i].jacobian_determinant(q);
    for (int d = 0, k = q; d < par.n_dim; ++d, k /= par.row_size) x *= w(k%par.row_size);
    v.push_back({&el[i], q, x});
  }
  return v;
}
static std::vector<double> uniform_state(int nd, int which)
{
  double rho = 1.2, p = .9, u[3] {.31, -.47, .22};
  double mult = which == 0 ? 0. : which == 1 ? 1. : 4.; // at rest, subsonic, supersonic
  std::vector<double> s; double k = 0;
  for (int d = 0; d < nd; ++d) {s.push_back(rho*u[d]*mult); k += .5*rho*u[d]*u[d]*mult*mult;}
  s.push_back(rho); s.push_back(p/.4 + k);
  return s;
}
struct Config {std::string name; bool visc; double av, lap; int bc; bool filter; int extra = 0;};
static Transport_model model(bool visc) {return visc ? Transport_model::constant(.02) : inviscid;}
static std::unique_ptr<Solver> make_solver(const Mesh_case& mc, int rs, const Config& c)
{
  return std::unique_ptr<Solver>(new Solver(mc.nd, rs, 1., false, model(c.visc), c.visc ? Transport_model::constant(7.) : inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>()));
}
static void set_av(Solver& s, const Config& c)
{
  if (c.av != 0 || c.lap != 0) {
    s.set_art_visc_constant(c.av);
    auto& el = am(s).elements();
    for (int i = 0; i < el.size(); ++i) for (int q = 0; q < s.storage_params().n_qpoint(); ++q) el[i].laplacian_av_coef()[q] = c.lap;
  }
  s.nspace().assign("use_filter", int(c.filter));
  s.nspace().assign("max_safety", .05);
}

static void freestream(const Mesh_case& mc, int rs, const Config& c, int which)
{
  int nd = mc.nd;
  auto st = uniform_state(nd, which);
  Mat<> fs(nd + 2); for (int i = 0; i < nd + 2; ++i) fs(i) = st[i];
  auto ps = make_solver(mc, rs, c); Solver& s = *ps;
  mc.build(s, [&](int) -> Flow_bc* {
    switch (c.bc) {case 0: return new Freestream(fs); case 1: return new Riemann_invariants(fs); case 2: return new Copy; default: return new Outflow;}
  });
  Gauss_legendre basis(rs);
  set_av(s, c);
  s.initialize(Constant_func(st));
  double hmin = 1e9; for (auto& q : qpoints(s, basis)) {hmin = std::min(hmin, q.e->nominal_size()*std::min(1., q.e->jacobian_determinant(q.q))); if (q.e->jacobian_determinant(q.q) <= 0) {BAD("nonpositive Jacobian"); return;}}
  double v = 0; for (int d = 0; d < nd; ++d) v += st[d]*st[d]; v = std::sqrt(v)/st[nd];
  double p = .9, speed = v + 1.05; std::vector<double> scale(nd + 2, p + st[nd]*speed*speed); scale[nd] = st[nd]*speed; scale[nd + 1] = (st[nd + 1] + p)*speed;
  double diff = (c.visc ? 8. : 0.) + c.av + c.lap; // diffusive fluxes of roundoff-size gradients
  if (c.extra) {
    s.nspace().assign("freestream" + std::to_string(nd), st[nd]); s.nspace().assign("freestream" + std::to_string(nd + 1), st[nd + 1]);
    s.update_art_visc_smoothness(.5);
  }
  s.compute_residual();
  auto pts = qpoints(s, basis);
  double worst = 0; int wv = 0;
  for (auto& q : pts) for (int i = 0; i < nd + 2; ++i) {
    double r = std::abs(q.e->residual_cache()[i*s.storage_params().n_qpoint() + q.q]/q.e->time_step_scale()[q.q])/(scale[i]/hmin*(1 + diff/hmin));
    if (!(r <= worst)) {worst = r; wv = i;}
  }
  if (!(worst < 1e-9)) BAD("residual of variable " << wv << " is " << worst << " relative to the flux scale");
  // two steps of the actual update
  for (int k = 0; k < 2; ++k) s.update();
  double dw = 0;
  for (auto& q : pts) for (int i = 0; i < nd + 2; ++i) {
    double r = std::abs(q.e->state()[i*s.storage_params().n_qpoint() + q.q] - st[i])/(scale[i]/speed);
    if (!(r <= dw)) dw = r;
  }
  if (!(dw < 1e-9)) BAD("two updates change the uniform state by " << dw);
  ++vx::validated;
}

// copies the inside state, cancels the viscous flux, and records the net convective flux out of the domain
struct Rec_bc : public Flow_bc
{
  Mat<>* total; const Basis& basis;
  Rec_bc(Mat<>* t, const Basis& b) : total{t}, basis{b} {}
  void apply_state(Boundary_face& bf) override
  {
    auto par = bf.storage_params(); int nd = par.n_dim, nfq = par.n_face_qpoint();
    double* in = bf.inside_face(false); double* gh = bf.ghost_face(false);
    for (int i = 0; i < (nd + 2)*nfq; ++i) gh[i] = in[i];
    double h = dynamic_cast<Boundary_connection&>(bf).element().nominal_size();
    auto w = basis.node_weights(); double* n = bf.surface_normal(); int sign = bf.inside_face_sign() ? 1 : -1;
    for (int q = 0; q < nfq; ++q) {
      double wt = std::pow(h, nd - 1)*sign; for (int d = 0, k = q; d < nd - 1; ++d, k /= par.row_size) wt *= w(k%par.row_size);
      double kin = 0, mn = 0; for (int d = 0; d < nd; ++d) {kin += .5*in[d*nfq + q]*in[d*nfq + q]/in[nd*nfq + q]; mn += in[d*nfq + q]*n[d*nfq + q];}
      double p = .4*(in[(nd + 1)*nfq + q] - kin), vn = mn/in[nd*nfq + q];
      for (int d = 0; d < nd; ++d) (*total)(d) += wt*(in[d*nfq + q]*vn + p*n[d*nfq + q]);
      (*total)(nd) += wt*mn;
      (*total)(nd + 1) += wt*(in[(nd + 1)*nfq + q] + p)*vn;
    }
  }
  void apply_flux(Boundary_face& bf) override
  {
    auto par = bf.storage_params();
    for (int i = 0; i < par.n_var*par.n_face_qpoint(); ++i) bf.ghost_face(true)[i] = -bf.inside_face(true)[i];
  }
};
static std::vector<double> random_state(std::vector<double> pos, int nd)
{
  auto st = uniform_state(nd, 1);
  double rho = st[nd]*(.8 + .4*hash01(pos.data(), nd, 1)), k = 0, p = .9*(.8 + .4*hash01(pos.data(), nd, 2));
  std::vector<double> r; for (int d = 0; d < nd; ++d) {double u = .4*(hash01(pos.data(), nd, 3 + d) - .4); r.push_back(rho*u); k += .5*rho*u*u;}
  r.push_back(rho); r.push_back(p/.4 + k);
  return r;
}
static Mat<> integrate(std::vector<Qp>& pts, int nd, bool residual)
{
  Mat<> t = Mat<>::Zero(nd + 2);
  for (auto& q : pts) {
    double* d = residual ? q.e->residual_cache() : q.e->state(); int nq = q.e->storage_params().n_qpoint();
    for (int i = 0; i < nd + 2; ++i) t(i) += q.w*d[i*nq + q.q]/(residual ? q.e->time_step_scale()[q.q] : 1.);
  }
  return t;
}
static void conservation(const Mesh_case& mc, int rs, const Config& c)
{
  int nd = mc.nd; Gauss_legendre basis(rs);
  Mat<> flux = Mat<>::Zero(nd + 2);
  auto ps = make_solver(mc, rs, c); Solver& s = *ps;
  bool wall = c.bc == 1;
  mc.build(s, [&](int) -> Flow_bc* {if (wall) return new Nonpenetration; return new Rec_bc(&flux, basis);});
  set_av(s, c);
  s.nspace().assign("max_safety", .01);
  s.initialize(Fn(nd + 2, [nd](std::vector<double> p) {return random_state(p, nd);}));
  auto pts = qpoints(s, basis);
  double vol = 0, hmin = 1e9; for (auto& q : pts) {vol += q.w; hmin = std::min(hmin, q.e->nominal_size());}
  for (auto& q : pts) if (q.e->jacobian_determinant(q.q) <= 0) {BAD("nonpositive Jacobian"); return;}
  double scale = 4*vol/hmin*(1 + (c.visc ? 8 : 0) + c.av + c.lap)/(c.visc || c.av != 0 || c.lap != 0 ? hmin : 1.);
  flux.setZero();
  s.compute_residual();
  Mat<> rate = integrate(pts, nd, true);
  double biggest = 0; for (auto& q : pts) biggest = std::max(biggest, std::abs(q.e->residual_cache()[nd*s.storage_params().n_qpoint() + q.q]));
  if (biggest < 1e-3) BAD("test state has no residual to speak of");
  for (int i = 0; i < nd + 2; ++i) if (!wall || i >= nd) {
    double want = wall ? 0. : -flux(i);
    if (!(std::abs(rate(i) - want) < 1e-10*scale)) BAD("integral of the residual of variable " << i << " is " << rate(i) << ", net flux through the boundary gives " << want);
  }
  // the same for an actual step: the second stage blends in the convective flux of the first stage's result
  Mat<> before = integrate(pts, nd, false);
  std::vector<Mat<>> stage;
  flux.setZero();
  s.update();
  double dt = s.iteration_status().time_step;
  Mat<> after = integrate(pts, nd, false);
  if (wall) {
    for (int i = nd; i < nd + 2; ++i) if (!(std::abs(after(i) - before(i)) < 1e-12*(1 + dt*scale)*vol*4)) BAD("step changes the total of variable " << i << " by " << after(i) - before(i) << " inside walls");
  } else {
    // flux now holds the sum of both stages; the first one was evaluated on the same state as the residual
    Mat<> first = -rate; Mat<> second = flux - first;
    for (int i = 0; i < nd + 2; ++i) {
      double want = -dt*(first(i) + basis.step_ratio()*(second(i) - first(i)));
      if (!(std::abs(after(i) - before(i) - want) < 1e-11*(vol*4 + dt*scale))) BAD("step changes the total of variable " << i << " by " << after(i) - before(i) << ", boundary flux accounts for " << want);
    }
  }
  if (!(dt > 0)) BAD("time step " << dt);
  ++vx::validated;
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  std::string prop = getenv("VERIF_PROP") ? getenv("VERIF_PROP") : "C08";
  auto cases = all_cases(vx::thorough());
  std::vector<Config> fsc {{"inviscid freestream", false, 0, 0, 0, false}, {"bulk-av riemann", false, .3, 0, 1, false}, {"viscous copy", true, 0, 0, 2, false}, {"viscous lap-av freestream filter", true, 0, .2, 0, true}, {"inviscid outflow", false, 0, 0, 3, false}, {"smoothness-av", false, 0, 0, 0, false, 1}};
  std::vector<Config> cc {{"inviscid", false, 0, 0, 0, false}, {"viscous bulk-av", true, .3, 0, 0, false}, {"viscous lap-av filter", true, 0, .2, 0, true}, {"walls bulk-av", false, .3, 0, 1, false}};
  int idx = 0;
  for (auto& mc : cases) for (int rs : mc.row_sizes) {
    if (rs > config::max_row_size) continue;
    if (prop == "C08" && !mc.exact_metric(rs)) continue;
    auto& confs = prop == "C08" ? fsc : cc;
    for (int k = 0; k < int(confs.size()); ++k) {
      int which = (idx + k)%3; if (confs[k].bc == 3) which = 2;
      if (prop == "C09") which = 0;
      cs = mc.name + " | row " + std::to_string(rs) + " | " + confs[k].name + " | state " + std::to_string(which);
      if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
        vx::begin_case(cs); vx::new_state(mc.name + std::to_string(rs)); vx::outcome(cs); vx::sample(cs);
        try {if (prop == "C08") freestream(mc, rs, confs[k], which); else conservation(mc, rs, confs[k]);}
        catch (std::exception& e) {BAD("exception: " << e.what());}
        ++vx::transitions;
      }
      ++idx;
    }
  }
  return vx::finish();
}
