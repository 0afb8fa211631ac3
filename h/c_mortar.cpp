// C11: prolongation to and restriction from mortar faces. Both are linear and act on each variable separately, so unit
// data in every (variable, point) slot decides them; stretch subsets, scaling and offset flags, dimensions and row sizes
// are enumerated completely.
#include <vx.hpp>
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <config.hpp>
#include <Sequence.hpp>
#include <memory>
using namespace hexed;

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o << msg; vx::fail(cs, _o.str());} while (0)
struct Faces : public Sequence<Refined_face&> {std::vector<Refined_face> v; int size() override {return v.size();} Refined_face& operator[](int i) override {return v[i];}};
template <typename T> struct Empty_seq : public Sequence<T&> {int size() override {return 0;} T& operator[](int i) override {throw std::runtime_error("empty");}};

struct Fixture
{
  int nd, rs, nv, nfq, nf, st, n_faces;
  Gauss_legendre basis; Faces faces; std::vector<std::vector<double>> mem; // per face: coarse then fine storage, each 2*nv*nfq + guard
  Empty_seq<Kernel_connection> ec; Empty_seq<Kernel_element> ee;
  std::array<bool, 2> str;
  static constexpr double guard = -123.25;
  Fixture(int nd_, int rs_, int st_, int n_faces_ = 1) : nd{nd_}, rs{rs_}, nv{std::max(nd_ + 2, nd_ + rs_)}, nfq{math::pow(rs_, nd_ - 1)}, nf{math::pow(2, nd_ - 1)}, st{st_}, n_faces{n_faces_}, basis(rs_), str{bool(st_ & 1), bool(st_ & 2)}
  {
    for (int d = 0; d < nd - 1; ++d) if (str[d]) nf /= 2;
    mem.resize(n_faces*5); faces.v.resize(n_faces);
    for (int k = 0; k < n_faces; ++k) {
      for (int j = 0; j < 5; ++j) mem[5*k + j].assign(2*(nv + 2)*nfq, guard);
      faces.v[k].coarse = mem[5*k].data(); faces.v[k].stretch = str;
      for (int j = 0; j < 4; ++j) faces.v[k].fine[j] = j < nf ? mem[5*k + 1 + j].data() : nullptr;
    }
  }
  Kernel_mesh km() {return {nd, rs, basis, ec, ec, ee, ee, ee, faces};}
  // sub-box of the unit face covered by fine face j: lower corner and size in each face dimension
  void sub(int j, double* lo, double* sz) {for (int d = nd - 2; d >= 0; --d) {if (str[d]) {lo[d] = 0; sz[d] = 1;} else {lo[d] = .5*(j%2); sz[d] = .5; j /= 2;}}}
  double coord(int q, int d) {return basis.node(q/math::pow(rs, nd - 2 - d)%rs);}
  double weight(int q) {double w = 1; auto nw = basis.node_weights(); for (int d = 0; d < nd - 1; ++d) w *= nw(q/math::pow(rs, nd - 2 - d)%rs); return w;}
};

static double mono(const double* x, int nd, const int* p) {double r = 1; for (int d = 0; d < nd - 1; ++d) for (int e = 0; e < p[d]; ++e) r *= x[d]; return r;}

static void run(int nd, int rs, int st, int which, bool scale, bool off)
{
  // which: 0 flow state / fluxes (nd + 2 variables), 1 advection (nd + row_size variables)
  Fixture f(nd, rs, st);
  int nv = which ? nd + rs : nd + 2;
  auto prolong = [&](bool s) {if (which) compute_prolong_advection(f.km()); else compute_prolong(f.km(), s, off);};
  int shift = off*(nd + 2)*f.nfq;
  double fac = 1; for (int d = 0; d < nd - 1; ++d) if (scale && f.str[d]) fac *= 2;
  int np[2] {nd > 1 ? rs : 1, nd > 2 ? rs : 1};
  auto& mem = f.mem;
  for (int v = 0; v < nv; ++v) for (int a = 0; a < np[0]; ++a) for (int b = 0; b < np[1]; ++b) {
    int p[2] {a, b}; ++vx::validated;
    for (auto& m : mem) std::fill(m.begin(), m.end(), Fixture::guard);
    for (int i = 0; i < nv*f.nfq; ++i) mem[0][shift + i] = 0;
    for (int q = 0; q < f.nfq; ++q) {double x[2]; for (int d = 0; d < nd - 1; ++d) x[d] = f.coord(q, d); mem[0][shift + v*f.nfq + q] = mono(x, nd, p);}
    auto coarse0 = mem[0];
    prolong(scale);
    if (mem[0] != coarse0) BAD("prolongation changes the coarse data");
    for (int j = 0; j < f.nf; ++j) {
      double lo[2], sz[2]; f.sub(j, lo, sz);
      auto& m = mem[1 + j];
      for (int i = 0; i < int(m.size()); ++i) {
        int k = i - shift;
        if (k < 0 || k >= nv*f.nfq) {if (m[i] != Fixture::guard) {BAD("prolongation wrote outside the data of the mortar face"); break;} continue;}
        double x[2]; for (int d = 0; d < nd - 1; ++d) x[d] = lo[d] + sz[d]*f.coord(k%f.nfq, d);
        double want = k/f.nfq == v ? fac*mono(x, nd, p) : 0;
        if (std::abs(m[i] - want) > 1e-11*fac) {BAD("mortar face " << j << " entry " << k << " is " << m[i] << ", expected " << want << " (variable " << v << " degrees " << a << "," << b << ")"); break;}
      }
    }
    for (int j = f.nf; j < 4; ++j) for (double x : mem[1 + j]) if (x != Fixture::guard) {BAD("unused mortar face written"); break;}
    if (which) continue;
    std::fill(mem[0].begin(), mem[0].end(), Fixture::guard);
    compute_restrict(f.km(), scale, off);
    for (int i = 0; i < int(mem[0].size()); ++i) {
      int k = i - shift; double got = mem[0][i];
      if (k < 0 || k >= nv*f.nfq) {if (got != Fixture::guard) {BAD("restriction wrote outside the coarse data"); break;} continue;}
      if (std::abs(got - coarse0[i]) > 1e-11) {BAD("restriction does not invert prolongation: entry " << k << " is " << got << ", expected " << coarse0[i]); break;}
    }
  }
  if (which) return;
  // arbitrary fine data, one slot at a time: the integral against every polynomial of the coarse space is preserved
  for (int j = 0; j < f.nf; ++j) for (int v = 0; v < nv; ++v) for (int q = 0; q < f.nfq; ++q) {
    ++vx::validated;
    for (auto& m : mem) std::fill(m.begin(), m.end(), Fixture::guard);
    for (int k = 0; k < f.nf; ++k) for (int i = 0; i < nv*f.nfq; ++i) mem[1 + k][shift + i] = 0;
    mem[1 + j][shift + v*f.nfq + q] = 1;
    compute_restrict(f.km(), scale, off);
    double lo[2], sz[2]; f.sub(j, lo, sz); double area = 1; for (int d = 0; d < nd - 1; ++d) area *= sz[d];
    for (int a = 0; a < np[0]; ++a) for (int b = 0; b < np[1]; ++b) {
      int p[2] {a, b}; double x[2]; for (int d = 0; d < nd - 1; ++d) x[d] = lo[d] + sz[d]*f.coord(q, d);
      double want = f.weight(q)*area*mono(x, nd, p)/fac, got = 0;
      for (int r = 0; r < f.nfq; ++r) {double y[2]; for (int d = 0; d < nd - 1; ++d) y[d] = f.coord(r, d); got += f.weight(r)*mem[0][shift + v*f.nfq + r]*mono(y, nd, p);}
      if (std::abs(got - want) > 1e-12) {BAD("restriction: moment " << a << "," << b << " of unit data at mortar face " << j << " point " << q << " is " << got << ", expected " << want); return;}
    }
    for (int u = 0; u < nv; ++u) if (u != v) for (int r = 0; r < f.nfq; ++r) if (mem[0][shift + u*f.nfq + r] != 0) {BAD("restriction mixes variables"); return;}
  }
}

// several refined faces in one sequence are processed independently
static void many(int nd, int rs, int st)
{
  Fixture f(nd, rs, st, 3), one(nd, rs, st, 1); int nv = nd + 2;
  for (int k = 0; k < 3; ++k) for (int i = 0; i < nv*f.nfq; ++i) f.mem[5*k][i] = std::sin(i + 10.*k);
  compute_prolong(f.km());
  for (int k = 0; k < 3; ++k) {
    for (int i = 0; i < nv*f.nfq; ++i) one.mem[0][i] = std::sin(i + 10.*k);
    compute_prolong(one.km());
    for (int j = 0; j < f.nf; ++j) if (one.mem[1 + j] != f.mem[5*k + 1 + j]) BAD("refined faces of one sequence are not independent (prolong)");
  }
  auto saved = f.mem;
  compute_restrict(f.km());
  for (int k = 0; k < 3; ++k) {
    for (int j = 0; j < f.nf; ++j) std::copy(saved[5*k + 1 + j].begin(), saved[5*k + 1 + j].end(), one.mem[1 + j].begin());
    compute_restrict(one.km());
    for (int i = 0; i < nv*f.nfq; ++i) if (one.mem[0][i] != f.mem[5*k][i]) {BAD("refined faces of one sequence are not independent (restrict)"); break;}
  }
  ++vx::validated;
}

int main(int argc, char** argv)
{
  vx::init(argc, argv); int idx = 0;
  auto go = [&](const std::string& c, std::function<void()> fn) {
    cs = c;
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
      vx::begin_case(cs); vx::new_state(cs); vx::outcome(cs); vx::sample(cs);
      try {fn();} catch (std::exception& e) {BAD("exception: " << e.what());}
    }
    ++idx;
  };
  int maxrs = config::max_row_size, cap3 = vx::thorough() ? maxrs : std::min(maxrs, 6);
  for (int nd = 3; nd >= 1; --nd) for (int rs = nd == 3 ? cap3 : maxrs; rs >= 2; --rs) for (int st = 0; st < (1 << (nd - 1)); ++st) {
    std::string o = std::to_string(nd) + " " + std::to_string(rs) + " " + std::to_string(st);
    for (int scale : {0, 1}) for (int off : {0, 1}) go("state " + o + " " + std::to_string(scale) + " " + std::to_string(off), [&]() {run(nd, rs, st, 0, scale, off);});
    go("advection " + o, [&]() {run(nd, rs, st, 1, 0, 0);});
    go("many " + o, [&]() {many(nd, rs, st);});
  }
  vx::transitions = vx::validated;
  return vx::finish();
}
