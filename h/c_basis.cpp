// C23: the polynomial bases and the tensor-product kernels built on them.
// All operators are linear, so checking them on a basis of their domain (monomials, unit vectors, or matrices of
// distinct integers for the multilinear ones) decides them for every input; row sizes, dimensions, directions and matrix
// shapes are enumerated completely up to the bounds.
#include <vx.hpp>
#include <Gauss_legendre.hpp>
#include <Gauss_lobatto.hpp>
#include <Equidistant.hpp>
#include <Physical_basis.hpp>
#include <Derivative.hpp>
#include <Row_index.hpp>
#include <Row_rw.hpp>
#include <config.hpp>
#include <memory>
using namespace hexed;
typedef long double ld;

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o << msg; vx::fail(cs, _o.str());} while (0)
static bool close(ld a, ld b, ld scale, ld tol = 1e-10L) {return std::abs(a - b) <= tol*std::max<ld>(1, scale);}

// Legendre polynomial on [-1, 1] and its derivative
static void leg(int n, ld x, ld& p, ld& dp)
{
  ld p0 = 1, p1 = x;
  if (n == 0) {p = 1; dp = 0; return;}
  for (int k = 2; k <= n; ++k) {ld p2 = ((2*k - 1)*x*p1 - (k - 1)*p0)/k; p0 = p1; p1 = p2;}
  p = p1; dp = std::abs(std::abs(x) - 1) < 1e-15L ? (x > 0 ? 1 : (n%2 ? 1 : -1))*ld(n)*(n + 1)/2 : n*(x*p1 - p0)/(x*x - 1);
}

static void check_nodal(const Basis& b, int kind, int n)
{
  // kind: 0 Gauss-Legendre, 1 Gauss-Lobatto, 2 equidistant
  auto nodes = b.nodes();
  if (b.row_size != n || nodes.size() != n) BAD("row size");
  for (int i = 0; i < n; ++i) {
    if (nodes(i) != b.node(i)) BAD("nodes() disagrees with node(i)");
    if (!(nodes(i) >= 0 && nodes(i) <= 1)) BAD("node outside the unit interval");
    if (i && !(nodes(i) > nodes(i - 1))) BAD("nodes not increasing");
    if (!close(nodes(i), 1 - nodes(n - 1 - i), 1, 1e-14L)) BAD("nodes not symmetric");
    if (kind == 2 && !close(nodes(i), ld(i)/(n - 1), 1, 1e-15L)) BAD("not equidistant");
    if (kind < 2) {
      // roots of P_n, respectively endpoints and roots of P'_{n-1}
      ld x = 2*ld(nodes(i)) - 1, p, dp;
      leg(kind == 0 ? n : n - 1, x, p, dp);
      if (kind == 0 && std::abs(p) > 1e-13L*n*n) BAD("node " << i << " is not a Legendre root");
      if (kind == 1) {
        if (i == 0 || i == n - 1) {if (std::abs(std::abs(x) - 1) > 1e-15L) BAD("Lobatto end node");}
        else if (std::abs(dp) > 1e-12L*n*n*n) BAD("node " << i << " is not a Lobatto node");
      }
    }
  }
  auto nodepow = [&](ld x, int k) {ld r = 1; for (int i = 0; i < k; ++i) r *= x; return r;};
  auto dm = b.diff_mat(); auto bd = b.boundary();
  if (dm.rows() != n || dm.cols() != n || bd.rows() != 2 || bd.cols() != n) BAD("matrix shapes");
  // cardinality: sample = nodes gives the identity
  Eigen::VectorXd samples(64); for (int i = 0; i < 64; ++i) samples(i) = -.5 + i/31.5;
  auto in = b.interpolate(samples); auto id = b.interpolate(nodes);
  if (in.rows() != 64 || in.cols() != n) BAD("interpolation shape");
  if ((id - Eigen::MatrixXd::Identity(n, n)).cwiseAbs().maxCoeff() > 1e-12) BAD("interpolation to the nodes is not the identity");
  Eigen::VectorXd none(0); if (b.interpolate(none).rows() != 0) BAD("interpolation to no points");
  Eigen::MatrixXd pr [2], re [2], fi;
  if (kind == 0) for (int h : {0, 1}) {pr[h] = b.prolong(h); re[h] = b.restrict(h);}
  Eigen::VectorXd w;
  if (kind < 2) {
    w = b.node_weights(); fi = b.filter();
    if (w.size() != n) BAD("weights size");
    ld sum = 0;
    for (int i = 0; i < n; ++i) {
      sum += w(i);
      if (!(w(i) > 0 && w(i) < 1)) BAD("weight outside (0, 1)");
      if (!close(w(i), w(n - 1 - i), 1, 1e-14L)) BAD("weights not symmetric");
    }
    if (!close(sum, 1, 1, 1e-13L)) BAD("weights do not sum to 1");
    for (int k = 0; k <= 2*n - 1 - 2*kind; ++k) {
      ld s = 0; for (int i = 0; i < n; ++i) s += w(i)*nodepow(nodes(i), k);
      if (!close(s, ld(1)/(k + 1), 1, 1e-13L)) BAD("degree " << k << " not integrated exactly");
    }
  }
  for (int k = 0; k < n; ++k) {
    ++vx::validated; vx::new_state("deg" + std::to_string(kind) + "," + std::to_string(n) + "," + std::to_string(k));
    Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = nodepow(nodes(i), k);
    Eigen::VectorXd d = dm*v;
    for (int i = 0; i < n; ++i) if (!close(d(i), k ? k*nodepow(nodes(i), k - 1) : 0, n*n)) BAD("derivative of degree " << k << " at node " << i);
    Eigen::VectorXd e = bd*v;
    if (!close(e(0), k == 0, n) || !close(e(1), 1, n)) BAD("boundary extrapolation of degree " << k);
    Eigen::VectorXd s = in*v;
    for (int i = 0; i < 64; ++i) if (!close(s(i), nodepow(samples(i), k), in.row(i).cwiseAbs().sum(), 1e-11L)) BAD("interpolation of degree " << k << " to " << samples(i));
    if (kind < 2) {
      // normalised Legendre polynomials and the filter that damps mode m by 2^-m
      Eigen::VectorXd o = b.orthogonal(k);
      ld norm = 0, q = 0;
      for (int i = 0; i < n; ++i) {ld p, dp; leg(k, 2*ld(nodes(i)) - 1, p, dp); norm += p*p*w(i); q += o(i)*o(i)*w(i);}
      if (!close(q, 1, 1)) BAD("norm of orthogonal polynomial " << k);
      Eigen::VectorXd filtered = fi*o;
      for (int i = 0; i < n; ++i) {
        ld p, dp; leg(k, 2*ld(nodes(i)) - 1, p, dp);
        if (!close(o(i), p/std::sqrt(norm), n)) BAD("orthogonal polynomial " << k << " is not the Legendre polynomial at node " << i);
        if (!close(filtered(i), o(i)*std::pow(ld(.5), k), n)) BAD("filter on mode " << k);
      }
    }
    if (kind == 0) {
      Eigen::VectorXd back = Eigen::VectorXd::Zero(n);
      for (int h : {0, 1}) {
        Eigen::VectorXd f = pr[h]*v;
        for (int i = 0; i < n; ++i) if (!close(f(i), nodepow((nodes(i) + h)/2, k), n)) BAD("prolongation of degree " << k << " to half " << h);
        back += re[h]*f;
      }
      if ((back - v).cwiseAbs().maxCoeff() > 1e-11) BAD("restriction does not invert prolongation of degree " << k);
    }
  }
  if (kind == 0) for (int h : {0, 1}) for (int j = 0; j < n; ++j) {
    // orthogonal projection of arbitrary fine data: the inner product with every polynomial of the coarse space is kept
    for (int k = 0; k < n; ++k) {
      ld coarse = 0; for (int i = 0; i < n; ++i) coarse += w(i)*nodepow(nodes(i), k)*re[h](i, j);
      ld fine = w(j)/2*nodepow((nodes(j) + h)/2, k);
      if (!close(coarse, fine, 1)) BAD("restriction from half " << h << " is not the orthogonal projection: node " << j << " degree " << k);
    }
  }
  vx::outcome(cs);
}

// Kronecker-product oracle
static Eigen::VectorXd kron_apply(const Eigen::MatrixXd& m, const Eigen::VectorXd& v, int nd)
{
  int r = m.rows(), c = m.cols(), nr = 1, nc = 1; for (int d = 0; d < nd; ++d) {nr *= r; nc *= c;}
  Eigen::VectorXd out = Eigen::VectorXd::Zero(nr);
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) {
    double f = 1; int a = i, b = j;
    for (int d = 0; d < nd; ++d) {f *= m(a%r, b%c); a /= r; b /= c;}
    out(i) += f*v(j);
  }
  return out;
}

static void check_tensor(int r, int c, int nd)
{
  Eigen::MatrixXd m(r, c); int p = 1;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {m(i, j) = (p*7)%11 - 5; ++p;}
  int nc = math::pow(c, nd);
  for (int j = 0; j < nc; ++j) {
    ++vx::validated; vx::new_state("tensor" + std::to_string(r) + "," + std::to_string(c) + "," + std::to_string(nd) + "," + std::to_string(j));
    Eigen::VectorXd u = Eigen::VectorXd::Unit(nc, j);
    Eigen::VectorXd h = math::hypercube_matvec(m, u), k = kron_apply(m, u, nd);
    if (h.size() != k.size() || h != k) BAD("hypercube_matvec on unit vector " << j);
    for (int d = 0; d < nd; ++d) {
      Eigen::VectorXd g = math::dimension_matvec(m, u, d);
      int inner = math::pow(c, nd - 1 - d), outer = math::pow(c, d);
      if (g.size() != outer*r*inner) {BAD("dimension_matvec size"); continue;}
      for (int o = 0; o < outer; ++o) for (int i = 0; i < r; ++i) for (int n = 0; n < inner; ++n) {
        double want = 0; for (int q = 0; q < c; ++q) want += m(i, q)*u((o*c + q)*inner + n);
        if (g((o*r + i)*inner + n) != want) BAD("dimension_matvec along " << d << " on unit vector " << j);
      }
    }
  }
  if (r == c) {
    Eigen::VectorXd v = m.col(0); Eigen::VectorXd po = math::pow_outer(v, nd);
    if (po.size() != nc) BAD("pow_outer size");
    else for (int j = 0; j < nc; ++j) {double f = 1; int a = j; for (int d = 0; d < nd; ++d) {f *= v(a%c); a /= c;} if (po(j) != f) BAD("pow_outer");}
    if (math::pow_outer(v, 0).size() != 1 || math::pow_outer(v, 0)(0) != 1) BAD("pow_outer to the power zero");
  }
}

static void check_rows(int nd, int rs, int d)
{
  // every quadrature point is visited exactly once, in rows along dimension d
  int nq = math::pow(rs, nd), count = 0; std::vector<int> seen(nq, 0);
  for (Row_index ind(nd, rs, d); ind; ++ind) {
    if (ind.i_face_qpoint() != count) BAD("face quadrature point index");
    // face point `count` has the coordinates of the row with dimension d removed
    for (int n = 0; n < rs; ++n) {
      int q = ind.i_qpoint(n);
      if (q < 0 || q >= nq) {BAD("quadrature point out of range"); continue;}
      ++seen[q];
      int fq = 0; bool ok = true;
      for (int e = 0; e < nd; ++e) {int ce = q/math::pow(rs, nd - 1 - e)%rs; if (e == d) ok = ce == n; else fq = fq*rs + ce; if (!ok) break;}
      if (!ok || fq != count) BAD("row " << count << " node " << n << " is quadrature point " << q);
      if (ind.i_node(q) != n) BAD("i_node");
    }
    ++count;
  }
  if (count != nq/rs) BAD("number of rows");
  for (int s : seen) if (s != 1) BAD("quadrature point not visited exactly once");
  ++vx::validated; vx::new_state(cs);
}

template <int rs> void check_derivative()
{
  Gauss_legendre b(rs); Derivative<rs> der(b);
  auto w = b.node_weights(); auto nodes = b.nodes();
  for (int j = 0; j < rs + 2; ++j) {
    // unit interior data and unit boundary data: the result integrates to the difference of the boundary values
    Eigen::Matrix<double, rs, 1> v = Eigen::Matrix<double, rs, 1>::Zero(); Eigen::Matrix<double, 2, 1> bv = Eigen::Matrix<double, 2, 1>::Zero();
    if (j < rs) v(j) = 1; else bv(j - rs) = 1;
    Eigen::Matrix<double, rs, 1> r = der.template operator()<1>(v, bv);
    if (!close(w.dot(r), bv(1) - bv(0), rs*rs)) BAD("derivative not conservative");
    Eigen::Matrix<double, 2, 1> ext; Eigen::Matrix<double, rs, 1> r2 = der.template interior_term<1>(v, ext) + der.template boundary_term<1>(bv);
    if ((r - r2).cwiseAbs().maxCoeff() > 1e-10*rs*rs) BAD("interior and boundary terms do not add up to the derivative");
    Eigen::Matrix<double, 2, 1> want = b.boundary()*v; if ((ext - want).cwiseAbs().maxCoeff() > 1e-12) BAD("extrapolated values");
  }
  for (int k = 0; k < rs; ++k) {
    ++vx::validated;
    Eigen::Matrix<double, rs, 1> v; for (int i = 0; i < rs; ++i) v(i) = std::pow(nodes(i), k);
    Eigen::Matrix<double, 2, 1> bv(k == 0, 1);
    Eigen::Matrix<double, rs, 1> r = der.template operator()<1>(v, bv);
    for (int i = 0; i < rs; ++i) if (!close(r(i), k ? k*std::pow(nodes(i), k - 1) : 0, rs*rs)) BAD("derivative of degree " << k);
  }
}

template <int nv, int rs> void check_rw(int nd, int d)
{
  int nq = math::pow(rs, nd), nfq = nq/rs;
  std::vector<double> data(nv*nq); for (int i = 0; i < nv*nq; ++i) data[i] = i + 1;
  std::vector<std::vector<double>> fd(6, std::vector<double>(nv*nfq, -1.)); std::array<double*, 6> faces{};
  for (int f = 0; f < 2*nd; ++f) faces[f] = fd[f].data();
  std::vector<double> orig = data;
  for (Row_index ind(nd, rs, d); ind; ++ind) {
    auto row = Row_rw<nv, rs>::read_row(data.data(), ind);
    for (int v = 0; v < nv; ++v) for (int n = 0; n < rs; ++n) if (row(n, v) != orig[v*nq + ind.i_qpoint(n)]) BAD("read_row");
    decltype(row) ten = 10*row;
    Row_rw<nv, rs>::write_row(ten, data.data(), ind, 3.);
    Mat<2, nv> bnd; for (int v = 0; v < nv; ++v) for (int s : {0, 1}) bnd(s, v) = 100*v + 10*ind.i_face_qpoint() + s;
    Row_rw<nv, rs>::write_bound(bnd, faces, ind);
    Mat<2, nv> rb = Row_rw<nv, rs>::read_bound(faces, ind);
    if (rb != bnd) BAD("write_bound/read_bound");
  }
  for (int i = 0; i < nv*nq; ++i) if (data[i] != 13*orig[i]) BAD("write_row");
  for (int f = 0; f < 2*nd; ++f) for (int v = 0; v < nv; ++v) for (int q = 0; q < nfq; ++q) {
    double want = f/2 == d ? 100*v + 10*q + f%2 : -1;
    if (fd[f][v*nfq + q] != want) BAD("face data layout");
  }
  ++vx::validated; vx::new_state(cs);
}

static void check_physical(int nd, int rs)
{
  // on an affinely and on a nonlinearly placed set of points: size, complete polynomial space, projection
  Gauss_legendre b(rs); int nq = math::pow(rs, nd); auto nodes = b.nodes();
  for (int shape = 0; shape < 2; ++shape) {
    std::vector<double> pos(nd*nq);
    for (int q = 0; q < nq; ++q) {
      double x[3]; for (int d = 0; d < nd; ++d) x[d] = nodes(q/math::pow(rs, nd - 1 - d)%rs);
      for (int d = 0; d < nd; ++d) pos[d*nq + q] = 2 + (d + 1)*x[d] + (nd > 1 ? .3*x[(d + 1)%nd] : 0) + (shape ? .1*x[d]*x[(d + 1)%nd] : 0);
    }
    Physical_basis pb(nd, rs, pos);
    int expect = 0;
    std::vector<std::array<int, 3>> mono;
    for (int i = 0; i < rs; ++i) for (int j = 0; j < (nd > 1 ? rs : 1); ++j) for (int k = 0; k < (nd > 2 ? rs : 1); ++k) if (i + j + k < rs) {++expect; mono.push_back({i, j, k});}
    if (pb.size() != expect) BAD("physical basis size");
    Eigen::VectorXd w = math::pow_outer(b.node_weights(), nd);
    Eigen::MatrixXd polys(nq, mono.size() + 2);
    for (size_t m = 0; m < mono.size(); ++m) for (int q = 0; q < nq; ++q) {
      double f = 1; for (int d = 0; d < nd; ++d) for (int e = 0; e < mono[m][d]; ++e) f *= pos[d*nq + q] - 2.5;
      polys(q, m) = f;
    }
    for (int q = 0; q < nq; ++q) {polys(q, mono.size()) = (q*7)%5; polys(q, mono.size() + 1) = q == nq - 1;}
    Eigen::MatrixXd pr = pb.projection(polys, w);
    if (pr.rows() != nq || pr.cols() != polys.cols()) {BAD("projection shape"); continue;}
    for (size_t m = 0; m < mono.size(); ++m) if ((pr.col(m) - polys.col(m)).cwiseAbs().maxCoeff() > 1e-8*std::max(1., polys.col(m).cwiseAbs().maxCoeff())) BAD("polynomial of the space changed by the projection");
    // residual orthogonal to the space
    Eigen::MatrixXd res = polys - pr;
    for (int c = 0; c < res.cols(); ++c) for (int i = 0; i < pb.size(); ++i) {
      double s = 0; for (int q = 0; q < nq; ++q) s += w(q)*res(q, c)*pb.evaluate(q, i);
      if (std::abs(s) > 1e-8) BAD("projection not orthogonal");
    }
  }
  ++vx::validated; vx::new_state(cs);
}

// linear stability of the explicit two-stage scheme at the advertised maximum CFL number on a periodic mesh is what the
// time step selection relies on; also that the tabulated eigenvalues are those of the operators
static void check_eigen(const Basis& b, int n)
{
  const int ne = 16, N = ne*n;
  auto dm = b.diff_mat(); auto bd = b.boundary(); auto w = b.node_weights();
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(N, N), G = A;
  for (int e = 0; e < ne; ++e) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int row = e*n + i, l = ((e + ne - 1)%ne)*n + j, r = ((e + 1)%ne)*n + j;
    A(row, e*n + j) -= dm(i, j); G(row, e*n + j) += dm(i, j);
    // upwind: only the jump at the left face matters; central: half of each jump
    A(row, e*n + j) -= bd(0, i)/w(i)*bd(0, j); A(row, l) += bd(0, i)/w(i)*bd(1, j);
    G(row, e*n + j) += .5*bd(0, i)/w(i)*bd(0, j); G(row, l) -= .5*bd(0, i)/w(i)*bd(1, j);
    G(row, e*n + j) -= .5*bd(1, i)/w(i)*bd(1, j); G(row, r) += .5*bd(1, i)/w(i)*bd(0, j);
  }
  Eigen::EigenSolver<Eigen::MatrixXd> ea(A, false), ed(G*G, false);
  double ma = ea.eigenvalues().real().minCoeff(), md = ed.eigenvalues().real().minCoeff();
  if (std::abs(b.min_eig_diffusion() - md) > 1e-6*std::abs(md)) BAD("diffusion eigenvalue " << b.min_eig_diffusion() << " expected " << md);
  // max_cfl = -2*quadratic_safety/min_eig_convection and step_ratio = .5/quadratic_safety
  double got = -2*(.5/b.step_ratio())/b.max_cfl();
  if (std::abs(got - ma) > 1e-6*std::abs(ma)) BAD("convection eigenvalue " << got << " expected " << ma);
  if (!(b.max_cfl() > 0 && b.step_ratio() > 0)) BAD("CFL number");
  ++vx::validated;
}

template <int rs> void all_rows(int& idx)
{
  for (int kind = 0; kind < 3; ++kind) {
    cs = "basis " + std::to_string(kind) + " " + std::to_string(rs);
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
      vx::begin_case(cs);
      std::unique_ptr<Basis> b;
      if (kind == 0) b.reset(new Gauss_legendre(rs)); else if (kind == 1) b.reset(new Gauss_lobatto(rs)); else b.reset(new Equidistant(rs));
      check_nodal(*b, kind, rs); vx::sample(cs);
      if (kind < 2 && (rs <= 6 || vx::thorough())) check_eigen(*b, rs);
    }
    ++idx;
  }
  cs = "derivative " + std::to_string(rs);
  if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {vx::begin_case(cs); check_derivative<rs>(); vx::outcome(cs);}
  ++idx;
  for (int nd = 1; nd <= 3; ++nd) {
    for (int d = 0; d < nd; ++d) {
      cs = "rows " + std::to_string(nd) + " " + std::to_string(rs) + " " + std::to_string(d);
      if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {vx::begin_case(cs); check_rows(nd, rs, d); check_rw<1, rs>(nd, d); check_rw<3, rs>(nd, d); vx::outcome(cs);}
      ++idx;
    }
    cs = "physical " + std::to_string(nd) + " " + std::to_string(rs);
    if (vx::replaying ? cs == vx::replay_case : (vx::mine(idx) && (nd < 3 || rs <= 5 || vx::thorough()))) {vx::begin_case(cs); check_physical(nd, rs); vx::outcome(cs);}
    ++idx;
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv); int idx = 0;
  all_rows<2>(idx); all_rows<3>(idx); all_rows<4>(idx); all_rows<5>(idx); all_rows<6>(idx); all_rows<7>(idx); all_rows<8>(idx);
  int R = vx::thorough() ? 6 : 4;
  for (int r = 1; r <= R; ++r) for (int c = 2; c <= R; ++c) for (int nd = 1; nd <= 3; ++nd) {
    cs = "tensor " + std::to_string(r) + " " + std::to_string(c) + " " + std::to_string(nd);
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {vx::begin_case(cs); check_tensor(r, c, nd); vx::outcome(cs); vx::sample(cs);}
    ++idx;
  }
  // n-linear interpolation and stretched indices
  cs = "interp";
  if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
    vx::begin_case(cs);
    for (int v = 0; v < 8; ++v) for (int i = 0; i < 125; ++i) {
      double x[3] = {i%5/4., i/5%5/4., i/25/4.}; ++vx::validated;
      auto hat = [](double t, int s) {return s ? t : 1 - t;};
      Mat<8> e3 = Mat<8>::Unit(v); Mat<3> c3(x[0], x[1], x[2]);
      if (std::abs(math::interp<3>(e3, c3) - hat(x[0], v/4)*hat(x[1], v/2%2)*hat(x[2], v%2)) > 1e-14) BAD("3D interp");
      if (v < 4) {Mat<4> e2 = Mat<4>::Unit(v); Mat<2> c2(x[0], x[1]); if (std::abs(math::interp<2>(e2, c2) - hat(x[0], v/2)*hat(x[1], v%2)) > 1e-14) BAD("2D interp");}
      if (v < 2) {Mat<2> e1 = Mat<2>::Unit(v); Mat<1> c1; c1(0) = x[0]; if (std::abs(math::interp<1>(e1, c1) - hat(x[0], v)) > 1e-14) BAD("1D interp");}
    }
    vx::outcome(cs);
  }
  vx::transitions = vx::validated;
  return vx::finish();
}
