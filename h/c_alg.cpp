// C24: iterative solvers, sequences, containers.  Everything is enumerated up to a bound and executed on the real classes.
#include "vx.hpp"
#include <iterative.hpp>
#include <Linear_equation.hpp>
#include <Sequences.hpp>
#include <erase_if.hpp>
#include <Layer_sequence.hpp>
#include <Element_container.hpp>
#include <Row_index.hpp>
#include <deque>
using namespace hexed;
static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o.precision(12); _o << msg; vx::fail(cs, _o.str());} while (0)
static bool want() {return vx::replaying ? cs == vx::replay_case : true;}

// an equation with bounds-checked storage and a weighted inner product; counts operator applications
struct Eq : Linear_equation
{
  Mat<dyn, dyn> a, v; Mat<> w; int n_mv = 0; bool out_of_bounds = false;
  Eq(Mat<dyn, dyn> mat, Mat<> rhs, Mat<> guess, Mat<> weight, int nv) : a{mat}, v{Mat<dyn, dyn>::Constant(rhs.size(), nv, 7e77)}, w{weight} {v.col(0) = guess; v.col(1) = rhs;}
  int i(int k) {if (k < 0 || k >= v.cols()) {out_of_bounds = true; return 0;} return k;}
  int n_vecs() override {return v.cols();}
  void scale(int o, int in, double s) override {v.col(i(o)) = (s*v.col(i(in))).eval();}
  void add(int o, double c0, int v0, double c1, int v1) override {v.col(i(o)) = (c0*v.col(i(v0)) + c1*v.col(i(v1))).eval();}
  double inner(int x, int y) override {return v.col(i(x)).dot(w.asDiagonal()*v.col(i(y)));}
  void matvec(int o, int in) override {++n_mv; v.col(i(o)) = (a*v.col(i(in))).eval();}
};

static Mat<> vec_of(int n, long code, const std::vector<double>& vals) {Mat<> v(n); for (int i = 0; i < n; ++i) {v(i) = vals[code%vals.size()]; code /= vals.size();} return v;}
static long ipow(long b, int e) {long r = 1; while (e--) r *= b; return r;}

// one cycle of m steps of GMRES from x: the point of x + K_m(A, r) with the smallest weighted residual (dense reference)
static Mat<> gmres_ref(const Mat<dyn, dyn>& a, const Mat<>& b, Mat<> x, const Mat<>& w, int m)
{
  int n = b.size(); Mat<> r = b - a*x; Mat<dyn, dyn> k(n, 0); Mat<> z = r;
  Mat<> sw = w.cwiseSqrt();
  for (int i = 0; i < m; ++i) {
    // orthogonalise: spans the same space
    Mat<> q = z; for (int rep = 0; rep < 2; ++rep) for (int j = 0; j < k.cols(); ++j) q -= k.col(j)*k.col(j).dot(q);
    if (q.norm() < 1e-9*(1 + z.norm())) break;
    q /= q.norm(); k.conservativeResize(n, k.cols() + 1); k.col(k.cols() - 1) = q; z = a*q;
  }
  if (!k.cols()) return x;
  Mat<dyn, dyn> ak = sw.asDiagonal()*(a*k); Mat<> rhs = sw.asDiagonal()*r;
  Mat<> y = ak.colPivHouseholderQr().solve(rhs);
  return x + k*y;
}

static void check_linear(const Mat<dyn, dyn>& a, const Mat<>& b, const Mat<>& guess, const Mat<>& w, bool spd)
{
  int n = b.size();
  Mat<> x = a.fullPivLu().solve(b); double scale = 1 + x.norm() + guess.norm(), cond = a.norm()*a.inverse().norm();
  auto wnorm = [&](Mat<> r) {return std::sqrt(r.dot(w.asDiagonal()*r));};
  for (int restart = 1; restart <= n + 2; ++restart) for (int cycles = 1; cycles <= 2; ++cycles) {
    if (restart > n && cycles == 2 && restart != n + 2) continue;
    Eq eq(a, b, guess, w, restart + 4); ++vx::evals;
    try {iterative::gmres(eq, restart, cycles);} catch (std::exception& e) {BAD("gmres(" << restart << ", " << cycles << "): " << e.what()); return;}
    if (eq.out_of_bounds) {BAD("gmres(" << restart << ") uses vectors it does not check for"); return;}
    if (eq.v.col(1) != b) {BAD("gmres changed the right hand side"); return;}
    Mat<> got = eq.v.col(0);
    if (!got.allFinite()) {BAD("gmres(" << restart << ", " << cycles << ") gives " << got.transpose() << " where the solution is " << x.transpose()); return;}
    if (restart >= n) {
      if ((got - x).norm() > 1e-9*cond*scale) {BAD("gmres(" << restart << ", " << cycles << ") gives " << got.transpose() << " where the solution is " << x.transpose()); return;}
    } else {
      Mat<> ref = guess; for (int c = 0; c < cycles; ++c) ref = gmres_ref(a, b, ref, w, restart);
      double rg = wnorm(b - a*got), rr = wnorm(b - a*ref), r0 = wnorm(b - a*guess);
      if (std::abs(rg - rr) > 1e-8*(1 + r0)) {BAD("gmres(" << restart << ", " << cycles << ") reaches a residual of " << rg << " where the best is " << rr); return;}
    }
    if (eq.n_mv > cycles*(restart + 1)) {BAD("gmres uses " << eq.n_mv << " products for " << cycles << " cycles of " << restart); return;}
    ++vx::validated;
  }
  for (int iters = 1; iters <= (spd ? n + 6 : n + 2); ++iters) {
    Eq eq(a, b, guess, w, 8); ++vx::evals;
    iterative::bicgstab(eq, iters);
    if (eq.out_of_bounds) {BAD("bicgstab uses vectors it does not check for"); return;}
    if (eq.v.col(1) != b) {BAD("bicgstab changed the right hand side"); return;}
    Mat<> got = eq.v.col(0);
    if (!got.allFinite()) {BAD("bicgstab(" << iters << ") gives " << got.transpose() << " where the solution is " << x.transpose()); return;}
    if (spd && iters >= n && (got - x).norm() > 1e-7*cond*scale) {BAD("bicgstab(" << iters << ") gives " << got.transpose() << " where the solution is " << x.transpose()); return;}
    ++vx::validated;
  }
  // the dense equation of the library
  Dense_equation d(a, b, n + 4, guess); iterative::gmres(d, n, 1);
  if (!(Mat<>(d.vec(0)) - x).isMuchSmallerThan(1e-9*cond*scale, 1.)) BAD("gmres on Dense_equation gives " << d.vec(0).transpose() << " where the solution is " << x.transpose());
  Dense_equation z(a, b, n + 4); if (Mat<>(z.vec(0)).norm() != 0 || Mat<>(z.vec(1)) != b || z.n_vecs() != n + 4) BAD("Dense_equation starts with a wrong guess or right hand side");
}

static void linear()
{
  long idx = 0;
  std::vector<std::vector<double>> values {{-2, -1, 0, 1, 2, .5}, {-2, -1, 0, 1, 2}, {-1, 0, 1}, {0, 1}};
  std::vector<std::vector<double>> rhs_values {{-1, 0, 1, 3}, {-1, 0, 1}, {0, 1}, {0, 1}};
  if (vx::thorough()) {values[2].push_back(2); rhs_values[2].push_back(-1);}
  for (int n = 1; n <= 4; ++n) {
    long n_mat = ipow(values[n - 1].size(), n*n), n_rhs = ipow(rhs_values[n - 1].size(), n);
    for (long im = 0; im < n_mat; ++im) {
      if (n == 4 && !vx::thorough() && im%7) continue;
      if (!vx::replaying && !vx::mine(idx++)) continue;
      Mat<> flat = vec_of(n*n, im, values[n - 1]); Mat<dyn, dyn> a = Eigen::Map<Mat<dyn, dyn>>(flat.data(), n, n);
      if (std::abs(a.determinant()) < 1e-6) continue;
      bool sym = a == a.transpose(), spd = sym && Eigen::SelfAdjointEigenSolver<Mat<dyn, dyn>>(a).eigenvalues().minCoeff() > 1e-6;
      std::ostringstream key; key << "matrix " << values[n - 1].size() << " " << n << " " << im;
      vx::new_state(key.str()); if (im%4099 == 0) vx::sample(key.str());
      for (long ir = 0; ir < n_rhs; ++ir) for (int g = 0; g < 3; ++g) {
        cs = key.str() + " rhs " + std::to_string(ir) + " guess " + std::to_string(g);
        if (!want()) continue;
        Mat<> b = vec_of(n, ir, rhs_values[n - 1]);
        Mat<> guess = g == 0 ? Mat<>(Mat<>::Zero(n)) : g == 1 ? Mat<>(a.fullPivLu().solve(b)) : Mat<>(Mat<>::LinSpaced(n, 1., 2.));
        Mat<> w = Mat<>::Ones(n); if (!spd && g == 2) w = Mat<>::LinSpaced(n, .5, 2.);
        vx::begin_case(cs); ++vx::transitions;
        check_linear(a, b, guess, w, spd && w == Mat<>::Ones(n));
      }
    }
  }
  // symmetric positive definite ones with more varied entries
  for (int n = 2; n <= 3; ++n) {
    std::vector<double> diag {1, 2, 5}, off {-2, -1, 0, 1, .5};
    long n_mat = ipow(3, n)*ipow(5, n*(n - 1)/2);
    for (long im = 0; im < n_mat; ++im) {
      if (!vx::replaying && !vx::mine(idx++)) continue;
      long c = im; Mat<dyn, dyn> a(n, n);
      for (int i = 0; i < n; ++i) {a(i, i) = diag[c%3]; c /= 3;}
      for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {a(i, j) = a(j, i) = off[c%5]; c /= 5;}
      if (Eigen::SelfAdjointEigenSolver<Mat<dyn, dyn>>(a).eigenvalues().minCoeff() < 1e-3) continue;
      vx::new_state("spd " + std::to_string(n) + " " + std::to_string(im));
      for (long ir = 0; ir < ipow(3, n); ++ir) {
        cs = "spd " + std::to_string(n) + " " + std::to_string(im) + " rhs " + std::to_string(ir); if (!want()) continue;
        vx::begin_case(cs); ++vx::transitions;
        check_linear(a, vec_of(n, ir, {-1, 0, 2}), Mat<>::Zero(n), Mat<>::Ones(n), true);
      }
    }
  }
  // too little storage is an error, not an overflow
  for (int n_vec = 2; n_vec < 12; ++n_vec) for (int restart = 1; restart < 8; ++restart) {
    cs = "storage " + std::to_string(n_vec) + " " + std::to_string(restart); if (!want() || (!vx::replaying && !vx::mine(idx++))) continue;
    vx::begin_case(cs);
    Eq eq(Mat<dyn, dyn>::Identity(9, 9) + .1*Mat<dyn, dyn>::Constant(9, 9, 1.), Mat<>::LinSpaced(9, 1, 2), Mat<>::Zero(9), Mat<>::Ones(9), n_vec); bool threw = false;
    try {iterative::gmres(eq, restart, 1);} catch (std::exception& e) {threw = true;}
    if (eq.out_of_bounds) BAD("gmres(" << restart << ") overruns a storage of " << n_vec << " vectors");
    if (!threw && !eq.v.col(0).allFinite()) BAD("not finite");
    if (threw && n_vec >= restart + 4) BAD("gmres(" << restart << ") rejects a storage of " << n_vec << " vectors");
    Eq eb(eq.a, eq.v.col(1), Mat<>::Zero(9), Mat<>::Ones(9), n_vec); threw = false;
    try {iterative::bicgstab(eb, restart);} catch (std::exception& e) {threw = true;}
    if (eb.out_of_bounds || threw != (n_vec < 8)) BAD("bicgstab with a storage of " << n_vec << " vectors");
  }
}

static void erasing()
{
  int lim = vx::thorough() ? 14 : 11;
  for (int n = 0; n <= lim; ++n) for (int mask = 0; mask < (1 << n); ++mask) {
    cs = "erase " + std::to_string(n) + " " + std::to_string(mask); if (!want() || (!vx::replaying && !vx::mine(mask))) continue;
    vx::begin_case(cs); ++vx::evals; ++vx::transitions; vx::new_state(cs);
    std::vector<std::unique_ptr<int>> v; for (int i = 0; i < n; ++i) v.emplace_back(new int(i));
    std::vector<int*> kept; for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) kept.push_back(v[i].get());
    std::vector<int> asked; erase_if(v, [&](std::unique_ptr<int>& p) {asked.push_back(*p); return mask >> *p & 1;});
    if (v.size() != kept.size()) {BAD("erase_if leaves " << v.size() << " items instead of " << kept.size()); continue;}
    for (size_t i = 0; i < kept.size(); ++i) if (v[i].get() != kept[i]) {BAD("erase_if: item " << i << " is not the one it should be"); break;}
    if (int(asked.size()) != n) BAD("erase_if evaluates the predicate " << asked.size() << " times for " << n << " items");
    for (size_t i = 1; i < asked.size(); ++i) if (asked[i] <= asked[i - 1]) BAD("erase_if evaluates the predicate out of order");
    ++vx::validated;
  }
}

static double& half(double& d) {return d;}
// all histories of pushes and pops at the ends of three vectors seen through views, concatenations and index views
static void views()
{
  int depth = vx::thorough() ? 8 : 6, idx = 0;
  for (int len = 0; len <= depth; ++len) for (long code = 0; code < ipow(6, len); ++code) {
    if (!vx::replaying && !vx::mine(idx++)) continue;
    cs = "views " + std::to_string(len) + " " + std::to_string(code); if (!want()) continue;
    vx::begin_case(cs); vx::new_state(cs); ++vx::transitions;
    std::vector<double> a, b; std::vector<std::unique_ptr<double>> c; std::vector<double> ra, rb, rc; // and the model
    Vector_view<double&, double> va(a); Vector_view<double&, double, &half> vb(b); Vector_view<double&, std::unique_ptr<double>, &ptr_convert<double&, std::unique_ptr<double>>> vc(c);
    Concatenation<double&> ab(va, vb), abc(ab, vc), c_ab(vc, ab);
    long k = code; double next = 1; bool fine = true;
    for (int i = 0; i < len; ++i, k /= 6) {
      int op = k%6;
      if (op == 0) {a.push_back(next); ra.push_back(next++);} else if (op == 1) {b.push_back(next); rb.push_back(next++);} else if (op == 2) {c.emplace_back(new double(next)); rc.push_back(next++);}
      else if (op == 3) {if (a.size()) {a.pop_back(); ra.pop_back();}} else if (op == 4) {if (b.size()) {b.erase(b.begin()); rb.erase(rb.begin());}} else if (c.size()) {c.pop_back(); rc.pop_back();}
    }
    ++vx::evals;
    auto same = [&](Sequence<double&>& s, std::vector<double> r, const char* what) {
      if (s.size() != int(r.size())) {BAD(what << " has size " << s.size() << " instead of " << r.size()); fine = false; return;}
      for (int i = 0; i < int(r.size()); ++i) if (s[i] != r[i]) {BAD(what << ": item " << i << " is " << s[i] << " instead of " << r[i]); fine = false; return;}
    };
    auto cat = [](std::vector<double> x, const std::vector<double>& y) {x.insert(x.end(), y.begin(), y.end()); return x;};
    auto all = cat(cat(ra, rb), rc);
    same(va, ra, "view"); same(vb, rb, "view with conversion"); same(vc, rc, "view of pointers"); same(ab, cat(ra, rb), "concatenation"); same(abc, all, "nested concatenation"); same(c_ab, cat(rc, cat(ra, rb)), "nested concatenation");
    std::vector<int> every_other; std::vector<double> r; for (int i = int(all.size()) - 1; i >= 0; i -= 2) {every_other.push_back(i); r.push_back(all[i]);}
    Index<double&> in(abc, every_other); same(in, r, "index view");
    // writing through
    for (int i = 0; i < abc.size(); ++i) abc[i] = -i - 1;
    for (size_t i = 0; i < all.size(); ++i) {
      double x = i < a.size() ? a[i] : i < a.size() + b.size() ? b[i - a.size()] : *c[i - a.size() - b.size()];
      if (x != -double(i) - 1) {BAD("writing item " << i << " through a nested concatenation does not reach it"); break;}
    }
    if (fine) ++vx::validated;
  }
}

// all histories of creating elements and purging them by predicate
template <typename E> static void containers(const char* type)
{
  int depth = vx::thorough() ? 7 : 5, idx = 0;
  Storage_params par {1, 3, 1, 2};
  for (int len = 1; len <= depth; ++len) for (long code = 0; code < ipow(6, len); ++code) {
    if (!vx::replaying && !vx::mine(idx++)) continue;
    cs = std::string("container ") + type + " " + std::to_string(len) + " " + std::to_string(code); if (!want()) continue;
    vx::begin_case(cs); vx::new_state(cs);
    Complete_element_container<E> cont(par, 1.); struct M {int level, sn, pos; E* p;}; std::vector<M> model; std::set<std::pair<int, int>> dead; std::set<int> used; int made = 0;
    long k = code; bool fine = true;
    for (int i = 0; i < len && fine; ++i, k /= 6) {
      int op = k%6; ++vx::transitions;
      if (op < 2) {
        int sn = cont.emplace(op, {made, 0, 0}, Mat<>::Zero(1));
        if (!used.insert(sn).second) {BAD("serial number " << sn << " given twice"); fine = false; break;}
        E* p = &cont.at(op, sn); for (auto& m : model) if (m.p == p) BAD("two elements in one place");
        model.push_back({op, sn, made++, p});
      } else {
        // which ones to delete: none / all / even / the oldest (by the default predicate)
        auto del = [&](int j) {return op == 2 ? false : op == 3 ? true : op == 4 ? j%2 == 0 : j == 0;};
        std::vector<M> left; int n = 0;
        for (int j = 0; j < int(model.size()); ++j) {model[j].p->record = del(j) ? 2 - 3*(j%2) : 0; if (del(j)) {++n; dead.insert({model[j].level, model[j].sn});} else left.push_back(model[j]);}
        int got = op == 4 ? cont.purge([](Element& e) {return e.record != 0;}) : cont.purge();
        if (got != n) {BAD("purge reports " << got << " elements instead of " << n); fine = false;}
        model = left;
      }
      ++vx::evals;
      auto el = cont.elements(); auto& view = cont.element_view(); auto handles = cont.elem_handles();
      if (el.size() != int(model.size()) || view.size() != el.size() || int(handles.size()) != el.size()) {BAD(el.size() << " elements instead of " << model.size()); fine = false; break;}
      cont.write_sns();
      for (int j = 0; j < int(model.size()); ++j) {
        auto& m = model[j];
        if (&el[j] != m.p || &view[j] != m.p || &cont.at(m.level, m.sn) != m.p) {BAD("element " << j << " is not the one it should be"); fine = false; break;}
        if (handles[j] != std::array<int, 2>{m.level, m.sn}) {BAD("handle of element " << j); fine = false; break;}
        if (m.p->nominal_position()[0] != m.pos || m.p->refinement_level() != m.level || m.p->record != m.sn) {BAD("data of element " << j); fine = false; break;}
        bool threw = false; try {cont.at(1 - m.level, m.sn);} catch (std::exception&) {threw = true;}
        if (!threw) {BAD("an element is found at the wrong refinement level"); fine = false; break;}
      }
      for (auto& d : dead) {bool threw = false; try {cont.at(d.first, d.second);} catch (std::exception&) {threw = true;} if (!threw) {BAD("a deleted element is found"); fine = false; break;}}
    }
    if (fine) ++vx::validated;
  }
}

static void layers()
{
  std::vector<double> ws; for (int i = 1; i < 100; ++i) ws.push_back(.005*i); for (double w = .004; w > 1e-9; w *= .83) ws.push_back(w); for (int k = 2; k < 30; ++k) ws.push_back(std::ldexp(1., -k));
  for (double w : ws) for (int nw = 1; nw <= 12; ++nw) {
    if (w*nw >= 1) continue;
    std::ostringstream o; o.precision(17); o << "layers " << w << " " << nw; cs = o.str(); if (!want() || (!vx::replaying && !vx::mine(nw))) continue;
    vx::begin_case(cs); vx::new_state(cs); ++vx::evals; ++vx::transitions;
    Layer_sequence ls(w, nw); int n = ls.n_layers(); double total = 0;
    if (n < nw) {BAD("fewer layers than wall layers"); continue;}
    for (int i = 0; i < n; ++i) {
      double s = ls.spacing(i);
      if (!(s > 0)) {BAD("layer " << i << " has height " << s); break;}
      if (std::abs(ls.cumulative_height(i) - total) > 1e-12) {BAD("cumulative height of " << i); break;}
      if (i < nw && std::abs(s - w) > 1e-14) {BAD("wall layer " << i << " has height " << s); break;}
      if (i > nw && std::abs(s/ls.spacing(i - 1) - 2) > 1e-9) {BAD("layer " << i << " grows by " << s/ls.spacing(i - 1)); break;}
      total += s;
    }
    if (std::abs(total - 1) > 1e-10 || std::abs(ls.cumulative_height(n) - 1) > 1e-10) BAD("the layers have a total height of " << total);
    else ++vx::validated;
  }
}

static void rows()
{
  for (int nd = 1; nd <= 3; ++nd) for (int rs = 2; rs <= 8; ++rs) for (int id = 0; id < nd; ++id) {
    std::ostringstream o; o << "rows " << nd << rs << id; cs = o.str(); if (!want() || (!vx::replaying && !vx::mine(rs))) continue;
    vx::begin_case(cs); vx::new_state(cs); ++vx::evals;
    std::set<int> seen; int n_face = 0;
    for (Row_index r(nd, rs, id); r; ++r, ++n_face) {
      ++vx::transitions;
      if (r.i_face_qpoint() != n_face) BAD("row " << n_face << " calls itself " << r.i_face_qpoint());
      for (int i = 0; i < rs; ++i) {
        int q = r.i_qpoint(i);
        // coordinates of the point, the last one fastest; the face point drops the coordinate along the row
        int x [3], y = q, f = 0; for (int d = nd - 1; d >= 0; --d) {x[d] = y%rs; y /= rs;}
        for (int d = 0; d < nd; ++d) if (d != id) f = f*rs + x[d];
        if (!seen.insert(q).second || x[id] != i || f != n_face || r.i_node(q) != i) {BAD("point " << i << " of row " << n_face << " is " << q); return;}
      }
    }
    if (int(seen.size()) != math::pow(rs, nd) || n_face != math::pow(rs, nd - 1)) BAD(seen.size() << " points in " << n_face << " rows");
    ++vx::validated;
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  rows(); layers(); erasing(); views(); containers<Element>("Cartesian"); containers<Deformed_element>("deformed"); linear();
  return vx::finish();
}
