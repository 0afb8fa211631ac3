// C18: surface geometry queries against a brute-force oracle in extended precision: all small sets of lattice simplices
// (including degenerate ones) and structured large ones, at several scales, under all lattice query points, lines and limits.
#include <vx.hpp>
#include <Simplex_geom.hpp>
#include <Surface_geom.hpp>
using namespace hexed;
typedef long double LD;
template <int n> using V = Eigen::Matrix<LD, n, 1>;
static std::string cs;
#define BAD(x) do {std::ostringstream o__; o__.precision(17); o__ << x; vx::fail(cs, o__.str());} while (0)

template <int n> static V<n> seg_near(V<n> a, V<n> b, V<n> p)
{
  V<n> d = b - a; LD dd = d.squaredNorm(); LD t = dd > 0 ? d.dot(p - a)/dd : 0;
  return a + std::min<LD>(1, std::max<LD>(0, t))*d;
}
static LD dist(const Mat<2, 2>& s, const Mat<2>& p)
{
  V<2> a = s.col(0).cast<LD>(), b = s.col(1).cast<LD>(), q = p.cast<LD>();
  return (seg_near<2>(a, b, q) - q).norm();
}
static LD dist(const Mat<3, 3>& s, const Mat<3>& p)
{
  V<3> v[3], q = p.cast<LD>(); for (int i = 0; i < 3; ++i) v[i] = s.col(i).cast<LD>();
  LD best = 1e300L; for (int i = 0; i < 3; ++i) best = std::min(best, (seg_near<3>(v[i], v[(i + 1)%3], q) - q).norm());
  V<3> n = (v[1] - v[0]).cross(v[2] - v[0]); LD nn = n.squaredNorm();
  if (nn > 0) {
    V<3> f = q - n*(n.dot(q - v[0])/nn);
    bool in = true; for (int i = 0; i < 3; ++i) in = in && (v[(i + 1)%3] - v[i]).cross(f - v[i]).dot(n) >= 0;
    if (in) best = std::min(best, (f - q).norm());
  }
  return best;
}
// parameter of the intersection; 1 certainly in, 0 optional, -1 certainly not
static int sect(const Mat<2, 2>& s, const Mat<2>& p0, const Mat<2>& p1, LD& t)
{
  V<2> a = s.col(0).cast<LD>(), e = s.col(1).cast<LD>() - a, o = p0.cast<LD>(), d = p1.cast<LD>() - o;
  LD det = d(0)*e(1) - d(1)*e(0); LD sine = std::abs(det)/(d.norm()*e.norm());
  if (!(e.norm() > 0) || !(d.norm() > 0) || sine < 1e-12L) return -1; // parallel: no single parameter
  V<2> w = a - o; t = (w(0)*e(1) - w(1)*e(0))/det; LD u = (w(0)*d(1) - w(1)*d(0))/det;
  if ((u < -3e-6L || u > 1 + 3e-6L) && !(dist(s, Mat<2>((o + t*d).cast<double>())) < 1e-13L*(a.norm() + d.norm()))) return -1;
  return u >= 0 && u <= 1 && sine > 1e-4L ? 1 : 0;
}
static int sect(const Mat<3, 3>& s, const Mat<3>& p0, const Mat<3>& p1, LD& t)
{
  V<3> a = s.col(0).cast<LD>(), e = s.col(1).cast<LD>() - a, f = s.col(2).cast<LD>() - a, o = p0.cast<LD>(), d = p1.cast<LD>() - o;
  V<3> n = e.cross(f); LD nd = n.dot(d), sine = std::abs(nd)/(n.norm()*d.norm());
  if (!(n.norm() > 1e-9L*e.norm()*f.norm()) || !(d.norm() > 0) || sine < 1e-12L) return -1;
  t = n.dot(a - o)/nd; V<3> w = o + t*d - a; LD nn = n.squaredNorm();
  LD u = w.cross(f).dot(n)/nn, v = e.cross(w).dot(n)/nn;
  if ((u < -3e-6L || v < -3e-6L || u + v > 1 + 3e-6L) && !(dist(s, Mat<3>((o + t*d).cast<double>())) < 1e-13L*(a.norm() + d.norm()))) return -1;
  return u >= 0 && v >= 0 && u + v <= 1 && sine > 1e-4L ? 1 : 0;
}

struct Limits {double max, guess;};
template <int n> static void near(Surface_geom& g, const std::vector<Mat<n, n>>& sims, Mat<n> p, std::vector<Limits> lims, double scale)
{
  LD best = 1e300L; for (auto& s : sims) best = std::min(best, dist(s, p));
  for (auto& l : lims) {
    auto r = g.nearest_point(p, l.max, l.guess);
    ++vx::transitions;
    bool surely = sims.size() && best < l.max*(1 - 1e-9L) - 1e-13L*scale, surely_not = sims.empty() || best > l.max*(1 + 1e-9L) + 1e-13L*scale;
    std::ostringstream o; o << "nearest to (" << p.transpose() << ") within " << l.max << " guess " << l.guess << ": ";
    if (r.empty()) {if (surely) BAD(o.str() << "nothing found, but the surface is at distance " << double(best)); continue;}
    if (surely_not) {BAD(o.str() << "found a point although the surface is at distance " << double(best)); continue;}
    double d = (r.point() - p).norm(); LD tol = 1e-7L*scale*(scale > 0) + 1e-9L*best; // distances near zero lose half the digits nowhere, but be lenient
    if (std::abs(d - best) > 1e-10L*(scale + best)) BAD(o.str() << "distance " << d << " instead of " << double(best));
    LD off = 1e300L; for (auto& s : sims) off = std::min(off, dist(s, Mat<n>(r.point())));
    if (off > 1e-10L*(scale + best)) BAD(o.str() << "result is not on the surface (off by " << double(off) << ")");
    if (std::abs(std::sqrt(r.dist_squared()) - d) > 1e-9*(1 + d)) BAD(o.str() << "dist_squared disagrees with the point");
    (void) tol;
  }
}
template <int n> static void line(Surface_geom& g, const std::vector<Mat<n, n>>& sims, Mat<n> p0, Mat<n> p1, double scale)
{
  auto got = g.intersections(p0, p1); ++vx::transitions;
  std::vector<LD> must, may; double len = (p1 - p0).norm();
  for (auto& s : sims) {LD t; int k = sect(s, p0, p1, t); if (k == 1) must.push_back(t); else if (k == 0) may.push_back(t);}
  std::vector<char> used(got.size(), 0);
  LD tol = 1e-8L*(1 + scale/len);
  auto take = [&](LD t) {for (size_t i = 0; i < got.size(); ++i) if (!used[i] && std::abs(got[i] - t) <= tol + 1e-7L*std::abs(t)) {used[i] = 1; return true;} return false;};
  std::ostringstream o; o.precision(17); o << "line (" << p0.transpose() << ") (" << p1.transpose() << "): ";
  for (LD t : must) if (!take(t)) {BAD(o.str() << "intersection at " << double(t) << " is missing (" << got.size() << " reported, " << must.size() << " to " << must.size() + may.size() << " expected)"); return;}
  for (LD t : may) {LD x = t; for (size_t i = 0; i < got.size(); ++i) if (!used[i] && std::abs(got[i] - x) <= 100*tol + 1e-3L*std::abs(x)) {used[i] = 1; break;}}
  for (size_t i = 0; i < got.size(); ++i) if (!used[i]) {BAD(o.str() << "reported intersection at " << got[i] << " does not exist"); return;}
}

template <int n> static std::vector<Mat<n>> lattice(double lo, double hi, int m)
{
  std::vector<Mat<n>> r; int tot = 1; for (int d = 0; d < n; ++d) tot *= m;
  for (int i = 0; i < tot; ++i) {Mat<n> p; for (int d = 0, k = i; d < n; ++d, k /= m) p(d) = lo + (hi - lo)*(k%m)/(m - 1); r.push_back(p);}
  return r;
}
// small integer directions without common factor, one of each opposite pair
template <int n> static std::vector<Mat<n>> directions(int m)
{
  std::vector<Mat<n>> r; int w = 2*m + 1, tot = 1; for (int d = 0; d < n; ++d) tot *= w;
  for (int i = tot/2 + 1; i < tot; ++i) {
    int g = 0; Mat<n> p; for (int d = 0, k = i; d < n; ++d, k /= w) {int x = k%w - m; p(d) = x; g = std::__gcd(g, std::abs(x));}
    if (g == 1) r.push_back(p);
  }
  return r;
}
template <int n> struct Surf {std::string name; std::vector<Mat<n, n>> s; bool large;};
template <int n> static void one(const Surf<n>& sf, double scale, int off, bool compound)
{
  std::vector<Mat<n, n>> sims = sf.s; Mat<n> o; for (int d = 0; d < n; ++d) o(d) = off ? (d + 1)*1.7 : 0.;
  for (auto& s : sims) s = ((s.colwise() + o)*scale).eval();
  std::unique_ptr<Surface_geom> g;
  if (compound) {
    // split into two components, one of which may be empty
    std::vector<Mat<n, n>> a, b; for (size_t i = 0; i < sims.size(); ++i) (i%3 ? a : b).push_back(sims[i]);
    std::vector<Surface_geom*> c; if (a.size()) c.push_back(new Simplex_geom<n>(a)); if (b.size()) c.push_back(new Simplex_geom<n>(b));
    g.reset(new Compound_geom(c));
  } else g.reset(new Simplex_geom<n>(sims));
  auto tr = [&](Mat<n> p) {return Mat<n>((p + o)*scale);};
  double mag = scale*(1 + o.norm());
  std::vector<Limits> lims {{huge, huge}, {huge, .3*scale}, {.7*scale, huge}, {1.6*scale, .05*scale}, {.4*scale, 3*scale}};
  bool th = vx::thorough();
  for (auto& p : lattice<n>(-1, 3, sf.large ? (n == 2 ? 17 : 6) : n == 2 ? 9 : 5)) near<n>(*g, sims, tr(p), lims, mag);
  auto dirs = directions<n>(sf.large && th ? 2 : n == 2 ? 2 : 1);
  for (auto& p : lattice<n>(n == 2 ? -.5 : -.25, n == 2 ? 2.5 : 1.25, sf.large ? (n == 2 ? 25 : 7) : n == 2 ? 7 : 4)) for (auto& d : dirs) line<n>(*g, sims, tr(p), tr(p + d), mag);
  // the line may be given by points that are close together or far apart
  for (double len : {1e-4, 1e4, 1e9}) for (auto& p : lattice<n>(-.5, 1.9, 3)) line<n>(*g, sims, tr(p), tr(p + len*dirs[(sf.s.size() + size_t(p(0)*10 + 20))%dirs.size()]), mag*std::max(1., len));
  ++vx::validated;
}

static std::vector<Surf<2>> surfaces2(bool th)
{
  std::vector<Surf<2>> r; std::vector<Mat<2, 2>> seg; auto pts = lattice<2>(0, 2, 3);
  for (size_t i = 0; i < pts.size(); ++i) for (size_t j = i; j < pts.size(); ++j) {Mat<2, 2> m; m << pts[i], pts[j]; seg.push_back(m);}
  for (size_t i = 0; i < seg.size(); ++i) r.push_back({"segment " + std::to_string(i), {seg[i]}, false});
  for (size_t i = 0; i < seg.size(); ++i) for (size_t j = i + 1; j < seg.size(); ++j) if (th || (i*7 + j)%3 == 0) r.push_back({"segments " + std::to_string(i) + " " + std::to_string(j), {seg[i], seg[j]}, false});
  for (int n : {3, 7, 150, 700}) {
    std::vector<Mat<2, 2>> s; Mat<dyn, dyn> p(2, n + 1);
    for (int i = 0; i <= n; ++i) {double a = 2*M_PI*(i%n)/n; p(0, i) = 1 + .9*std::cos(a); p(1, i) = 1 + .5*std::sin(a);}
    auto sg = segments(p); if (int(sg.size()) != n) vx::fail("segments", "segments() of " + std::to_string(n + 1) + " points gives " + std::to_string(sg.size()));
    for (int i = 0; i < n; ++i) {Mat<2, 2> m; m << p.col(i), p.col(i + 1); if (i < int(sg.size()) && sg[i] != m) vx::fail("segments", "segments() gives the wrong points"); s.push_back(m);}
    r.push_back({"ellipse " + std::to_string(n), s, true});
  }
  for (int n : {20, 320}) for (int dim : {0, 1}) { // a flat wall of many pieces: lines through the joints must not slip through
    std::vector<Mat<2, 2>> s; for (int i = 0; i < n; ++i) {Mat<2, 2> m; for (int e : {0, 1}) {m(dim, e) = 2.*(i + e)/n; m(1 - dim, e) = .7;} s.push_back(m);}
    r.push_back({"wall " + std::to_string(n) + " " + std::to_string(dim), s, true});
  }
  {std::vector<Mat<2, 2>> s(130, seg[5]); Mat<2, 2> m; m << .3, .301, .4, .4; for (int i = 0; i < 130; ++i) s.push_back(m); r.push_back({"copies", s, true});}
  r.push_back({"nothing", {}, false});
  return r;
}
static std::vector<Surf<3>> surfaces3(bool th)
{
  std::vector<Surf<3>> r; std::vector<Mat<3, 3>> tri; auto pts = lattice<3>(0, 1, 2);
  for (size_t i = 0; i < 8; ++i) for (size_t j = i; j < 8; ++j) for (size_t k = j; k < 8; ++k) {Mat<3, 3> m; m << pts[i], pts[j], pts[k]; tri.push_back(m);}
  for (size_t i = 0; i < tri.size(); ++i) r.push_back({"triangle " + std::to_string(i), {tri[i]}, false});
  for (size_t i = 0; i < tri.size(); ++i) for (size_t j = i + 1; j < tri.size(); ++j) if (th ? (i + j)%2 == 0 : (i*7 + j*3)%20 == 0) r.push_back({"triangles " + std::to_string(i) + " " + std::to_string(j), {tri[i], tri[j]}, false});
  for (int n : {4, 14}) {
    std::vector<Mat<3, 3>> s;
    auto at = [&](int i, int j) {double a = M_PI*i/n, b = 2*M_PI*j/n; return Mat<3>{.5 + .5*std::sin(a)*std::cos(b), .5 + .4*std::sin(a)*std::sin(b), .5 + .6*std::cos(a)};};
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      Mat<3, 3> m; m << at(i, j), at(i + 1, j), at(i, j + 1); s.push_back(m); m << at(i + 1, j), at(i + 1, j + 1), at(i, j + 1); s.push_back(m);
    }
    r.push_back({"ellipsoid " + std::to_string(n), s, true});
  }
  for (int dim = 0; dim < 3; ++dim) {
    std::vector<Mat<3, 3>> s; int n = 12;
    auto at = [&](int i, int j) {Mat<3> p; p(dim) = .4; p((dim + 1)%3) = double(i)/n; p((dim + 2)%3) = double(j)/n; return p;};
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      Mat<3, 3> m; m << at(i, j), at(i + 1, j), at(i, j + 1); s.push_back(m); m << at(i + 1, j), at(i + 1, j + 1), at(i, j + 1); s.push_back(m);
    }
    r.push_back({"wall " + std::to_string(dim), s, true});
  }
  return r;
}

template <int n> static void sphere(Mat<n> c, double r)
{
  Hypersphere h(c, r);
  for (auto& p : lattice<n>(-2, 2, 9)) {
    double d = (p - c).norm(), want = std::abs(d - r);
    for (double mx : {huge, .5, 1.3}) for (double gs : {huge, .1}) {
      auto q = h.nearest_point(p, mx, gs); ++vx::transitions;
      std::ostringstream o; o << "sphere of radius " << r << " about (" << c.transpose() << "): nearest to (" << p.transpose() << ") within " << mx << ": ";
      if (q.empty()) {if (want < mx*(1 - 1e-9)) BAD(o.str() << "nothing found at distance " << want); continue;}
      if (want > mx*(1 + 1e-9)) {BAD(o.str() << "found a point beyond the limit"); continue;}
      if (std::abs((q.point() - p).norm() - want) > 1e-12*(1 + d + r)) BAD(o.str() << "distance " << (q.point() - p).norm() << " instead of " << want);
      if (std::abs((q.point() - c).norm() - r) > 1e-12*(1 + r)) BAD(o.str() << "result is not on the sphere");
    }
  }
  for (auto& p : lattice<n>(-2, 2, 7)) for (auto& dir : directions<n>(n < 3 ? 2 : 1)) for (double len : {1e-3, 1., 1e5}) {
    auto got = h.intersections(p, p + len*dir); ++vx::transitions;
    V<n> o = (p - c).template cast<LD>(), dd = (p + len*dir).template cast<LD>() - p.template cast<LD>(); LD a = dd.squaredNorm(), b = o.dot(dd), cc = o.squaredNorm() - LD(r)*r, disc = b*b - a*cc;
    std::ostringstream os; os << "sphere of radius " << r << " about (" << c.transpose() << "), line (" << p.transpose() << ") + t*" << len << "*(" << dir.transpose() << "): ";
    LD rel = disc/(a*(LD(r)*r + o.squaredNorm()));
    if (rel < -1e-9L) {if (got.size()) BAD(os.str() << "line misses the sphere but " << got.size() << " intersections reported");}
    else if (rel > 1e-9L) {
      if (got.size() != 2) {BAD(os.str() << got.size() << " intersections instead of 2"); continue;}
      std::sort(got.begin(), got.end()); LD s = std::sqrt(disc);
      for (int k : {0, 1}) {LD t = (-b + (k ? s : -s))/a; if (std::abs(got[k] - t) > 1e-9L*(std::abs(t) + 4/len)) BAD(os.str() << "intersection at " << got[k] << " instead of " << double(t));}
    } else for (double t : got) if (!(std::abs((p + t*len*dir - c).norm() - r) < 1e-3)) BAD(os.str() << "reported point is not on the sphere");
  }
  ++vx::validated;
}

template <int n> static void run(const std::vector<Surf<n>>& v, int64_t& idx)
{
  for (auto& s : v) for (double scale : {1., 1e-3, 1e3}) for (int off : {0, 1}) for (bool comp : {false, true}) {
    if (comp && (s.s.size() < 2 || (!s.large && !vx::thorough() && scale != 1.))) continue;
    if (!s.large && !vx::thorough() && s.s.size() > 1 && off != int(scale < 1)) continue;
    std::ostringstream o; o << n << "D " << s.name << " scale " << scale << " offset " << off << (comp ? " compound" : "");
    cs = o.str();
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {vx::begin_case(cs); vx::state(cs); vx::outcome(cs); vx::sample(cs); one<n>(s, scale, off, comp);}
    ++idx;
  }
}
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  int64_t idx = 0;
  run<2>(surfaces2(vx::thorough()), idx);
  run<3>(surfaces3(vx::thorough()), idx);
  for (double r : {.25, 1., 1.7}) for (int k = 0; k < 3; ++k) {
    cs = "sphere " + std::to_string(r) + " " + std::to_string(k);
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
      vx::begin_case(cs); vx::state(cs); vx::outcome(cs);
      double c = k == 0 ? 0. : k == 1 ? .5 : -.37;
      sphere<1>(Mat<1>::Constant(c), r); sphere<2>(Mat<2>{c, 0.}, r); sphere<3>(Mat<3>{0., c, -c}, r);
    }
    ++idx;
  }
  return vx::finish();
}
