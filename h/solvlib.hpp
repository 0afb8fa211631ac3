// Enumerated families of meshes for the flow solver harnesses (C08, C09, C12, C14, C21): every mesh is built through the
// public interface of the solver's mesh.
#ifndef SOLVLIB_HPP_
#define SOLVLIB_HPP_
#include <vx.hpp>
#include <Solver.hpp>
#include <Accessible_mesh.hpp>
#include <Surface_geom.hpp>
#include <Simplex_geom.hpp>
#include <Boundary_condition.hpp>
#include <set>
#include <memory>
#include <functional>

namespace sl
{
using namespace hexed;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
typedef std::function<Flow_bc*(int)> Make_bc; // argument: 0 = extremal/other boundary, 1 = body surface

struct Mesh_case
{
  std::string name; int nd;
  std::vector<int> row_sizes;
  std::function<bool(int)> exact_metric; // whether the discrete metric identity holds for a row size
  std::function<void(Solver&, Make_bc)> build; // up to and including calc_jacobian
  bool tree; // consists of tree cells without a body
  std::function<Surface_geom*()> geom; // of body-fitted meshes
};
inline Accessible_mesh& am(Solver& s) {return dynamic_cast<Accessible_mesh&>(s.mesh());}
inline std::vector<Flow_bc*> bcs(Make_bc mk, int nd) {std::vector<Flow_bc*> v; for (int i = 0; i < 2*nd; ++i) v.push_back(mk(0)); return v;}
inline V3 pos_of(Element& e, int nd) {V3 p = V3::Zero(); auto np = e.nominal_position(); for (int d = 0; d < nd; ++d) p(d) = np[d]*e.nominal_size(); return p;}

// index of a tree cell among the 2^nd at level 1 / 4^nd at level 2 which contains it
inline int cell_ind(Element& e, int nd, int level)
{
  int r = 0; auto np = e.nominal_position();
  for (int d = 0; d < nd; ++d) r = r*(1 << level) + (np[d] >> (e.refinement_level() - level));
  return r;
}
inline V3 corner(int v, int nd) {V3 x = V3::Zero(); for (int d = 0; d < nd; ++d) x(d) = (v >> (nd - 1 - d)) & 1; return x;}
// the proper rotation which carries the frame of side 1 to the frame of side 0
inline M3 rotation(Con_dir<Deformed_element> dir)
{
  M3 r = M3::Identity();
  int i0 = dir.i_dim[0], i1 = dir.i_dim[1];
  double s0 = dir.face_sign[0] ? 1 : -1, s1 = dir.face_sign[1] ? 1 : -1;
  if (i0 == i1) return r;
  r.setZero();
  for (int d = 0; d < 3; ++d) if (d != i0 && d != i1) r(d, d) = 1;
  r(i0, i1) = -s0*s1;
  r(i1, i0) = 1;
  if (r.determinant() < 0) r(i1, i0) = -1;
  return r;
}
inline V3 warp(V3 x, int nd, bool w)
{
  if (!w) return x;
  V3 y = x;
  for (int d = 0; d < nd; ++d) y(d) = 1.3*x(d) + .07*x((d + 1)%nd) + .05*x(d)*x((d + 2)%nd) + .04*(d + 1)*x((d + 1)%nd)*x((d + 1)%nd);
  return y;
}
inline void place(Element& e, int nd, std::function<V3(V3)> f)
{
  for (int v = 0; v < (1 << nd); ++v) e.vertex(v).pos = f(corner(v, nd));
}
// vertices of hanging faces lie on the coarse faces; with two levels of hanging nodes it takes more than one pass
inline void settle(Accessible_mesh& m, int nd)
{
  auto& hm = m.hanging_vertex_matchers();
  for (int k = 0; k < 3; ++k) for (int i = 0; i < hm.size(); ++i) for (int d = 0; d < nd; ++d) hm[i].match([d](Element& e, int v)->double& {return e.vertex(v).pos(d);});
}
inline std::vector<int> rss(std::initializer_list<int> l) {return std::vector<int>(l);}

inline void tree_cases(std::vector<Mesh_case>& out, bool thorough)
{
  for (int nd = 1; nd <= 3; ++nd) {
    int n1 = 1 << nd, n2 = 1 << (2*nd);
    auto add = [&](unsigned mask1, int two, bool again, std::vector<int> rs) {
      std::ostringstream o; o << "tree " << nd << " refine " << mask1 << " then " << two << (again ? " and back" : "");
      out.push_back({o.str(), nd, rs, [](int) {return true;}, [=](Solver& s, Make_bc mk) {
        auto& m = am(s);
        m.add_tree(bcs(mk, nd), Mat<>::Constant(nd, .3));
        m.update();
        m.update([=](Element& e) {return bool((mask1 >> cell_ind(e, nd, 1)) & 1);});
        if (two >= 0) m.update([=](Element& e) {return e.refinement_level() >= 2 && cell_ind(e, nd, 2) == two;});
        if (again) m.update(criteria::never, [=](Element& e) {return cell_ind(e, nd, 1) != 0;});
        s.calc_jacobian();
      }, true, nullptr});
    };
    for (unsigned mask = 0; mask < (1u << n1); ++mask) {
      bool small = nd < 3 || thorough;
      std::vector<int> rs = small ? rss({2, 3, 4}) : (mask%5 == 0 ? rss({2, 3}) : rss({2}));
      if (nd == 3 && mask == 1) rs = rss({2, 3, 4});
      add(mask, -1, false, rs);
      if (nd < 3) for (int two = 0; two < n2; ++two) {
        int c1 = 0; for (int d = 0; d < nd; ++d) c1 = c1*2 + ((two >> (2*(nd - 1 - d) + 1)) & 1);
        if (!((mask >> c1) & 1)) continue;
        add(mask, two, false, nd == 1 || thorough ? rss({2, 3, 4}) : rss({2 + int(mask + two)%3}));
        if (nd == 1 || (two + mask)%4 == 0) add(mask, two, true, rss({3}));
      }
      else if (thorough || mask == 1 || mask == 128 || mask == 24) for (int two = 0; two < n2; two += 9) {
        int c1 = 0; for (int d = 0; d < nd; ++d) c1 = c1*2 + ((two >> (2*(nd - 1 - d) + 1)) & 1);
        if ((mask >> c1) & 1) add(mask, two, two%2, rss({2}));
      }
    }
  }
}

// two deformed elements, or one coarse and the block of fine ones, glued by every legal pair of faces
inline void orientation_cases(std::vector<Mesh_case>& out, bool thorough)
{
  for (int nd = 1; nd <= 3; ++nd) for (int i0 = 0; i0 < nd; ++i0) for (int i1 = 0; i1 < nd; ++i1) for (int s0 : {0, 1}) for (int s1 : {0, 1}) {
    if (i0 == i1 && s0 == s1) continue;
    Con_dir<Deformed_element> dir{{i0, i1}, {bool(s0), bool(s1)}};
    for (int w : {0, 1}) {
      auto placer = [=](int side) {
        M3 rot = rotation(dir); V3 c = V3::Zero(); for (int d = 0; d < nd; ++d) c(d) = .5;
        V3 shift = V3::Zero(); shift(dir.i_dim[0]) = dir.face_sign[0] ? 1 : -1;
        return [=](V3 xi) {return V3(.5*warp(side ? V3(rot*(xi - c) + c + shift) : xi, nd, w));};
      };
      std::ostringstream o; o << nd << " dims " << i0 << i1 << " signs " << s0 << s1 << " warp" << w;
      auto exact = [=](int rs) {return nd < 3 || !w || rs >= 3;};
      std::vector<int> rs = thorough || nd < 3 ? rss({2, 3, 4}) : rss({2, 3});
      out.push_back({"pair " + o.str(), nd, rs, exact, [=](Solver& s, Make_bc mk) {
        auto& m = am(s); Con_dir<Deformed_element> dr = dir;
        int bc = m.add_boundary_condition(mk(0), new Null_mbc);
        int a = m.add_element(1, true, std::vector<int>(nd, 0)), b = m.add_element(1, true, std::vector<int>(nd, 1));
        place(m.element(1, true, a), nd, placer(0)); place(m.element(1, true, b), nd, placer(1));
        m.connect_deformed(1, {a, b}, dr);
        m.connect_rest(bc); m.cleanup(); s.calc_jacobian();
      }, false, nullptr});
      for (int st = 0; st < (1 << (nd - 1)); ++st) {
        std::array<bool, 2> str{bool(st & 1), bool(st & 2)};
        out.push_back({"hang " + o.str() + " stretch" + std::to_string(st), nd, rs, exact, [=](Solver& s, Make_bc mk) {
          auto& m = am(s); Con_dir<Deformed_element> dr = dir;
          int bc = m.add_boundary_condition(mk(0), new Null_mbc);
          int a = m.add_element(1, true, std::vector<int>(nd, 0));
          place(m.element(1, true, a), nd, placer(0));
          std::vector<int> fd; for (int d = 0; d < nd; ++d) if (d != dir.i_dim[1]) fd.push_back(d);
          int nfine = 1; for (int i = 0; i < nd - 1; ++i) if (!str[i]) nfine *= 2;
          std::vector<int> fine;
          for (int i = 0; i < nfine; ++i) {
            V3 lo = V3::Zero(), sz = V3::Ones(); int rem = i;
            for (int j = nd - 2; j >= 0; --j) if (!str[j]) {sz(fd[j]) = .5; lo(fd[j]) = .5*(rem%2); rem /= 2;}
            fine.push_back(m.add_element(2, true, {i, 0, 0}));
            auto pl = placer(1);
            place(m.element(2, true, fine.back()), nd, [=](V3 xi) {return pl(lo + xi.cwiseProduct(sz));});
          }
          m.connect_hanging(1, a, fine, dr, true, std::vector<bool>(nfine, true), str);
          // the fine elements among themselves
          std::vector<int> free; for (int j = 0; j < nd - 1; ++j) if (!str[j]) free.push_back(fd[j]);
          for (int j = 0; j < int(free.size()); ++j) for (int i = 0; i < nfine; ++i) {
            int stride = 1 << (free.size() - 1 - j);
            if ((i/stride)%2 == 0) m.connect_deformed(2, {fine[i], fine[i + stride]}, {{free[j], free[j]}, {true, false}});
          }
          settle(m, nd);
          m.connect_rest(bc); m.cleanup(); s.calc_jacobian();
        }, false, nullptr});
      }
    }
  }
  // a Cartesian element on either side of a deformed one
  for (int nd = 1; nd <= 3; ++nd) for (int d = 0; d < nd; ++d) for (int side : {0, 1}) {
    std::ostringstream o; o << "mixed " << nd << " dim " << d << " side " << side;
    out.push_back({o.str(), nd, rss({2, 3}), [=](int rs) {return nd < 3 || rs >= 3;}, [=](Solver& s, Make_bc mk) {
      auto& m = am(s);
      int bc = m.add_boundary_condition(mk(0), new Null_mbc);
      std::vector<int> q(nd, 0); q[d] = 1;
      int a = m.add_element(1, side == 1, std::vector<int>(nd, 0)), b = m.add_element(1, side == 0, q);
      m.connect_cartesian(1, {a, b}, {d}, {side == 1, side == 0});
      // move the vertices of the deformed element that it does not share
      Element& e = m.element(1, true, side ? a : b);
      for (int v = 0; v < (1 << nd); ++v) if (((v >> (nd - 1 - d)) & 1) != side) for (int k = 0; k < nd; ++k) e.vertex(v).pos(k) += .05*(((v*7 + k*3)%5) - 2);
      m.connect_rest(bc); m.cleanup(); s.calc_jacobian();
    }, false, nullptr});
  }
}

// faces extruded from blocks of elements, including blocks with hanging nodes
inline void extruded_cases(std::vector<Mesh_case>& out, bool thorough)
{
  for (int nd = 2; nd <= 3; ++nd) {
    out.push_back({"extrude single " + std::to_string(nd), nd, rss({2, 3, 4}), [=](int rs) {return nd < 3 || rs >= 3;}, [=](Solver& s, Make_bc mk) {
      auto& m = am(s);
      int bc = m.add_boundary_condition(mk(0), new Null_mbc);
      m.add_element(1, true, std::vector<int>(nd, 0));
      m.extrude(); m.cleanup();
      for (int i = 0; i < 2; ++i) m.relax(.5);
      m.connect_rest(bc); s.calc_jacobian();
    }, false, nullptr});
    // two layers, the second one split from the first
    out.push_back({"extrude split " + std::to_string(nd), nd, rss({2, 3}), [=](int rs) {return nd < 3 || rs >= 3;}, [=](Solver& s, Make_bc mk) {
      auto& m = am(s);
      int bc = m.add_boundary_condition(mk(0), new Null_mbc);
      m.add_element(1, true, std::vector<int>(nd, 0));
      m.extrude(); m.cleanup();
      for (int i = 0; i < 2; ++i) m.relax(.5);
      m.extrude(true, .6); m.cleanup();
      m.connect_rest(bc); s.calc_jacobian();
    }, false, nullptr});
  }
  for (int id = 0; id < 3; ++id) for (int jd = 0; jd < 3; ++jd) if (id != jd) for (int sign : {0, 1}) {
    std::ostringstream o; o << "extrude hanging " << id << jd << " sign " << sign;
    out.push_back({o.str(), 3, rss({2, 3}), [=](int rs) {return rs >= 3;}, [=](Solver& s, Make_bc mk) {
      auto& m = am(s); int kd = 3 - id - jd;
      int bc = m.add_boundary_condition(mk(0), new Null_mbc);
      std::vector<int> cp(3, 0); cp[id] = sign ? 0 : -1; // coarse above or below
      int coarse = m.add_element(0, true, cp);
      int d0 = std::min(jd, kd), d1 = std::max(jd, kd), fpos = sign ? -1 : 0;
      std::vector<int> fine(4);
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        std::vector<int> p(3, 0); p[id] = fpos; p[d0] = i; p[d1] = j;
        fine[2*i + j] = m.add_element(1, true, p);
        if (i) m.connect_deformed(1, {fine[j], fine[2 + j]}, {{d0, d0}, {1, 0}});
        if (j) m.connect_deformed(1, {fine[2*i], fine[2*i + 1]}, {{d1, d1}, {1, 0}});
      }
      int extra[2];
      for (int i = 0; i < 2; ++i) {
        std::vector<int> p(3, 0); p[id] = fpos; p[jd] = 2; p[kd] = i;
        extra[i] = m.add_element(1, true, p);
        m.connect_deformed(1, {fine[1 + (jd < kd) + i*(1 + (jd > kd))], extra[i]}, {{jd, jd}, {1, 0}});
      }
      m.connect_deformed(1, {extra[0], extra[1]}, {{kd, kd}, {1, 0}});
      m.connect_hanging(0, coarse, fine, {{id, id}, {!sign, bool(sign)}}, true, {true, true, true, true});
      m.extrude(); m.connect_rest(bc); m.cleanup();
      for (int i = 0; i < 2; ++i) m.relax(.5);
      settle(m, 3);
      s.calc_jacobian();
    }, false, nullptr});
  }
}

// body-fitted meshes: a disc or a sphere (or a polygon) at many places in the root cell, refined around
inline void body_cases(std::vector<Mesh_case>& out, bool thorough)
{
  auto add = [&](std::string name, int nd, std::vector<int> rs, std::function<bool(int)> exact, int level, bool near, int relaxes, bool snap, bool split, int after, std::function<Surface_geom*()> geom, Mat<> start) {
    out.push_back({name, nd, rs, exact, [=](Solver& s, Make_bc mk) {
      auto& m = am(s);
      m.add_tree(bcs(mk, nd), Mat<>::Zero(nd));
      for (int i = 0; i < level; ++i) m.update();
      if (near) m.update([=](Element& e) {return cell_ind(e, nd, 1) == 0;});
      m.set_surface(geom(), mk(1), start);
      for (int i = 0; i < relaxes; ++i) m.relax(.5);
      for (int k = 0; k < after; ++k) {
        // adapt with the body in place
        m.update([=](Element& e) {return cell_ind(e, nd, 1) == (k + 1)%(1 << nd) && !e.unrefinement_locked;});
        for (int i = 0; i < relaxes; ++i) m.relax(.5);
      }
      if (split) {
        m.disconnect_boundary(m.surface_bc_sn());
        m.extrude(true, .6, true);
        m.connect_rest(m.surface_bc_sn());
        m.cleanup();
      }
      s.calc_jacobian(snap);
    }, false, geom});
  };
  for (int ix = 0; ix < 3; ++ix) for (int iy = 0; iy < 3; ++iy) for (int r = 0; r < 2; ++r) for (int nr : {0, 1}) {
    Mat<> c = Mat<2>{.42 + .06*ix, .39 + .07*iy}; double rad = r ? .24 : .15;
    std::ostringstream o; o << "disc " << ix << iy << " r" << rad << " near" << nr;
    auto g = [=]() {return new Hypersphere(c, rad);};
    int v = (ix + 2*iy + r + nr)%3;
    add(o.str(), 2, thorough ? rss({2, 3, 4}) : rss({2 + v}), [](int) {return true;}, 3, nr, 2, true, v == 1, v == 2, g, Mat<>::Zero(2));
  }
  for (int k = 0; k < (thorough ? 8 : 3); ++k) {
    Mat<> c = Mat<3>{.44 + .03*k, .5 - .02*k, .47 + .05*(k%3)};
    for (int snap : {0, 1}) {
      std::ostringstream o; o << "ball " << k << " snap" << snap;
      add(o.str(), 3, thorough ? rss({2, 3}) : rss({3 - (k == 1)}), [=](int rs) {return !snap && rs >= 3;}, 2, false, 1, snap, k == 2, 0, [=]() {return new Hypersphere(c, .27);}, Mat<>::Zero(3));
    }
  }
}

inline std::vector<Mesh_case> all_cases(bool thorough)
{
  std::vector<Mesh_case> v;
  orientation_cases(v, thorough);
  extruded_cases(v, thorough);
  tree_cases(v, thorough);
  body_cases(v, thorough);
  return v;
}

// a function of position which is discontinuous at (nearly) every point
inline double hash01(const double* p, int n, int salt)
{
  uint64_t h = 1469598103934665603ull + salt*7919;
  for (int i = 0; i < n; ++i) {long long q = llround(p[i]*1048576); h = vx::fnv(&q, sizeof(q), h);}
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return (h & 0xffffff)/double(0x1000000);
}
struct Fn : public Spacetime_func
{
  int nv; std::function<std::vector<double>(std::vector<double>)> f;
  Fn(int n, std::function<std::vector<double>(std::vector<double>)> g) : nv{n}, f{g} {}
  int n_var(int) const override {return nv;}
  std::vector<double> operator()(std::vector<double> pos, double) const override {return f(pos);}
};
struct Quiet : public Printer {void print(std::string) override {} };
}
#endif
