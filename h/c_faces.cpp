// C10: face pairing. Every legal pair of faces (dimension, side, relative orientation) of two hexahedra that are glued by the
// unique proper rotation that fixes the axis not involved in the connection; conforming and hanging-node connections
// (every stretch subset, either order); rigid and warped geometry; every row size.
#include <vx.hpp>
#include <connection.hpp>
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <config.hpp>
#include <Accessible_mesh.hpp>
#include <memory>
#include <set>
using namespace hexed;

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o << msg; vx::fail(cs, _o.str());} while (0)
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;

// the proper rotation which carries the frame of side 1 to the frame of side 0
static M3 rotation(int nd, Con_dir<Deformed_element> dir)
{
  M3 r = M3::Identity();
  int i0 = dir.i_dim[0], i1 = dir.i_dim[1];
  double s0 = dir.face_sign[0] ? 1 : -1, s1 = dir.face_sign[1] ? 1 : -1;
  if (i0 == i1) return r;
  // outward normal s1*e_{i1} of face 1 is opposite to the outward normal s0*e_{i0} of face 0
  r.setZero();
  for (int d = 0; d < 3; ++d) if (d != i0 && d != i1) r(d, d) = 1;
  r(i0, i1) = -s0*s1;
  r(i1, i0) = 1;
  if (r.determinant() < 0) r(i1, i0) = -1;
  return r;
}
static V3 warp(V3 x, int nd, bool w)
{
  if (!w) return x;
  V3 y = x;
  for (int d = 0; d < nd; ++d) y(d) = 1.3*x(d) + .07*x((d + 1)%nd) + .05*x(d)*x((d + 2)%nd) + .04*(d + 1)*x((d + 1)%nd)*x((d + 1)%nd);
  return y;
}
static bool legal(int i0, int i1, int s0, int s1) {return i0 != i1 || s0 != s1;}
static V3 corner(int v, int nd) {V3 x = V3::Zero(); for (int d = 0; d < nd; ++d) x(d) = (v >> (nd - 1 - d)) & 1; return x;}
static bool coincide(const V3& a, const V3& b) {return (a - b).cwiseAbs().maxCoeff() < 1e-9;}

// data which identifies the physical point: coordinates and two more variables derived from them
static void fill(double* f, int nv, int nfq, const std::vector<std::vector<double>>& pos, int nd)
{
  for (int q = 0; q < nfq; ++q) for (int v = 0; v < nv; ++v) f[v*nfq + q] = v < nd ? pos[q][v] : 10.*v + pos[q][0] + 2*pos[q][nd - 1];
}
static std::vector<std::vector<double>> face_points(Element& e, const Basis& b, int i_face, int nfq)
{
  std::vector<std::vector<double>> p; for (int q = 0; q < nfq; ++q) p.push_back(e.face_position(b, i_face, q)); return p;
}

static void check_permutation(int nd, int rs, Con_dir<Deformed_element> dir)
{
  int nv = nd + 2, nfq = math::pow(rs, nd - 1);
  std::vector<double> data(nv*nfq + 8, -7.), orig; for (int i = 0; i < nv*nfq; ++i) data[i] = i + 1;
  orig = data;
  auto fp = face_permutation(nd, rs, dir, data.data());
  fp->match_faces(); auto matched = data;
  fp->restore();
  if (data != orig) BAD("restore is not the inverse of match");
  fp->restore(); fp->match_faces();
  if (data != orig) BAD("match is not the inverse of restore");
  for (size_t i = nv*nfq; i < matched.size(); ++i) if (matched[i] != -7.) BAD("matching wrote past the face data");
  for (int v = 0; v < nv; ++v) {std::set<double> s; for (int q = 0; q < nfq; ++q) {double x = matched[v*nfq + q]; if (x <= v*nfq || x > (v + 1)*nfq) BAD("matching mixes variables"); s.insert(x);} if (int(s.size()) != nfq) BAD("matching loses data");}
}

// conforming: side 0 occupies the unit cube, side 1 its neighbour
static void conforming(int nd, int rs, Con_dir<Deformed_element> dir, bool w)
{
  Gauss_legendre basis(rs);
  Storage_params params{2, nd + 2, nd, rs};
  int nvert = 1 << nd, nfq = params.n_face_qpoint();
  M3 rot = rotation(nd, dir); V3 c = V3::Zero(); for (int d = 0; d < nd; ++d) c(d) = .5;
  V3 shift = V3::Zero(); shift(dir.i_dim[0]) = dir.face_sign[0] ? 1 : -1;
  auto place = [&](V3 xi, int side) {return warp(side ? V3(rot*(xi - c) + c + shift) : xi, nd, w);};
  Deformed_element e0(params), e1(params); Deformed_element* el[2] {&e0, &e1};
  std::vector<V3> pos[2];
  for (int s : {0, 1}) for (int v = 0; v < nvert; ++v) {pos[s].push_back(place(corner(v, nd), s)); el[s]->vertex(v).pos = pos[s][v];}
  // vertex index lists
  auto inds = vertex_inds(nd, dir);
  auto finds = face_vertex_inds(nd, dir);
  if (int(inds[0].size()) != nvert/2 || int(inds[1].size()) != nvert/2 || int(finds.size()) != nvert/2) {BAD("number of face vertices"); return;}
  std::vector<int> order1; for (int v = 0; v < nvert; ++v) if (((v >> (nd - 1 - dir.i_dim[1])) & 1) == dir.face_sign[1]) order1.push_back(v);
  int prev = -1;
  for (int i = 0; i < nvert/2; ++i) {
    if (((inds[0][i] >> (nd - 1 - dir.i_dim[0])) & 1) != dir.face_sign[0]) BAD("vertex " << inds[0][i] << " is not on face 0");
    if (((inds[1][i] >> (nd - 1 - dir.i_dim[1])) & 1) != dir.face_sign[1]) BAD("vertex " << inds[1][i] << " is not on face 1");
    if (inds[0][i] <= prev) BAD("vertices of face 0 not in their natural order");
    prev = inds[0][i];
    if (!coincide(pos[0][inds[0][i]], pos[1][inds[1][i]])) BAD("vertices " << inds[0][i] << " and " << inds[1][i] << " are matched but do not coincide");
    if (finds[i] < 0 || finds[i] >= nvert/2 || order1[finds[i]] != inds[1][i]) BAD("face_vertex_inds inconsistent with vertex_inds");
  }
  {
    Element_face_connection<Deformed_element> con({el[0], el[1]}, dir);
    if (con.direction().i_face(0) != 2*dir.i_dim[0] + dir.face_sign[0] || con.get_direction().i_face(1) != 2*dir.i_dim[1] + dir.face_sign[1]) BAD("direction");
    for (int v = 0; v < nvert; ++v) for (int u = 0; u < nvert; ++u)
      if ((&e0.vertex(v) == &e1.vertex(u)) != coincide(pos[0][v], pos[1][u])) BAD("vertex " << v << " of side 0 and " << u << " of side 1: shared=" << (&e0.vertex(v) == &e1.vertex(u)));
    for (int s : {0, 1}) for (int v = 0; v < nvert; ++v) if (!coincide(el[s]->vertex(v).pos, pos[s][v])) BAD("connecting moved a vertex");
    for (int s : {0, 1}) {
      int f = dir.i_face(s);
      if (el[s]->face(f, false) != con.state(s, false) || el[s]->face(f, true) != con.state(s, true) || el[s]->face_normal(f) != con.normal(s)) BAD("face storage of side " << s);
      for (int g = 0; g < 2*nd; ++g) if (el[s]->is_connected(g) != (g == f)) BAD("connected faces of side " << s);
      for (int l : {0, 1}) {auto p = face_points(*el[s], basis, f, nfq); fill(con.state(s, l), nd + 2, nfq, p, nd);}
    }
    for (int l : {0, 1}) {
      auto fp = face_permutation(nd, rs, dir, con.state(1, l));
      std::vector<double> before(con.state(1, l), con.state(1, l) + (nd + 2)*nfq);
      fp->match_faces();
      for (int i = 0; i < (nd + 2)*nfq; ++i) if (std::abs(con.state(0, l)[i] - con.state(1, l)[i]) > 1e-9) {BAD("data " << i << " of the two faces not at coincident points"); break;}
      fp->restore();
      for (int i = 0; i < (nd + 2)*nfq; ++i) if (con.state(1, l)[i] != before[i]) {BAD("restore does not undo match"); break;}
    }
  }
  for (int s : {0, 1}) for (int g = 0; g < 2*nd; ++g) if (el[s]->is_connected(g) || el[s]->face_normal(g)) BAD("destroyed connection leaves a face connected");
  ++vx::validated;
}

struct Acc_mesh_faces : public Sequence<Refined_face&> {std::vector<Refined_face*> v; int size() override {return v.size();} Refined_face& operator[](int i) override {return *v[i];}};
template <typename T> struct Empty_seq : public Sequence<T&> {int size() override {return 0;} T& operator[](int i) override {throw std::runtime_error("empty");}};

// hanging node: `coarse` occupies the unit cube; the block of fine elements is glued to it as one cell and then divided
// along the face dimensions (in the frame of the fine elements) which are not stretched
static void hanging(int nd, int rs, Con_dir<Deformed_element> dir, bool rev, std::array<bool, 2> str, bool w, bool cart)
{
  Gauss_legendre basis(rs);
  Storage_params params{2, nd + 2, nd, rs};
  int nvert = 1 << nd, nfq = params.n_face_qpoint();
  int sc = rev, sf = !rev; // side of coarse / fine in the connection
  M3 rot = rotation(nd, dir); V3 c = V3::Zero(); for (int d = 0; d < nd; ++d) c(d) = .5;
  V3 shift = V3::Zero(); shift(dir.i_dim[0]) = dir.face_sign[0] ? 1 : -1;
  auto place = [&](V3 xi, int side) {return warp(side ? V3(rot*(xi - c) + c + shift) : xi, nd, w);};
  // face dimensions of the fine frame in increasing order
  std::vector<int> fd; for (int d = 0; d < nd; ++d) if (d != dir.i_dim[sf]) fd.push_back(d);
  int nfine = 1; for (int i = 0; i < nd - 1; ++i) if (!str[i]) nfine *= 2;
  Deformed_element coarse(params, {}, 1., 0);
  std::vector<V3> cpos, fpos[4], fcoord[4];
  for (int v = 0; v < nvert; ++v) {cpos.push_back(place(corner(v, nd), sc)); coarse.vertex(v).pos = cpos[v];}
  std::vector<std::unique_ptr<Deformed_element>> fine; std::vector<Deformed_element*> fptr;
  for (int i = 0; i < nfine; ++i) {
    fine.emplace_back(new Deformed_element(params, {}, 1., 1)); fptr.push_back(fine.back().get());
    V3 lo = V3::Zero(), sz = V3::Ones(); int rem = i;
    for (int j = nd - 2; j >= 0; --j) if (!str[j]) {sz(fd[j]) = .5; lo(fd[j]) = .5*(rem%2); rem /= 2;}
    for (int v = 0; v < nvert; ++v) {
      V3 xi = lo + corner(v, nd).cwiseProduct(sz); fcoord[i].push_back(xi); fpos[i].push_back(place(xi, sf)); fine[i]->vertex(v).pos = fpos[i][v];
    }
  }
  auto on_face = [&](int v) {return ((v >> (nd - 1 - dir.i_dim[sf])) & 1) == dir.face_sign[sf];};
  {
    Refined_connection<Deformed_element> con(&coarse, fptr, dir, rev, str);
    if (con.n_fine_elements() != nfine || con.order_reversed() != rev || con.stretch() != str || &con.coarse_element() != &coarse) BAD("accessors");
    // vertex sharing exactly where points coincide; fine elements are not merged with each other by this connection
    for (int i = 0; i < nfine; ++i) for (int v = 0; v < nvert; ++v) {
      for (int u = 0; u < nvert; ++u) if ((&coarse.vertex(u) == &fine[i]->vertex(v)) != coincide(cpos[u], fpos[i][v])) BAD("coarse vertex " << u << " and vertex " << v << " of fine element " << i << ": shared=" << (&coarse.vertex(u) == &fine[i]->vertex(v)));
      if (!coincide(fine[i]->vertex(v).pos, fpos[i][v])) BAD("connecting moved a vertex");
    }
    for (int u = 0; u < nvert; ++u) if (!coincide(coarse.vertex(u).pos, cpos[u])) BAD("connecting moved a coarse vertex");
    // interpolation to hanging vertices: any (multilinear) function given at the corners
    for (int k = 0; k < nvert/2; ++k) {
      auto f = [&](V3 xi) {double r = 1; for (int j = 0; j < nd - 1; ++j) r *= (k >> j) & 1 ? xi(fd[j]) : 1 - xi(fd[j]); return r;};
      for (int i = 0; i < nfine; ++i) for (int v = 0; v < nvert; ++v) {
        bool corner_pt = on_face(v); for (int j = 0; j < nd - 1; ++j) {double t = fcoord[i][v](fd[j]); corner_pt = corner_pt && (t == 0 || t == 1);}
        fine[i]->vertex_time_step_scale(v) = corner_pt ? f(fcoord[i][v]) : on_face(v) ? -99. : 5. + v + 10*i;
      }
      con.matcher.match(&Element::vertex_time_step_scale);
      for (int i = 0; i < nfine; ++i) for (int v = 0; v < nvert; ++v) {
        double want = on_face(v) ? f(fcoord[i][v]) : 5. + v + 10*i;
        if (nd > 1 && std::abs(fine[i]->vertex_time_step_scale(v) - want) > 1e-12) BAD("hanging vertex " << v << " of fine element " << i << " is " << fine[i]->vertex_time_step_scale(v) << " expected " << want);
      }
    }
    // make the (warped) hanging vertices lie on the coarse face
    con.matcher.match([&](Element& e, int v)->double& {return e.vertex(v).pos(0);});
    if (nd > 1) con.matcher.match([&](Element& e, int v)->double& {return e.vertex(v).pos(1);});
    if (nd > 2) con.matcher.match([&](Element& e, int v)->double& {return e.vertex(v).pos(2);});
    // storage
    int cf = 2*dir.i_dim[sc] + dir.face_sign[sc], ff = 2*dir.i_dim[sf] + dir.face_sign[sf];
    if (coarse.face(cf, false) != con.coarse_state() || con.refined_face.coarse != con.coarse_state()) BAD("coarse face storage");
    std::set<Element*> used; std::set<double*> mortars;
    for (int i = 0; i < nfine; ++i) {
      auto& fc = con.connection(i);
      if (&fc.element(sc) != &coarse) BAD("coarse side of fine connection");
      auto& fe = fc.element(sf); used.insert(&fe);
      if (fe.face(ff, false) != fc.state(sf, false) || fe.face(ff, true) != fc.state(sf, true) || fe.face_normal(ff) != fc.normal(sf)) BAD("fine face storage");
      mortars.insert(fc.state(sc, false));
    }
    std::set<double*> rf(con.refined_face.fine.begin(), con.refined_face.fine.begin() + nfine);
    if (int(used.size()) != nfine || rf != mortars || int(rf.size()) != nfine) {BAD("fine connections do not cover the fine elements and mortar faces once each"); return;}
    // transfer the positions of the coarse points to the mortar faces and compare with the fine points, both
    // for the state storage and for the LDG storage
    for (int l : {0, 1}) {
      int off = l*(nd + 2)*nfq;
      fill(con.coarse_state() + off, nd + 2, nfq, face_points(coarse, basis, cf, nfq), nd);
      Acc_mesh_faces rfs; rfs.v.push_back(&con.refined_face);
      Empty_seq<Kernel_connection> ec; Empty_seq<Kernel_element> ee;
      Kernel_mesh km{nd, rs, basis, ec, ec, ee, ee, ee, rfs};
      compute_prolong(km, false, l);
      for (int i = 0; i < nfine; ++i) {
        auto& fc = con.connection(i); auto& fe = fc.element(sf);
        fill(fc.state(sf, l), nd + 2, nfq, face_points(fe, basis, ff, nfq), nd);
        auto fp = face_permutation(nd, rs, dir, fc.state(1, l)); fp->match_faces();
        for (int d = 0; d < (nd + 2)*nfq; ++d) if (std::abs(fc.state(0, l)[d] - fc.state(1, l)[d]) > 1e-9) {BAD("fine connection " << i << ": data " << d << " not at coincident points"); break;}
        fp->restore();
      }
    }
  }
  for (int g = 0; g < 2*nd; ++g) {
    if (coarse.is_connected(g) || coarse.face_normal(g)) BAD("destroyed connection leaves the coarse face connected");
    for (auto& f : fine) if (f->is_connected(g) || f->face_normal(g)) BAD("destroyed connection leaves a fine face connected");
  }
  ++vx::validated;
}

// Cartesian hanging connections: same geometry, plain elements, no rotation
static void hanging_cartesian(int nd, int rs, int i_dim, bool coarse_low, bool via_def)
{
  Gauss_legendre basis(rs);
  int nvert = 1 << nd, nfine = nvert/2, nfq = math::pow(rs, nd - 1);
  Accessible_mesh mesh({2, nd + 2, nd, rs}, 1.);
  std::vector<int> cp(nd, 0); if (!coarse_low) cp[i_dim] = 1;
  int csn = mesh.add_element(1, via_def, cp);
  std::vector<int> fsn; std::vector<std::vector<int>> fps;
  for (int i = 0; i < nfine; ++i) {
    std::vector<int> p(nd); int rem = i;
    for (int d = nd - 1; d >= 0; --d) if (d == i_dim) p[d] = coarse_low ? 2 : 1; else {p[d] = rem%2; rem /= 2;}
    fsn.push_back(mesh.add_element(2, (i%2) != via_def, p)); fps.push_back(p);
  }
  std::vector<bool> fdef; for (int i = 0; i < 4; ++i) fdef.push_back((i%2) != via_def);
  bool all_def = via_def; for (int i = 0; i < nfine; ++i) all_def = all_def && fdef[i];
  if (all_def) return; // that is the deformed case
  mesh.connect_hanging(1, csn, fsn, {{i_dim, i_dim}, {coarse_low, !coarse_low}}, via_def, fdef);
  Element& coarse = mesh.element(1, via_def, csn);
  for (int i = 0; i < nfine; ++i) {
    Element& f = mesh.element(2, fdef[i], fsn[i]);
    for (int v = 0; v < nvert; ++v) for (int u = 0; u < nvert; ++u) {
      V3 a = (corner(v, nd) + V3(fps[i][0], nd > 1 ? fps[i][1] : 0, nd > 2 ? fps[i][2] : 0))*.25, b = (corner(u, nd) + V3(cp[0], nd > 1 ? cp[1] : 0, nd > 2 ? cp[2] : 0))*.5;
      if ((&f.vertex(v) == &coarse.vertex(u)) != coincide(a, b)) BAD("Cartesian hanging: vertex sharing");
    }
  }
  auto& cons = mesh.element_connections();
  if (cons.size() != nfine) {BAD("number of connections"); return;}
  int fc = 2*i_dim + coarse_low, ff = 2*i_dim + !coarse_low;
  auto pts = face_points(coarse, basis, fc, nfq);
  fill(coarse.face(fc, false), nd + 2, nfq, pts, nd);
  Empty_seq<Kernel_connection> ec; Empty_seq<Kernel_element> ee;
  Kernel_mesh km{nd, rs, basis, ec, ec, ee, ee, ee, mesh.refined_faces()};
  compute_prolong(km, false, false);
  auto& kc = mesh.cartesian().face_connections();
  if (kc.size() != nfine) {BAD("number of Cartesian face connections"); return;}
  std::set<Element*> seen;
  for (int i = 0; i < nfine; ++i) {
    auto& con = kc[i]; auto d = con.get_direction();
    if (d.i_dim[0] != i_dim || d.i_dim[1] != i_dim || !d.face_sign[0] || d.face_sign[1]) BAD("Cartesian direction");
    int side = coarse_low; // the fine element is on the upper side if the coarse one is low
    for (int j = 0; j < nfine; ++j) {
      Element& f = mesh.element(2, fdef[j], fsn[j]);
      if (f.face(ff, false) == con.state(side, false)) {
        seen.insert(&f);
        auto p = face_points(f, basis, ff, nfq); std::vector<double> buf((nd + 2)*nfq); fill(buf.data(), nd + 2, nfq, p, nd);
        for (int q = 0; q < (nd + 2)*nfq; ++q) if (std::abs(buf[q] - con.state(!side, false)[q]) > 1e-10) {BAD("Cartesian mortar data " << q << " of fine element " << j); break;}
      }
    }
  }
  if (int(seen.size()) != nfine) BAD("fine elements not connected once each");
  ++vx::validated;
}

int main(int argc, char** argv)
{
  vx::init(argc, argv); int idx = 0;
  int maxrs = config::max_row_size;
  auto go = [&](const std::string& c, std::function<void()> f) {
    cs = c;
    if (vx::replaying ? cs == vx::replay_case : vx::mine(idx)) {
      vx::begin_case(cs); vx::new_state(cs); vx::outcome(cs); vx::sample(cs);
      try {f();} catch (std::exception& e) {BAD("exception: " << e.what());}
      ++vx::transitions;
    }
    ++idx;
  };
  for (int nd = 1; nd <= 3; ++nd) for (int rs = 2; rs <= maxrs; ++rs)
    for (int i0 = 0; i0 < nd; ++i0) for (int i1 = 0; i1 < nd; ++i1) for (int s0 : {0, 1}) for (int s1 : {0, 1}) {
      Con_dir<Deformed_element> dir{{i0, i1}, {bool(s0), bool(s1)}};
      std::ostringstream o; o << nd << " " << rs << " " << i0 << i1 << " " << s0 << s1;
      go("permutation " + o.str(), [&]() {check_permutation(nd, rs, dir);});
      if (!legal(i0, i1, s0, s1)) continue;
      for (int w : {0, 1}) {
        go("conforming " + o.str() + " warp" + std::to_string(w), [&]() {conforming(nd, rs, dir, w);});
        for (int rev : {0, 1}) for (int st = 0; st < (1 << (nd - 1)); ++st)
          go("hanging " + o.str() + " warp" + std::to_string(w) + " rev" + std::to_string(rev) + " stretch" + std::to_string(st),
             [&]() {hanging(nd, rs, dir, rev, {bool(st & 1), bool(st & 2)}, w, false);});
      }
    }
  for (int nd = 1; nd <= 3; ++nd) for (int rs = 2; rs <= std::min(4, maxrs); ++rs) for (int d = 0; d < nd; ++d) for (int low : {0, 1}) for (int vd : {0, 1}) {
    std::ostringstream o; o << "cartesian " << nd << " " << rs << " " << d << " " << low << " " << vd;
    go(o.str(), [&]() {hanging_cartesian(nd, rs, d, low, vd);});
  }
  // which pairings are legal
  go("illegal pairings", [&]() {
    for (int nd = 1; nd <= 3; ++nd) for (int d = 0; d < nd; ++d) for (int s : {0, 1}) {
      Accessible_mesh mesh({2, nd + 2, nd, 2}, 1.);
      int a = mesh.add_element(0, true, std::vector<int>(nd, 0)), b = mesh.add_element(0, true, std::vector<int>(nd, 1));
      bool threw = false; try {mesh.connect_deformed(0, {a, b}, {{d, d}, {bool(s), bool(s)}});} catch (std::exception&) {threw = true;}
      if (!threw) BAD("connection of faces of the same sign along the same dimension accepted");
    }
  });
  return vx::finish();
}
