// Geometric oracle for block (tree) meshes without a surface, and connection bookkeeping shared by the mesh harnesses.
#ifndef MESHLIB_HPP_
#define MESHLIB_HPP_
#include <vx.hpp>
#include <Accessible_mesh.hpp>
#include <map>
#include <set>
#include <tuple>
#include <array>
#include <queue>
#include <algorithm>

namespace ml
{
using namespace hexed;
typedef std::array<int, 3> I3;
struct Cell {
  int l; I3 c;
  bool operator<(const Cell& o) const {return std::tie(l, c) < std::tie(o.l, o.c);}
  bool operator==(const Cell& o) const {return l == o.l && c == o.c;}
};
inline std::string str(const Cell& c, int nd) {std::string s = std::to_string(c.l); for (int d = 0; d < nd; ++d) s += (d ? "," : ":") + std::to_string(c.c[d]); return s;}
typedef std::set<Cell> Leaves;
inline Cell parent(const Cell& c) {return {c.l - 1, {c.c[0] >> 1, c.c[1] >> 1, c.c[2] >> 1}};}
inline std::vector<Cell> children(const Cell& c, int nd)
{
  std::vector<Cell> v;
  for (int i = 0; i < (1 << nd); ++i) {Cell k{c.l + 1, {0,0,0}}; for (int d = 0; d < nd; ++d) k.c[d] = 2*c.c[d] + ((i >> (nd - 1 - d)) & 1); v.push_back(k);}
  return v;
}
constexpr int R = 6;
struct Box {I3 lo, hi;};
inline Box box(const Cell& c, int nd) {Box b{{0,0,0},{0,0,0}}; for (int d = 0; d < nd; ++d) {b.lo[d] = c.c[d] << (R - c.l); b.hi[d] = (c.c[d] + 1) << (R - c.l);} return b;}
// number of dimensions in which the closed boxes merely touch / properly overlap; touch + overlap < nd => disjoint
inline void contact(const Box& a, const Box& b, int nd, int& touch, int& over, int* dims = nullptr)
{
  touch = over = 0;
  for (int d = 0; d < nd; ++d) {
    if (a.hi[d] == b.lo[d] || a.lo[d] == b.hi[d]) {if (dims) dims[touch] = d; ++touch;}
    else if (a.lo[d] < b.hi[d] && b.lo[d] < a.hi[d]) ++over;
  }
}
inline std::string key(const Leaves& s, int nd) {std::string k; for (auto& c : s) k += str(c, nd) + " "; return k;}

inline Cell cell_of(Element& e, int nd)
{
  Cell c{e.refinement_level(), {0,0,0}};
  auto np = e.nominal_position();
  for (int d = 0; d < nd; ++d) c.c[d] = np[d];
  return c;
}
inline Leaves leaves_of(Accessible_mesh& mesh, int nd)
{
  Leaves s; auto& el = mesh.elements();
  for (int i = 0; i < el.size(); ++i) if (el[i].tree) s.insert(cell_of(el[i], nd));
  return s;
}

// the documented semantics of one update on a mesh without a surface: refine what is asked for, merge complete sibling
// groups that all ask for it unless that would put a cell next to one two levels finer, then refine until balanced
struct Model_result {Leaves leaves; bool surely_changed, surely_unchanged;};
inline bool too_fine_next_to(const Leaves& s, const Cell& c, int nd, int max_touch, const std::set<Cell>* ignore_inside = nullptr)
{
  Box b = box(c, nd);
  for (auto& o : s) if (o.l > c.l + 1) {
    int t, ov; contact(b, box(o, nd), nd, t, ov);
    if (t >= 1 && t <= max_touch && t + ov == nd) return true;
  }
  return false;
}
inline Model_result model_update(const Leaves& s0, const std::set<Cell>& ref, const std::set<Cell>& unref, const std::set<Cell>& locked, int nd)
{
  Leaves s; bool merged = false;
  for (auto& c : s0) {
    if (ref.count(c) && !unref.count(c)) for (auto& k : children(c, nd)) s.insert(k);
    else s.insert(c);
  }
  bool again = true;
  while (again) {
    again = false;
    for (auto& c : s0) if (c.l && s.count(c) && unref.count(c) && !ref.count(c)) {
      Cell p = parent(c); bool ok = true;
      for (auto& k : children(p, nd)) ok = ok && s.count(k) && s0.count(k) && unref.count(k) && !ref.count(k) && !locked.count(k);
      // a lock on any sibling protects the group
      if (ok && !too_fine_next_to(s, p, nd, 1)) {
        for (auto& k : children(p, nd)) s.erase(k);
        s.insert(p); again = merged = true;
      }
    }
  }
  again = true;
  while (again) {
    again = false;
    std::vector<Cell> todo;
    for (auto& c : s) if (too_fine_next_to(s, c, nd, std::min(2, nd))) todo.push_back(c);
    for (auto& c : todo) {s.erase(c); for (auto& k : children(c, nd)) s.insert(k); again = true;}
  }
  return {s, s != s0, s == s0 && !merged};
}

#define ML_FAIL(msg) {std::ostringstream _o; _o << msg; why = _o.str(); return false;}

// complete structural check of a mesh without a surface geometry against the leaf set
inline bool check_block_mesh(Accessible_mesh& mesh, const Leaves& want, int nd, double root_sz, const double* origin, std::string& why)
{
  auto& el = mesh.elements();
  const int nv = 1 << nd;
  std::map<Cell, Element*> by_cell; std::map<Element*, Cell> cell;
  for (int i = 0; i < el.size(); ++i) {
    Element& e = el[i];
    Cell c = cell_of(e, nd);
    if (by_cell.count(c)) ML_FAIL("two elements for cell " << str(c, nd));
    by_cell[c] = &e; cell[&e] = c;
    if (!e.tree) ML_FAIL("element without tree cell");
    Tree* t = e.tree;
    if (!t->is_leaf()) ML_FAIL("element " << str(c, nd) << " belongs to a refined tree cell");
    if (t->elem.get() != &e) ML_FAIL("tree cell does not refer back to its element");
    if (t->refinement_level() != c.l) ML_FAIL("refinement level mismatch");
    for (int d = 0; d < nd; ++d) if (t->coordinates()(d) != c.c[d]) ML_FAIL("nominal position mismatch");
    double sz = root_sz/(1 << c.l);
    if (std::abs(e.nominal_size() - sz) > 1e-12) ML_FAIL("nominal size of " << str(c, nd));
    for (int v = 0; v < nv; ++v) for (int d = 0; d < 3; ++d) {
      double x = d < nd ? origin[d] + sz*(c.c[d] + ((v >> (nd - 1 - d)) & 1)) : 0.;
      if (std::abs(e.vertex(v).pos(d) - x) > 1e-10) ML_FAIL("vertex " << v << " of " << str(c, nd) << " at " << e.vertex(v).pos.transpose());
    }
  }
  Leaves got; for (auto& p : by_cell) got.insert(p.first);
  if (got != want) ML_FAIL("elements are {" << key(got, nd) << "} expected {" << key(want, nd) << "}");
  if (mesh.n_elements() != int(want.size())) ML_FAIL("n_elements");
  int64_t vol = 0; for (auto& c : got) {int64_t v = 1; for (int d = 0; d < nd; ++d) v *= 1 << (R - c.l); vol += v;}
  int64_t tot = 1; for (int d = 0; d < nd; ++d) tot *= 1 << R;
  if (vol != tot) ML_FAIL("cells do not tile the root");
  auto val = mesh.valid();
  if (!val) ML_FAIL("mesh reports " << val.n_redundant << " redundant and " << val.n_missing << " missing connections");
  // handles
  auto handles = mesh.elem_handles(); std::set<Element*> hs;
  for (auto h : handles) hs.insert(&mesh.element(h.ref_level, h.is_deformed, h.serial_n));
  if (int(handles.size()) != el.size() || int(hs.size()) != el.size()) ML_FAIL("element handles do not identify the elements uniquely");
  for (auto h : handles) if (mesh.element(h.ref_level, h.is_deformed, h.serial_n).refinement_level() != h.ref_level) ML_FAIL("handle refinement level");
  // connections
  std::multiset<std::tuple<Cell, Cell, int>> expect_con, got_con; // (lower, upper, dimension)
  int n_coarse_faces = 0;
  for (auto& a : got) {
    Box ba = box(a, nd);
    for (auto& b : got) if (!(a == b)) {
      int t, o, dims[3]; Box bb = box(b, nd); contact(ba, bb, nd, t, o, dims);
      if (t == 1 && o == nd - 1 && ba.hi[dims[0]] == bb.lo[dims[0]]) {
        expect_con.insert({a, b, dims[0]});
        if (std::abs(a.l - b.l) > 1) ML_FAIL("face neighbours " << str(a, nd) << " and " << str(b, nd) << " differ by more than one level");
      }
    }
    for (int f = 0; f < 2*nd; ++f) {
      bool finer = false;
      for (auto& b : got) if (b.l == a.l + 1) {int t, o, dims[3]; Box bb = box(b, nd); contact(ba, bb, nd, t, o, dims); if (t == 1 && o == nd - 1 && dims[0] == f/2 && (f%2 ? ba.hi[f/2] == bb.lo[f/2] : ba.lo[f/2] == bb.hi[f/2])) finer = true;}
      n_coarse_faces += finer;
    }
  }
  auto& ec = mesh.element_connections();
  std::set<Element_connection*> distinct;
  for (int i = 0; i < ec.size(); ++i) {
    auto& con = ec[i]; distinct.insert(&con);
    auto dir = con.get_direction();
    if (!cell.count(&con.element(0)) || !cell.count(&con.element(1))) ML_FAIL("connection refers to an element that is not in the mesh");
    Cell c[2] {cell[&con.element(0)], cell[&con.element(1)]};
    if (dir.i_dim[0] != dir.i_dim[1] || dir.face_sign[0] == dir.face_sign[1]) ML_FAIL("block connection with a twisted direction");
    int lower = dir.face_sign[0] ? 0 : 1;
    got_con.insert({c[lower], c[!lower], dir.i_dim[0]});
    // corner vertices which coincide are the same object
    int d0 = dir.i_dim[0];
    Element& lo = con.element(lower); Element& hi = con.element(!lower);
    for (int v = 0; v < nv; ++v) if ((v >> (nd - 1 - d0)) & 1) for (int w = 0; w < nv; ++w) if (!((w >> (nd - 1 - d0)) & 1)) {
      bool same_pos = true;
      for (int d = 0; d < nd; ++d) {
        int x = (c[lower].c[d] + ((v >> (nd - 1 - d)) & 1)) << (R - c[lower].l), y = (c[!lower].c[d] + ((w >> (nd - 1 - d)) & 1)) << (R - c[!lower].l);
        same_pos = same_pos && x == y;
      }
      if (same_pos != (&lo.vertex(v) == &hi.vertex(w))) ML_FAIL("vertex sharing between " << str(c[lower], nd) << " and " << str(c[!lower], nd));
    }
  }
  if (int(distinct.size()) != ec.size()) ML_FAIL("a connection is listed twice");
  if (got_con != expect_con) ML_FAIL("element connections (" << got_con.size() << ") are not the " << expect_con.size() << " face adjacencies");
  if (mesh.refined_faces().size() != n_coarse_faces) ML_FAIL(mesh.refined_faces().size() << " refined faces, expected " << n_coarse_faces);
  if (mesh.hanging_vertex_matchers().size() != n_coarse_faces) ML_FAIL("hanging vertex matchers");
  // storage of face data: all faces connected, no two faces share storage
  std::set<double*> faces;
  for (int i = 0; i < el.size(); ++i) for (int f = 0; f < 2*nd; ++f) {
    if (!el[i].is_connected(f)) ML_FAIL("unconnected face");
    if (!faces.insert(el[i].face(f, false)).second) ML_FAIL("two faces share the same storage");
  }
  auto face_con_ok = [&](auto& cons) {
    for (int i = 0; i < cons.size(); ++i) for (int s = 0; s < 2; ++s) faces.insert(cons[i].state(s, false));
    return true;
  };
  face_con_ok(mesh.cartesian().face_connections());
  // boundary connections
  auto& bc = mesh.boundary_connections();
  std::multiset<std::tuple<Cell, int, int>> exp_b, got_b;
  for (auto& c : got) for (int f = 0; f < 2*nd; ++f) if (f%2 ? c.c[f/2] == (1 << c.l) - 1 : c.c[f/2] == 0) exp_b.insert({c, f, f});
  for (int i = 0; i < bc.size(); ++i) {
    if (!cell.count(&bc[i].element())) ML_FAIL("boundary connection of a foreign element");
    int f = 2*bc[i].i_dim() + bc[i].inside_face_sign();
    got_b.insert({cell[&bc[i].element()], f, bc[i].bound_cond_serial_n()});
    if (bc[i].inside_face(false) != bc[i].element().face(f, false)) ML_FAIL("boundary connection storage");
  }
  if (exp_b != got_b) ML_FAIL("boundary connections: " << got_b.size() << " expected " << exp_b.size() << " (or wrong face / boundary condition)");
  // each vertex listed exactly once
  std::set<Vertex*> used, listed;
  for (int i = 0; i < el.size(); ++i) for (int v = 0; v < nv; ++v) used.insert(&el[i].vertex(v));
  auto vs = mesh.vertices();
  for (int i = 0; i < vs.size(); ++i) if (!listed.insert(&vs[i]).second) ML_FAIL("vertex listed twice");
  if (used != listed) ML_FAIL("vertex list has " << listed.size() << " vertices, elements use " << used.size());
  return true;
}
}
#endif
