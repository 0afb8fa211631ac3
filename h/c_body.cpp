// C07: body-fitted meshing.  Every placement of bodies on a lattice, every short history of adaptation, relaxation and layer splitting
// runs on the real mesher; after every operation the mesh is compared with the geometry of the cells and of the body.
#include "solvlib.hpp"
#include "meshlib.hpp"
#include <Simplex_geom.hpp>
#include <Gauss_legendre.hpp>
#include <iostream>
using namespace hexed;
using namespace sl;
using ml::Cell; using ml::Box; using ml::box; using ml::contact; using ml::R;

typedef std::unique_ptr<Tree> Accessible_mesh::*Tree_member;
template <Tree_member M> struct Door {friend Tree* tree_of(Accessible_mesh& m) {return (m.*M).get();}};
template struct Door<&Accessible_mesh::tree>;
Tree* tree_of(Accessible_mesh&);

static std::string cs;
#define BAD(msg) do {std::ostringstream _o; _o.precision(9); _o << msg; vx::fail(cs, _o.str()); return false;} while (0)

// ---- bodies, with a distance function of our own ----
struct Body
{
  std::string name; int nd; std::vector<double> c, r; // centers and radii of spheres ...
  std::vector<double> poly; // ... or corners of a polygon
  std::vector<double> start; bool inside; bool deep = true; // (whether to explore longer histories)
  double dist(const Mat<>& x) const
  {
    double d = 1e300;
    for (size_t i = 0; i < r.size(); ++i) {double s = 0; for (int k = 0; k < nd; ++k) s += (x(k) - c[i*nd + k])*(x(k) - c[i*nd + k]); d = std::min(d, std::abs(std::sqrt(s) - r[i]));}
    for (size_t i = 0; 2*i < poly.size(); ++i) {
      size_t j = (2*i + 2)%poly.size(); double ax = poly[2*i], ay = poly[2*i + 1], bx = poly[j] - ax, by = poly[j + 1] - ay, t = ((x(0) - ax)*bx + (x(1) - ay)*by)/(bx*bx + by*by);
      t = std::min(1., std::max(0., t)); d = std::min(d, std::hypot(x(0) - ax - t*bx, x(1) - ay - t*by));
    }
    return d;
  }
  bool flow(const Mat<>& x) const // whether a point is on the side of the surface where the flow is
  {
    bool in = false;
    for (size_t i = 0; i < r.size(); ++i) {double s = 0; for (int k = 0; k < nd; ++k) s += (x(k) - c[i*nd + k])*(x(k) - c[i*nd + k]); in = in || s < r[i]*r[i];}
    int cross = 0; for (size_t i = 0; 2*i < poly.size(); ++i) {
      size_t j = (2*i + 2)%poly.size(); double ax = poly[2*i], ay = poly[2*i + 1], bx = poly[j], by = poly[j + 1];
      if ((ay > x(1)) != (by > x(1))) cross += ax + (x(1) - ay)/(by - ay)*(bx - ax) > x(0);
    }
    return (in || cross%2) == inside;
  }
  Surface_geom* make() const
  {
    std::vector<Surface_geom*> g;
    for (size_t i = 0; i < r.size(); ++i) {Mat<> x(nd); for (int k = 0; k < nd; ++k) x(k) = c[i*nd + k]; g.push_back(new Hypersphere(x, r[i]));}
    if (poly.size()) {Mat<dyn, dyn> p(2, poly.size()/2 + 1); for (int i = 0; i <= int(poly.size()/2); ++i) for (int k = 0; k < 2; ++k) p(k, i) = poly[(2*i + k)%poly.size()]; g.push_back(new Simplex_geom<2>(segments(p)));}
    return g.size() == 1 ? g[0] : new Compound_geom(g);
  }
};

struct Case_setup {Body body; double size; std::vector<double> origin; int row_size;};

// everything that must hold for the mesh at any time
static bool check(Accessible_mesh& m, const Case_setup& su, bool fresh, bool first)
{
  const Body& body = su.body; int nd = body.nd, nv = 1 << nd; auto& el = m.elements(); double S = su.size; const double tol = 1e-10*S;
  auto val = m.valid(); if (!val) BAD("mesh reports " << val.n_redundant << " redundant and " << val.n_missing << " missing connections");
  Mat<> org(nd); for (int d = 0; d < nd; ++d) org(d) = su.origin[d];
  // ---- which cells ----
  std::map<Cell, Element*> by_cell; std::map<Element*, Cell> cell; std::set<Element*> ext;
  for (int i = 0; i < el.size(); ++i) {
    Element& e = el[i]; if (!e.tree) {ext.insert(&e); if (!e.get_is_deformed()) BAD("Cartesian element without tree cell"); continue;}
    Cell c = ml::cell_of(e, nd); if (!by_cell.insert({c, &e}).second) BAD("two elements for cell " << ml::str(c, nd)); cell[&e] = c;
    Tree* t = e.tree; if (!t->is_leaf() || t->elem.get() != &e || t->refinement_level() != c.l) BAD("tree cell of element " << ml::str(c, nd));
    for (int d = 0; d < nd; ++d) if (t->coordinates()(d) != c.c[d]) BAD("nominal position of " << ml::str(c, nd));
  }
  if (by_cell.empty()) {if (el.size()) BAD("extruded elements without tree elements"); return true;}
  struct Leaf {Cell c; Tree* t; int kind; bool region = false;}; // kind 0: on the surface, 1: not, 2: within roundoff
  std::vector<Leaf> leaves;
  std::function<void(Tree*)> walk = [&](Tree* t) {
    auto ch = t->children(); for (Tree* k : ch) walk(k);
    if (ch.empty()) {
      Cell c {t->refinement_level(), {0, 0, 0}}; Mat<> x(nd); double h = S/(1 << c.l); for (int d = 0; d < nd; ++d) {c.c[d] = t->coordinates()(d); x(d) = org(d) + h*(c.c[d] + .5);}
      double over = body.dist(x) - std::sqrt(nd)/2*h; leaves.push_back({c, t, std::abs(over) < 1e-9*S ? 2 : over > 0});
    }
  };
  walk(tree_of(m));
  int n = leaves.size(); std::vector<Box> bx; for (auto& l : leaves) bx.push_back(box(l.c, nd));
  std::vector<std::vector<std::pair<int, int>>> face(n); std::vector<std::vector<int>> diag(n); // face neighbours with the face index; neighbours that share just an edge of a cell (corner in 2D)
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
    int t, o, dims [3]; contact(bx[i], bx[j], nd, t, o, dims);
    if (t == 1 && o == nd - 1) face[i].push_back({j, 2*dims[0] + (bx[i].hi[dims[0]] == bx[j].lo[dims[0]])});
    if (t == 2 && o == nd - 2) diag[i].push_back(j);
  }
  auto have = [&](int i) {return by_cell.count(leaves[i].c) > 0;};
  std::vector<int> queue; for (int i = 0; i < n; ++i) {bool in = true; for (int d = 0; d < nd; ++d) {double x = (su.body.start[d] - org(d))/S*(1 << R); in = in && x >= bx[i].lo[d] && x <= bx[i].hi[d];} if (in) {leaves[i].region = true; queue.push_back(i);}}
  while (queue.size()) {int i = queue.back(); queue.pop_back(); for (auto& f : face[i]) if (!leaves[f.first].region && leaves[f.first].kind) {leaves[f.first].region = true; queue.push_back(f.first);}}
  for (int i = 0; i < n; ++i) {
    if (have(i) && leaves[i].kind == 0) BAD("cell " << ml::str(leaves[i].c, nd) << " intersects the surface but is in the mesh");
    if (have(i)) {Mat<> x(nd); double h = S/(1 << leaves[i].c.l); for (int d = 0; d < nd; ++d) x(d) = org(d) + h*(leaves[i].c.c[d] + .5); if (!body.flow(x)) BAD("cell " << ml::str(leaves[i].c, nd) << " is inside the body");}
    // (a region may be cut off by coarsening, so this only makes sense for the first mesh)
    if (first && have(i) && !leaves[i].region) BAD("cell " << ml::str(leaves[i].c, nd) << " is not connected to the start but in the mesh");
    if (!have(i) && leaves[i].region) {
      Mat<> x(nd); double h = S/(1 << leaves[i].c.l); for (int d = 0; d < nd; ++d) x(d) = org(d) + h*(leaves[i].c.c[d] + .5);
      bool all = true, any_missing = false; int big = leaves[i].c.l; for (auto& f : face[i]) {all = all && have(f.first); any_missing = any_missing || !have(f.first);} for (auto& f : face[i]) big = std::min(big, leaves[f.first].c.l);
      if (all) BAD("hole in the flow: cell " << ml::str(leaves[i].c, nd) << " is missing though all its neighbours are present");
      if (body.dist(x) > 4*S/(1 << big)) BAD("cell " << ml::str(leaves[i].c, nd) << " is missing though it is far from the surface (" << body.dist(x)/h << " cells)");
    }
  }
  // exposed faces; what cannot be extruded from must have been deleted
  std::set<std::pair<Cell, int>> exposed;
  for (int i = 0; i < n; ++i) if (have(i)) {
    for (int f = 0; f < 2*nd; ++f) {
      int there = 0, missing = 0, finer = 0; for (auto& p : face[i]) if (p.second == f) {(have(p.first) ? there : missing)++; finer += leaves[p.first].c.l > leaves[i].c.l; if (have(p.first) && std::abs(leaves[p.first].c.l - leaves[i].c.l) > 1) BAD("face neighbours " << ml::str(leaves[i].c, nd) << " and " << ml::str(leaves[p.first].c, nd) << " differ by more than a level");}
      if (there && missing) BAD("face " << f << " of " << ml::str(leaves[i].c, nd) << " is partly covered");
      bool at_end = f%2 ? bx[i].hi[f/2] == 1 << R : bx[i].lo[f/2] == 0;
      if (!there && !at_end) exposed.insert({leaves[i].c, f});
    }
    for (int j : diag[i]) if (have(j)) {
      bool mutual = false; for (auto& p : face[i]) if (have(p.first)) for (auto& q : face[j]) mutual = mutual || q.first == p.first;
      if (!mutual && nd == 2) BAD("cells " << ml::str(leaves[i].c, nd) << " and " << ml::str(leaves[j].c, nd) << " are connected by an edge only");
    }
  }
  // ---- connections ----
  std::map<Element*, std::pair<Element*, int>> inner; std::map<Element*, Element*> outer_of; std::map<Element*, int> out_face; // extruded element -> what it was extruded from
  std::set<std::pair<Cell, int>> extruded;
  auto xc = m.extruded_connections();
  for (int i = 0; i < xc.size(); ++i) {
    auto& con = xc[i]; auto d = con.get_direction(); Element *out = &con.element(0), *in = &con.element(1); int f = 2*d.i_dim[1] + d.face_sign[1];
    if (!ext.count(out)) BAD("an element of the tree is listed as extruded");
    if (d.i_dim[0] != d.i_dim[1] || d.face_sign[0] == d.face_sign[1]) BAD("twisted extrusion");
    if (!inner.insert({out, {in, f}}).second) BAD("an element was extruded twice");
    out_face[out] = f; if (!outer_of.insert({in, out}).second && !in->tree) BAD("two layers were extruded from one element");
    if (in->tree) if (!extruded.insert({cell.at(in), f}).second) BAD("face " << f << " of " << ml::str(cell.at(in), nd) << " was extruded twice");
    if (out->refinement_level() != in->refinement_level()) BAD("refinement level of an extruded element");
  }
  if (inner.size() != ext.size()) BAD(ext.size() << " elements outside the tree but " << inner.size() << " extruded");
  if (extruded != exposed) BAD(extruded.size() << " faces were extruded but " << exposed.size() << " are exposed" << [&]() {for (auto& f : exposed) if (!extruded.count(f)) return " e.g. face " + std::to_string(f.second) + " of " + ml::str(f.first, nd); return std::string();}());
  for (auto& p : inner) {Element* a = p.second.first; if (!a->tree && out_face.at(a) != p.second.second) BAD("a layer was extruded sideways from another");}
  auto fv = [&](Element& e, int f) {std::vector<Vertex*> v; for (int k = 0; k < nv; ++k) if (((k >> (nd - 1 - f/2)) & 1) == f%2) v.push_back(&e.vertex(k)); return v;};
  std::multiset<std::tuple<Cell, Cell, int>> want, got;
  for (int i = 0; i < n; ++i) if (have(i)) for (auto& p : face[i]) if (have(p.first) && p.second%2) want.insert({leaves[i].c, leaves[p.first].c, p.second/2});
  std::map<std::pair<Element*, int>, std::vector<std::pair<Element*, int>>> coarse; std::map<std::pair<Element*, int>, int> n_con;
  auto& ec = m.element_connections();
  for (int i = 0; i < ec.size(); ++i) {
    auto& con = ec[i]; auto d = con.get_direction(); Element* e [2] {&con.element(0), &con.element(1)}; int f [2]; for (int s = 0; s < 2; ++s) {f[s] = 2*d.i_dim[s] + d.face_sign[s]; ++n_con[{e[s], f[s]}];}
    if (e[0]->tree && e[1]->tree) {
      if (f[0]/2 != f[1]/2 || f[0]%2 == f[1]%2) BAD("twisted connection between cells"); int lo = f[0]%2 ? 0 : 1; got.insert({cell.at(e[lo]), cell.at(e[!lo]), f[0]/2});
      for (auto* a : fv(*e[0], f[0])) for (auto* b : fv(*e[1], f[1])) if (a != b && e[0]->refinement_level() == e[1]->refinement_level()) if (a->pos == b->pos) ; // (positions may coincide after collapsing)
    } else if (e[0]->tree || e[1]->tree) {
      int x = e[0]->tree ? 1 : 0; auto it = inner.find(e[x]); if (it == inner.end() || it->second.first != e[!x] || it->second.second != f[!x]) BAD("a cell of the tree is connected to the side of an extruded element");
    } else {
      bool stack = false; for (int s = 0; s < 2; ++s) stack = stack || (inner.at(e[s]).first == e[!s]);
      if (!stack) for (int s = 0; s < 2; ++s) if (f[s]/2 == out_face.at(e[s])/2) BAD("the top or bottom of an extruded element is connected to a side");
    }
    int l0 = e[0]->refinement_level(), l1 = e[1]->refinement_level();
    if (l0 == l1) {auto a = fv(*e[0], f[0]), b = fv(*e[1], f[1]); if (std::set<Vertex*>(a.begin(), a.end()) != std::set<Vertex*>(b.begin(), b.end())) BAD("connected faces do not share their vertices");}
    else {if (std::abs(l0 - l1) != 1) BAD("connected elements differ by more than a level"); int s = l0 > l1; coarse[{e[s], f[s]}].push_back({e[!s], f[!s]});}
  }
  if (want != got) BAD(got.size() << " connections between cells which have " << want.size() << " common faces");
  for (auto& p : coarse) {
    auto a = fv(*p.first.first, p.first.second); std::set<Vertex*> b; for (auto& q : p.second) for (auto* v : fv(*q.first, q.second)) b.insert(v);
    for (auto* v : a) if (!b.count(v)) BAD("a fine face does not share the corner of the coarse one");
    // the fine vertices are points of the coarse face
    size_t fine = p.second.size(); bool ok = false; size_t full = 1 << (nd - 1);
    for (int str = 0; str < (1 << (nd - 1)); ++str) {
      size_t nf = full; for (int k = 0; k < nd - 1; ++k) if (str >> k & 1) nf /= 2; if (nf != fine) continue;
      std::vector<Eigen::Vector3d> pts; int na = nd > 1 ? (str & 1 ? 2 : 3) : 1, nb = nd > 2 ? (str & 2 ? 2 : 3) : 1;
      for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) {
        double u = na > 1 ? i/(na - 1.) : 0, w = nb > 1 ? j/(nb - 1.) : 0; Eigen::Vector3d x = Eigen::Vector3d::Zero();
        for (size_t k = 0; k < a.size(); ++k) {int kb = nd > 2 ? k%2 : 0, ka = nd > 2 ? k/2 : k; x += (ka ? u : 1 - u)*(nd > 2 ? (kb ? w : 1 - w) : 1)*a[k]->pos;}
        pts.push_back(x);
      }
      if (pts.size() != b.size()) continue;
      bool fit = true; for (auto* v : b) {bool hit = false; for (auto& x : pts) hit = hit || (v->pos - x).norm() < tol; fit = fit && hit;}
      ok = ok || fit;
    }
    if (!ok) BAD("hanging vertices are not on the coarse face: " << fine << " fine faces with " << b.size() << " vertices");
  }
  // ---- boundary faces ----
  int n_bc = m.boundary_conditions().size(), surf = m.surface_bc_sn(); auto& bc = m.boundary_connections(); std::map<std::pair<Element*, int>, int> bound;
  for (int i = 0; i < bc.size(); ++i) {
    Element* e = &bc[i].element(); int f = 2*bc[i].i_dim() + bc[i].inside_face_sign(), sn = bc[i].bound_cond_serial_n(); if (sn < 0 || sn >= n_bc) BAD("boundary condition number");
    if (!bound.insert({{e, f}, sn}).second) BAD("a face has two boundary conditions"); if (n_con.count({e, f})) BAD("a face is connected and has a boundary condition");
    if (e->tree) {auto c = cell.at(e); if (sn != f || (f%2 ? c.c[f/2] != (1 << c.l) - 1 : c.c[f/2] != 0)) BAD("boundary condition " << sn << " on face " << f << " of cell " << ml::str(c, nd));}
    else if (sn == surf) {if (fresh && (f != out_face.at(e) || outer_of.count(e))) BAD("the surface boundary condition is on the side of an extruded element");}
    else {
      // extremal: the cell it was extruded from is at the same end of the domain
      Element* t = e; while (!t->tree) t = inner.at(t).first; auto c = cell.at(t); if (sn/2 >= nd || f != sn || (sn%2 ? c.c[sn/2] != (1 << c.l) - 1 : c.c[sn/2] != 0)) BAD("boundary condition " << sn << " on face " << f << " of an element extruded from " << ml::str(c, nd));
    }
    for (auto* v : fv(*e, f)) if (sn != surf && std::abs(v->pos(sn/2) - org(sn/2) - (sn%2)*S) > tol) BAD("a vertex of boundary " << sn << " is at " << v->pos.transpose());
  }
  for (auto* e : ext) if (!outer_of.count(e)) {auto it = bound.find({e, out_face.at(e)}); if (it == bound.end() || it->second != surf) BAD("the outer face of an extruded element does not have the surface boundary condition");}
  // ---- vertices ----
  std::map<Vertex*, std::array<int, 3>> where; std::map<Vertex*, Vertex*> below;
  for (auto& p : by_cell) for (int k = 0; k < nv; ++k) {
    std::array<int, 3> x {0, 0, 0}; for (int d = 0; d < nd; ++d) x[d] = (p.first.c[d] + ((k >> (nd - 1 - d)) & 1)) << (R - p.first.l);
    Vertex* v = &p.second->vertex(k); if (!where.insert({v, x}).second && where[v] != x) BAD("a vertex stands for two corners of cells");
    if (!p.second->get_is_deformed()) for (int d = 0; d < nd; ++d) if (std::abs(v->pos(d) - org(d) - S*x[d]/(1 << R)) > tol) BAD("vertex of a Cartesian cell " << ml::str(p.first, nd) << " is at " << v->pos.transpose());
  }
  for (auto* e : ext) {
    int f = out_face.at(e); std::set<Vertex*> distinct; for (int k = 0; k < nv; ++k) distinct.insert(&e->vertex(k)); if (int(distinct.size()) != nv) BAD("an extruded element has merged vertices");
    int bit = 1 << (nd - 1 - f/2); for (int k = 0; k < nv; ++k) if (((k & bit) != 0) == f%2) {Vertex *o = &e->vertex(k), *i = &e->vertex(k ^ bit); if (where.count(o)) BAD("an outer vertex is a corner of a cell"); if (!below.insert({o, i}).second && below[o] != i) BAD("an outer vertex belongs to two inner vertices");}
  }
  std::set<Vertex*> hanging; for (auto& p : coarse) {auto a = fv(*p.first.first, p.first.second); std::set<Vertex*> c(a.begin(), a.end()); for (auto& q : p.second) for (auto* v : fv(*q.first, q.second)) if (!c.count(v)) hanging.insert(v);}
  for (auto& p : bound) if (p.second == surf && p.first.second == out_face[p.first.first]) for (auto* v : fv(*p.first.first, p.first.second)) {
    bool end = hanging.count(v); for (int d = 0; d < nd; ++d) end = end || std::abs(v->pos(d) - org(d)) < tol || std::abs(v->pos(d) - org(d) - S) < tol;
    if (!end && body.dist(v->pos(Eigen::seqN(0, nd))) > 1e-8*S) BAD("a vertex of the body at " << v->pos.transpose() << " is " << body.dist(v->pos(Eigen::seqN(0, nd))) << " from the surface");
  }
  ++vx::validated; return true;
}

static std::vector<Body> bodies(int nd)
{
  std::vector<Body> b; bool th = vx::thorough(), deep = true;
  auto add = [&](std::string kind, std::vector<double> c, std::vector<double> r, std::vector<double> poly, std::vector<double> start, bool inside) {
    std::ostringstream o; o << kind; for (double x : c) o << " " << x; o << " r"; for (double x : r) o << " " << x; for (double x : poly) o << " " << x; b.push_back({o.str(), nd, c, r, poly, start, inside, deep});
  };
  if (nd == 2) {
    int k = th ? 9 : 3;
    for (int i = 0; i < k; ++i) for (int j = 0; j <= i; ++j) {
      double x = .5 + .125*i/(k - 1), y = .47 + .125*j/(k - 1); deep = th || (i == 0 && j == 0) || (i == 2 && j == 1);
      for (double r : {.12, .2, .29}) add("disc", {x, y}, {r}, {}, {.02, .03}, false);
      for (double r : {.3, .39}) add("inside of a disc", {x - .06, y - .03}, {r}, {}, {x - .06, y - .03}, true);
      for (double gap : {.05, .14, .26}) add("two discs", {x - .15 - gap/2, y, x + .15 + gap/2, y + .05}, {.15, .15}, {}, {.02, .03}, false);
      for (double r : {.3, .55}) add("disc at the end", {1.02 + .1*x, y}, {r}, {}, {.02, .03}, false);
      for (double a : {.1, .5}) add("wedge", {}, {}, {x - .25, y, x + .2, y + a/2, x + .2, y - a/2}, {.02, .03}, false);
      add("notch", {}, {}, {x - .3, y - .2, x + .2, y - .2, x + .2, y + .2, x - .3, y + .2, x - .05, y}, {.02, .03}, false);
    }
  } else {
    int k = th ? 4 : 2;
    for (int i = 0; i < k; ++i) for (int j = 0; j <= i; ++j) for (int l = 0; l < k; ++l) {
      double x = .5 + .1*i/(k - 1), y = .48 + .11*j/(k - 1), z = .53 + .07*l/(k - 1);
      for (double r : {.18, .27}) add("ball", {x, y, z}, {r}, {}, {.02, .03, .05}, false);
      add("inside of a ball", {x - .05, y, z - .06}, {.4}, {}, {x - .05, y, z - .06}, true);
      add("ball at the end", {1.05, y, z}, {.33}, {}, {.02, .03, .05}, false);
      add("ball in a corner", {1.05, .02, z}, {.35}, {}, {.02, .9, .05}, false);
    }
  }
  return b;
}

static const char* op_names [] {"refine body", "refine all", "coarsen all", "refine left", "coarsen right", "relax", "split", "refine cell", "coarsen body"};
static bool apply(Accessible_mesh& m, int nd, int op, int max_l)
{
  auto cl = [=](Element& e, int q) {return e.refinement_level() >= 1 && cell_ind(e, nd, 1) == q;};
  int nq = 1 << nd; m.set_unref_locks(criteria::never);
  switch (op) {
    case 0: m.update([=](Element& e) {return !e.tree && e.refinement_level() < max_l;}); break;
    case 1: m.update([=](Element& e) {return e.refinement_level() < max_l - (nd == 3);}); break;
    case 2: m.update(criteria::never, [](Element& e) {return e.refinement_level() > 1;}); break;
    case 3: m.update([=](Element& e) {return e.refinement_level() < max_l && cl(e, 0);}); break;
    case 4: m.update(criteria::never, [=](Element& e) {return cl(e, nq - 1);}); break;
    case 5: m.relax(.7); return true;
    case 6: m.disconnect_boundary(m.surface_bc_sn()); m.extrude(true, .6, true); m.connect_rest(m.surface_bc_sn()); m.cleanup(); return true;
    case 7: m.update([=](Element& e) {return e.tree && e.refinement_level() == 2 && cell_ind(e, nd, 2) == 1 + nq && e.refinement_level() < max_l;}); break;
    case 8: m.update(criteria::never, [=](Element& e) {return !e.tree && e.refinement_level() > 1;}); break;
  }
  m.relax(.5); return true;
}

// the curved faces after snapping
static bool check_curved(Solver& s, const Case_setup& su, int& inverted)
{
  auto& m = am(s); int nd = su.body.nd, rs = su.row_size, nfq = 1; for (int d = 1; d < nd; ++d) nfq *= rs; Gauss_legendre basis(rs); double S = su.size;
  auto pts = [&](Element& e, int f) {Mat<dyn, dyn> p(nfq, nd); for (int q = 0; q < nfq; ++q) {auto x = e.face_position(basis, f, q); for (int d = 0; d < nd; ++d) p(q, d) = x[d];} return p;};
  auto dist_sets = [&](const Mat<dyn, dyn>& a, const Mat<dyn, dyn>& b) {double worst = 0; for (int i = 0; i < a.rows(); ++i) {double best = 1e300; for (int j = 0; j < b.rows(); ++j) best = std::min(best, (a.row(i) - b.row(j)).norm()); worst = std::max(worst, best);} return worst;};
  auto& ec = m.element_connections(); std::map<std::pair<Element*, int>, std::vector<std::pair<Element*, int>>> coarse; double worst = 0, worst_h = 0;
  // The vertices at the ends of the domain may be off the surface since they have to stay there and those of coarse edges are on the coarse edge.
  // Next to the former the warping does not match exactly.
  std::set<Vertex*> hanging; std::set<Element*> loose;
  auto fv = [&](Element& e, int f) {std::vector<Vertex*> v; for (int k = 0; k < 1 << nd; ++k) if (((k >> (nd - 1 - f/2)) & 1) == f%2) v.push_back(&e.vertex(k)); return v;};
  for (int i = 0; i < ec.size(); ++i) {
    auto d = ec[i].get_direction(); Element* e [2] {&ec[i].element(0), &ec[i].element(1)}; int k = e[0]->refinement_level() > e[1]->refinement_level(); if (e[0]->refinement_level() == e[1]->refinement_level()) continue;
    auto c = fv(*e[k], 2*d.i_dim[k] + d.face_sign[k]); for (auto* v : fv(*e[!k], 2*d.i_dim[!k] + d.face_sign[!k])) if (!std::count(c.begin(), c.end(), v)) hanging.insert(v);
  }
  auto& bc = m.boundary_connections();
  for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == m.surface_bc_sn()) for (auto* v : fv(bc[i].element(), 2*bc[i].i_dim() + bc[i].inside_face_sign())) {
    bool end = false; for (int d = 0; d < nd; ++d) end = end || std::abs(v->pos(d) - su.origin[d]) < 1e-10*S || std::abs(v->pos(d) - su.origin[d] - S) < 1e-10*S;
    if (end && !hanging.count(v) && su.body.dist(v->pos(Eigen::seqN(0, nd))) > 1e-10*S) loose.insert(&bc[i].element());
  }
  for (int i = 0; i < ec.size(); ++i) {
    auto d = ec[i].get_direction(); Element* e [2] {&ec[i].element(0), &ec[i].element(1)}; int f [2]; for (int k = 0; k < 2; ++k) f[k] = 2*d.i_dim[k] + d.face_sign[k];
    if (loose.count(e[0]) || loose.count(e[1])) continue;
    if (e[0]->refinement_level() == e[1]->refinement_level()) if (double w = dist_sets(pts(*e[0], f[0]), pts(*e[1], f[1])); getenv("SHOW") && w > 1e-9*S) {std::cerr << "  mismatch " << w << (e[0]->tree ? " tree" : " extruded") << (e[1]->tree ? " tree" : " extruded") << " faces " << f[0] << " " << f[1] << " snapping problem " << e[0]->snapping_problem << e[1]->snapping_problem << " size " << e[0]->nominal_size() << "\n";}
    if (e[0]->refinement_level() == e[1]->refinement_level()) worst = std::max(worst, dist_sets(pts(*e[0], f[0]), pts(*e[1], f[1])));
    else {int k = e[0]->refinement_level() > e[1]->refinement_level(); coarse[{e[k], f[k]}].push_back({e[!k], f[!k]});}
  }
  Mat<> halves(2*rs); for (int h = 0; h < 2; ++h) for (int i = 0; i < rs; ++i) halves(h*rs + i) = .5*h + .5*basis.node(i); Mat<dyn, dyn> to_half = basis.interpolate(halves), id = Mat<dyn, dyn>::Identity(rs, rs);
  for (auto& p : coarse) {
    Mat<dyn, dyn> c = pts(*p.first.first, p.first.second); size_t full = 1 << (nd - 1); double best = 1e300;
    for (int str = 0; str < (1 << (nd - 1)); ++str) {
      size_t nf = full; for (int k = 0; k < nd - 1; ++k) if (str >> k & 1) nf /= 2; if (nf != p.second.size()) continue;
      Mat<dyn, dyn> A = str & 1 ? id : to_half, B = nd > 2 ? (str & 2 ? id : to_half) : Mat<dyn, dyn>::Identity(1, 1), g(A.rows()*B.rows(), nd); g.setZero();
      for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < B.rows(); ++j) for (int k = 0; k < rs; ++k) for (int l = 0; l < B.cols(); ++l) g.row(i*B.rows() + j) += A(i, k)*B(j, l)*c.row(k*B.cols() + l);
      double w = 0; for (auto& q : p.second) w = std::max(w, dist_sets(pts(*q.first, q.second), g)); best = std::min(best, w);
    }
    if (getenv("SHOW") && best > 1e-9*S) {std::cerr << "  hanging " << best << " nominal size " << p.first.first->nominal_size() << (p.first.first->tree ? " tree" : " extruded") << " face " << p.first.second << " fine " << p.second.size() << (p.second[0].first->tree ? " tree" : " extruded") << " snapping problem " << p.first.first->snapping_problem; for (auto& q : p.second) std::cerr << " " << q.first->snapping_problem << " (f " << q.second << ")"; std::cerr << "\n";}
    worst_h = std::max(worst_h, best);
  }
  double off = 0; for (int i = 0; i < bc.size(); ++i) if (bc[i].bound_cond_serial_n() == m.surface_bc_sn()) {auto p = pts(bc[i].element(), 2*bc[i].i_dim() + bc[i].inside_face_sign()); for (int q = 0; q < nfq; ++q) off = std::max(off, su.body.dist(p.row(q).transpose())/bc[i].element().nominal_size());}
  auto& el = m.elements(); inverted = 0; for (int i = 0; i < el.size(); ++i) {bool bad = false; for (int q = 0; q < nfq*rs; ++q) bad = bad || el[i].jacobian_determinant(q) <= 0; inverted += bad;}
  if (getenv("SHOW")) std::cerr << cs << ": mismatch " << worst/S << " hanging " << worst_h/S << " off surface " << off << " inverted " << inverted << " of " << el.size() << "\n";
  if (worst > 1e-9*S) BAD("curved faces of connected elements are " << worst << " apart");
  if (worst_h > 1e-9*S) BAD("curved faces at hanging nodes are " << worst_h << " apart");
  return true;
}

static std::unique_ptr<Solver> make(const Case_setup& su) {return std::make_unique<Solver>(su.body.nd, su.row_size, su.size, false, inviscid, inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>());}
static std::vector<Flow_bc*> bcs(int nd) {std::vector<Flow_bc*> b; for (int i = 0; i < 2*nd; ++i) b.push_back(new Nonpenetration); return b;}
static bool setup(Solver& s, const Case_setup& su, int level)
{
  auto& m = am(s); int nd = su.body.nd; Mat<> o(nd), st(nd); for (int d = 0; d < nd; ++d) {o(d) = su.origin[d]; st(d) = su.body.start[d];}
  m.add_tree(bcs(nd), o); for (int i = 0; i < level; ++i) m.update();
  // the start has to be in the flow: not in a cell that intersects the surface
  double h = su.size/(1 << level); Mat<> x(nd); for (int d = 0; d < nd; ++d) x(d) = o(d) + h*(std::floor((st(d) - o(d))/h) + .5);
  if (su.body.dist(x) < std::sqrt(nd)/2*h + 1e-9) return false;
  m.set_surface(su.body.make(), new Nonpenetration, st); return true;
}

int main(int argc, char** argv)
{
  vx::init(argc, argv); int idx = 0;
  for (int nd : {2, 3}) for (auto& b : bodies(nd)) for (int variant = 0; variant < 2; ++variant) {
    Case_setup su {b, 1., std::vector<double>(nd, 0.), nd == 2 ? 4 : 3};
    if (variant) { // another size and origin
      su.size = 1.7; su.origin = {-.6, .25, -.1}; su.origin.resize(nd); auto f = [&](std::vector<double>& v) {for (size_t i = 0; i < v.size(); ++i) v[i] = su.origin[i%nd] + su.size*v[i];};
      f(su.body.c); f(su.body.poly); f(su.body.start); for (double& r : su.body.r) r *= su.size;
    }
    const int n_op = 9; int lo = nd == 2 ? 2 : 2, hi = nd == 2 ? (vx::thorough() ? 5 : 4) : (vx::thorough() ? 3 : 3);
    for (int level = lo; level <= hi - (nd == 3 && variant); ++level) {
      int depth = variant ? 1 : nd == 2 ? (level == hi ? 1 : vx::thorough() ? 4 : 2 + b.deep) : (level == hi ? 1 : vx::thorough() ? 3 : 2), total = 1; for (int i = 0; i < depth; ++i) total *= n_op;
      int first_of = total/n_op;
      for (int op0 = 0; op0 < n_op; ++op0) { // one case per first operation
        cs = b.name + (variant ? " scaled" : "") + " level " + std::to_string(level) + " then " + op_names[op0];
        if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
        vx::begin_case(cs); std::string base = cs;
        for (int w = 0; w < first_of; ++w) {
          int word [8] {op0}, x = w; for (int i = 1; i < depth; ++i) {word[i] = x%n_op; x /= n_op;}
          std::string text; auto s = make(su); std::string stage = "set_surface"; ++vx::evals;
          try {
            if (!setup(*s, su, level)) break; if (!w && !op0) if (!check(am(*s), su, true, true)) break;
            bool ok = true, fresh = true; int split = 0;
            for (int i = 0; i < depth && ok; ++i) {
              stage += std::string(", ") + op_names[word[i]]; if (word[i] == 6 && split++) {ok = false; break;} // splitting again after adaptation is not a use of the driver
              apply(am(*s), nd, word[i], hi); ++vx::transitions; fresh = fresh && word[i] != 6;
              auto& m = am(*s); if (!m.elements().size()) {ok = false; break;}
              // (prefixes are checked when they are reached first)
              bool now = true; for (int k = i + 1; k < depth; ++k) now = now && word[k] == 0; if (!now && i + 1 < depth) continue;
              std::string keep = cs; if (!check(m, su, fresh, false)) {std::cerr << "  after " << stage << "\n"; ok = false;}
            }
            if (ok && am(*s).elements().size()) {
              std::ostringstream o; o << b.name << am(*s).elements().size() << " " << am(*s).vertices().size() << " " << am(*s).element_connections().size(); vx::state(o.str());
              if ((w%5 == op0%5 || vx::thorough()) && !variant) {int inv; s->calc_jacobian(); check_curved(*s, su, inv);}
            }
          } catch (std::exception& e) {vx::fail(cs, "after " + stage + ": " + std::string(e.what()).substr(0, 300)); break;}
        }
      }
    }
  }
  return vx::finish();
}
