// C15: exported polyhedral meshes are valid.  Every mesh of the enumerated 3D families, and every short history of mesh
// adaptations around a body, is exported; the files are parsed and the mesh they describe is compared with the internal one.
#include "solvlib.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>
using namespace hexed;
using namespace sl;

static std::string cs, dir;
#define BAD(msg) do {std::ostringstream _o; _o.precision(12); _o << msg; vx::fail(cs, _o.str());} while (0)

struct Entries {int count = -1; std::vector<std::string> e; std::string note, cls, object; bool ok = false;};
static Entries parse(std::string name)
{
  Entries r; std::ifstream f(dir + "polyMesh/" + name); if (!f) return r;
  std::string line; bool header = false, in = false; int depth = 0;
  while (std::getline(f, line)) {
    size_t a = line.find_first_not_of(" \t\r"); if (a == std::string::npos) continue;
    size_t b = line.find_last_not_of(" \t\r"); line = line.substr(a, b - a + 1);
    if (line.compare(0, 2, "//") == 0) continue;
    if (!header) {
      if (line == "{") ++depth;
      if (line.compare(0, 6, "class ") == 0) r.cls = line.substr(6, line.size() - 7);
      if (line.compare(0, 7, "object ") == 0) r.object = line.substr(7, line.size() - 8);
      if (line.compare(0, 5, "note ") == 0) r.note = line.substr(6, line.size() - 8);
      if (line == "}") header = true;
    }
    else if (r.count < 0) {r.count = atoi(line.c_str());}
    else if (!in) {if (line != "(") return r; in = true;}
    else if (line == ")") {r.ok = true; in = false; break;}
    else r.e.push_back(line);
  }
  r.ok = r.ok && r.count == int(r.e.size()) && r.object == name;
  return r;
}

// flux integrals over a bilinear patch with corners in cyclic order: area vector, volume contribution, first moment
struct Integrals {V3 area = V3::Zero(), moment = V3::Zero(); double vol = 0, size = 0;};
static Integrals patch(const std::array<V3, 4>& p)
{
  Integrals r; double g = .5/std::sqrt(3.);
  for (double u : {.5 - g, .5 + g}) for (double v : {.5 - g, .5 + g}) {
    V3 x = (1 - u)*(1 - v)*p[0] + u*(1 - v)*p[1] + u*v*p[2] + (1 - u)*v*p[3];
    V3 xu = (1 - v)*(p[1] - p[0]) + v*(p[2] - p[3]), xv = (1 - u)*(p[3] - p[0]) + u*(p[2] - p[1]);
    V3 n = .25*xu.cross(xv); r.area += n; r.vol += x.dot(n)/3; r.moment += .5*x.dot(x)*n; r.size += n.norm();
  }
  return r;
}
static bool degenerate(Element& e, int f) // whether the mesh itself has merged vertices of this face
{
  std::set<Vertex*> s; for (int v = 0; v < 8; ++v) if (((v >> (2 - f/2)) & 1) == f%2) s.insert(&e.vertex(v));
  return s.size() < 4;
}
static std::array<V3, 4> face_corners(Element& e, int f)
{
  int d = f/2; std::array<int, 4> c; int k = 0; for (int v = 0; v < 8; ++v) if (((v >> (2 - d)) & 1) == f%2) c[k++] = v;
  std::array<V3, 4> p {e.vertex(c[0]).pos, e.vertex(c[1]).pos, e.vertex(c[3]).pos, e.vertex(c[2]).pos};
  // cyclic; outward for a right-handed element: dimensions (0; 1, 2), (2; 0, 1) are right-handed, (1; 0, 2) is left-handed
  bool outward = (d == 1) == bool(f%2); if (!outward) std::swap(p[1], p[3]);
  return p;
}
static std::string vec(V3 v) {std::ostringstream o; o.precision(6); o << v.transpose(); return o.str();}

static void check(Accessible_mesh& m, bool tree, bool body)
{
  auto& el = m.elements(); int n_el = el.size();
  Entries P = parse("points"), F = parse("faces"), O = parse("owner"), N = parse("neighbour"), B = parse("boundary");
  for (auto* x : {&P, &F, &O, &N, &B}) if (!x->ok) {BAD("malformed file " << x->object << ": " << x->count << " announced, " << x->e.size() << " listed"); return;}
  if (P.cls != "vectorField" || F.cls != "faceList" || O.cls != "labelList" || N.cls != "labelList" || B.cls != "polyBoundaryMesh") BAD("wrong class in a header");
  std::vector<V3> pt; for (auto& s : P.e) {V3 v; char end; if (sscanf(s.c_str(), "(%lf %lf %lf%c", &v(0), &v(1), &v(2), &end) != 4 || end != ')') {BAD("malformed point " << s); return;} pt.push_back(v);}
  int n_int = N.count, n_face = F.count;
  if (O.count != n_face) {BAD(n_face << " faces but " << O.count << " owners"); return;}
  std::vector<int> own, nei; for (auto& s : O.e) own.push_back(atoi(s.c_str())); for (auto& s : N.e) nei.push_back(atoi(s.c_str()));
  std::ostringstream note; note << "nPoints:" << pt.size() << " nCells:" << n_el << " nFaces:" << n_face << " nInternalFaces:" << n_int;
  if (O.note != note.str() || N.note != note.str()) BAD("note '" << O.note << "' instead of '" << note.str() << "'");
  // points
  {
    std::multiset<std::array<double, 3>> a, b; std::set<Vertex*> vs;
    for (int i = 0; i < n_el; ++i) for (int v = 0; v < 8; ++v) vs.insert(&el[i].vertex(v));
    for (auto* v : vs) a.insert({v->pos(0), v->pos(1), v->pos(2)}); for (auto& p : pt) b.insert({p(0), p(1), p(2)});
    if (a != b) BAD("the " << pt.size() << " points are not the " << vs.size() << " vertices of the mesh");
  }
  // cells
  std::vector<Integrals> cell(n_el); std::vector<double> big(n_el, 0.); std::vector<int> n_faces_of(n_el, 0); std::vector<std::array<V3, 4>> quad(n_face);
  std::vector<bool> used(pt.size(), false);
  std::set<std::array<int, 4>> distinct; int n_repeated = 0;
  for (int f = 0; f < n_face; ++f) {
    int v[4]; char end; if (sscanf(F.e[f].c_str(), "4(%d %d %d %d%c", v, v + 1, v + 2, v + 3, &end) != 5 || end != ')') {BAD("malformed face " << F.e[f]); return;}
    for (int k = 0; k < 4; ++k) {if (v[k] < 0 || v[k] >= int(pt.size())) {BAD("face " << f << " refers to point " << v[k] << " of " << pt.size()); return;} quad[f][k] = pt[v[k]]; used[v[k]] = true;}
    std::array<int, 4> s {v[0], v[1], v[2], v[3]}; std::sort(s.begin(), s.end());
    if (std::unique(s.begin(), s.end()) != s.end()) ++n_repeated;
    else if (!distinct.insert(s).second) BAD("face " << f << " is listed twice");
    if (own[f] < 0 || own[f] >= n_el || (f < n_int && (nei[f] < 0 || nei[f] >= n_el))) {BAD("face " << f << " refers to a cell that does not exist"); return;}
    if (f < n_int && own[f] >= nei[f]) BAD("internal face " << f << " has owner " << own[f] << " and neighbour " << nei[f]);
    Integrals g = patch(quad[f]);
    for (int s = 0; s < (f < n_int ? 2 : 1); ++s) {
      int c = s ? nei[f] : own[f]; double sg = s ? -1 : 1; ++n_faces_of[c];
      cell[c].area += sg*g.area; cell[c].vol += sg*g.vol; cell[c].moment += sg*g.moment; big[c] += g.size;
    }
  }
  {
    int n_degenerate = 0; auto& ec = m.element_connections(); auto& bc = m.boundary_connections();
    for (int i = 0; i < ec.size(); ++i) {auto d = ec[i].get_direction(); int s = ec[i].element(1).refinement_level() > ec[i].element(0).refinement_level(); n_degenerate += degenerate(ec[i].element(s), 2*d.i_dim[s] + d.face_sign[s]);}
    for (int k = 0; k < bc.size(); ++k) n_degenerate += degenerate(bc[k].element(), 2*bc[k].i_dim() + bc[k].inside_face_sign());
    if (n_repeated != n_degenerate) BAD(n_repeated << " faces have a repeated point, " << n_degenerate << " in the mesh");
  }
  for (size_t i = 0; i < pt.size(); ++i) if (!used[i]) {BAD("point " << i << " belongs to no face"); break;}
  for (int c = 0; c < n_el; ++c) if (cell[c].area.norm() > 1e-9*big[c]) {BAD("cell " << c << " with " << n_faces_of[c] << " faces is not closed or its normals disagree: total area vector " << vec(cell[c].area) << " volume " << cell[c].vol); break;}
  // the cells are the elements
  {
    std::vector<Integrals> want(n_el);
    for (int i = 0; i < n_el; ++i) for (int f = 0; f < 6; ++f) {auto g = patch(face_corners(el[i], f)); want[i].vol += g.vol; want[i].moment += g.moment; want[i].area += g.area;}
    auto key = [](const Integrals& g) {return g.moment.dot(V3(1., 1.7320508, 2.2360679)) + .31*g.vol;};
    auto cmp = [&](const Integrals& a, const Integrals& b) {return key(a) < key(b);};
    auto got = cell; std::sort(got.begin(), got.end(), cmp); std::sort(want.begin(), want.end(), cmp);
    for (int i = 0; i < n_el; ++i) if (std::abs(got[i].vol - want[i].vol) > 1e-9*std::abs(want[i].vol) || (got[i].moment - want[i].moment).norm() > 1e-9*std::abs(want[i].vol)) {BAD("cell of volume " << got[i].vol << " around " << vec(got[i].moment/got[i].vol) << " where the mesh has one of volume " << want[i].vol << " around " << vec(want[i].moment/want[i].vol)); break;}
  }
  // the faces between cells are the connections of the mesh; the boundary faces are grouped by boundary condition
  auto id = [](const std::array<V3, 4>& q) {std::array<std::array<double, 3>, 4> r; for (int k = 0; k < 4; ++k) r[k] = {q[k](0), q[k](1), q[k](2)}; std::sort(r.begin(), r.end()); return r;};
  {
    std::multiset<std::array<std::array<double, 3>, 4>> a, b;
    for (int f = 0; f < n_int; ++f) a.insert(id(quad[f]));
    auto& ec = m.element_connections();
    for (int i = 0; i < ec.size(); ++i) {auto d = ec[i].get_direction(); int s = ec[i].element(1).refinement_level() > ec[i].element(0).refinement_level(); b.insert(id(face_corners(ec[i].element(s), 2*d.i_dim[s] + d.face_sign[s])));}
    if (a != b) BAD("the " << n_int << " internal faces are not the " << ec.size() << " connections of the mesh");
  }
  int at = n_int, n_bc = m.boundary_conditions().size(); std::set<std::string> names;
  if (B.count != n_bc) {BAD(B.count << " patches for " << n_bc << " boundary conditions"); return;}
  auto& bc = m.boundary_connections();
  for (int i = 0; i < n_bc; ++i) {
    char name [101], type [101]; int n, st; if (sscanf(B.e[i].c_str(), "%100s {type %100[^;]; nFaces %d; startFace %d;}", name, type, &n, &st) != 4) {BAD("malformed patch " << B.e[i]); return;}
    if (!names.insert(name).second) BAD("two patches named " << name);
    if (st != at || n < 0 || st + n > n_face) {BAD("patch " << name << " covers faces " << st << " to " << st + n << " where the next one is " << at << " of " << n_face); return;}
    at += n; int bcn = i; std::string want_name, want_type = "patch";
    if (tree) {
      if (body && i == m.surface_bc_sn()) {want_name = "surface_bc"; want_type = "wall";}
      else want_name = "extremal_bc" + std::to_string(i/2) + std::to_string(i%2);
      if (want_name != name || want_type != type) BAD("patch " << i << " is '" << name << "' of type " << type);
    }
    std::multiset<std::array<std::array<double, 3>, 4>> a, b;
    for (int f = st; f < st + n; ++f) a.insert(id(quad[f]));
    for (int k = 0; k < bc.size(); ++k) if (bc[k].bound_cond_serial_n() == bcn) b.insert(id(face_corners(bc[k].element(), 2*bc[k].i_dim() + bc[k].inside_face_sign())));
    if (a != b) BAD("the " << n << " faces of patch " << name << " are not the " << b.size() << " faces of boundary condition " << bcn);
  }
  if (at != n_face) BAD("patches cover faces up to " << at << " of " << n_face);
  vx::state(std::to_string(n_el) + " " + std::to_string(n_face) + " " + std::to_string(pt.size())); ++vx::validated;
}

static int idx = 0;
static bool mine(const std::string& c) {cs = c; if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) return false; vx::begin_case(cs); vx::new_state(cs); return true;}
static std::unique_ptr<Solver> fresh(int nd, double size) {return std::make_unique<Solver>(nd, 2, size, false, inviscid, inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>());}

static void families()
{
  auto cases = all_cases(vx::thorough());
  for (size_t ic = 0; ic < cases.size(); ++ic) {
    auto& mc = cases[ic];
    if (mc.nd < 3 && ic%7) continue;
    if (!mine(mc.name)) continue;
    auto s = fresh(mc.nd, mc.name.size()%2 ? 1. : 1.7); mc.build(*s, [&](int) {return new Nonpenetration;});
    bool body = mc.geom != nullptr;
    if (mc.nd < 3) { // there is no such mesh in less than three dimensions
      bool threw = false; try {s->mesh().export_polymesh(dir);} catch (std::exception&) {threw = true;}
      if (!threw) BAD("a " << mc.nd << "D mesh was exported"); else ++vx::validated;
      continue;
    }
    for (int twice = 0; twice < 2; ++twice) {s->mesh().export_polymesh(dir); ++vx::transitions;} // into a directory that already has one
    check(am(*s), mc.tree || body, body);
  }
}
static void histories()
{
  std::vector<std::string> ops {"body", "split", "surface", "coarse", "refine 0", "refine 6", "coarse 5"};
  int no = ops.size(), depth = vx::thorough() ? 5 : 4, total = 1; for (int i = 0; i < depth; ++i) total *= no;
  for (int start = 0; start < 2; ++start) for (int w = 0; w < total; ++w) {
    int word [8], x = w; for (int i = 0; i < depth; ++i) {word[i] = x%no; x /= no;}
    int n_body = 0; for (int i = 0; i < depth; ++i) n_body += word[i] == 0; if (n_body > 1 || (start && n_body)) continue;
    bool wasted = false, have = start; for (int i = 0; i < depth; ++i) {wasted = wasted || ((word[i] == 1 || word[i] == 2) && !have); have = have || word[i] == 0;} if (wasted) continue;
    std::string text = start ? "sphere" : "box"; for (int i = 0; i < depth; ++i) text += ", " + ops[word[i]];
    if (!mine("history " + text)) continue;
    auto s = fresh(3, .8); auto& m = am(*s);
    try {
      m.add_tree(bcs([](int) {return new Nonpenetration;}, 3), Mat<>::Constant(3, start ? 0. : -.1)); m.update(); m.update();
      double o = start ? 0. : -.1;
      auto body = [&]() {m.set_surface(new Hypersphere(Mat<3>{.36 + o, .41 + o, .38 + o}, .21), new Nonpenetration, Mat<>::Constant(3, .02 + o)); m.relax(.5);};
      if (start) body();
      for (int i = 0; i < depth; ++i) {
        std::string op = ops[word[i]]; int q = atoi(op.c_str() + op.size() - 1);
        auto in = [=](Element& e) {return e.refinement_level() >= 1 && cell_ind(e, 3, 1) == q;};
        if (op == "body") body();
        else if (op == "split") {m.disconnect_boundary(m.surface_bc_sn()); m.extrude(true, .6, true); m.connect_rest(m.surface_bc_sn()); m.cleanup();}
        else if (op == "surface") {m.update([=](Element& e) {return !e.tree && e.refinement_level() < 3;}); m.relax(.5);}
        else if (op == "coarse") {m.update(criteria::never, [](Element& e) {return e.refinement_level() > 1;}); m.relax(.5);}
        else if (op[0] == 'c') {m.update(criteria::never, in); m.relax(.5);}
        else {m.update([=](Element& e) {return in(e) && e.refinement_level() < 3;}); m.relax(.5);}
        ++vx::transitions;
      }
    } catch (...) {continue;} // judged by other properties
    if (!m.valid()) continue;
    m.export_polymesh(dir); check(m, true, start || n_body);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c15_XXXXXX"; dir = std::string(mkdtemp(t)) + "/";
  families(); histories();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
