// C14: checkpoint and restart are lossless.  Every mesh of the enumerated families is written and read back and compared
// piece by piece; every short run of the flow solver is compared with the same run restarted from files at every subset of
// its iterations; every short history of mesh adaptations is compared with the same history restarted at every point.
#include "solvlib.hpp"
#include <config.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <H5Cpp.h>
#include <unistd.h>
using namespace hexed;
using namespace sl;

// read-only access to the tree
typedef std::unique_ptr<Tree> Accessible_mesh::*Tree_member;
template <Tree_member M> struct Door {friend Tree* tree_of(Accessible_mesh& m) {return (m.*M).get();}};
template struct Door<&Accessible_mesh::tree>;
Tree* tree_of(Accessible_mesh&);

static std::string cs, dir;
#define BAD(msg) do {std::ostringstream _o; _o.precision(12); _o << msg; vx::fail(cs, _o.str());} while (0)

// elements in an order which does not depend on how they are stored
struct Key
{
  int level; bool def, tree; std::vector<int> pos; double proj;
  bool operator<(const Key& o) const {return std::tie(level, def, tree, pos, proj) < std::tie(o.level, o.def, o.tree, o.pos, o.proj);}
};
struct Canon
{
  std::vector<std::string> lines; // discrete facts
  std::vector<double> reals; std::vector<Element*> order;
  Canon(Accessible_mesh& m, bool warping = true)
  {
    auto& el = m.elements(); int nd = el.size() ? el[0].storage_params().n_dim : 0, nv = 1 << nd;
    std::vector<std::pair<Key, Element*>> ks;
    for (int i = 0; i < el.size(); ++i) {
      Element& e = el[i]; double p = 0;
      for (int v = 0; v < nv; ++v) for (int d = 0; d < nd; ++d) p += e.vertex(v).pos(d)*std::sqrt(2. + d + 3*(d == 1));
      ks.push_back({{e.refinement_level(), e.get_is_deformed(), bool(e.tree), e.nominal_position(), p}, &e});
    }
    std::stable_sort(ks.begin(), ks.end(), [](auto& a, auto& b) {return a.first < b.first;});
    std::map<Element*, int> ind; std::map<Vertex*, int> vind;
    for (size_t i = 0; i < ks.size(); ++i) {
      Element& e = *ks[i].second; ind[&e] = i; order.push_back(&e);
      std::ostringstream o; o << "element " << i << " level " << e.refinement_level() << " deformed " << e.get_is_deformed() << " tree " << bool(e.tree) << " at"; for (int p : e.nominal_position()) o << " " << p;
      o << " vertices";
      for (int v = 0; v < nv; ++v) {
        Vertex& x = e.vertex(v); bool fresh = !vind.count(&x); int k = vind.size(); if (fresh) vind[&x] = k;
        o << " " << vind[&x]; if (fresh) for (int d = 0; d < nd; ++d) reals.push_back(x.pos(d));
        if (fresh) o << (x.is_mobile() ? "m" : "f");
      }
      lines.push_back(o.str());
      for (int d = 0; d < nd; ++d) reals.push_back(e.origin(d));
      if (warping && e.get_is_deformed()) reals.insert(reals.end(), e.node_adjustments(), e.node_adjustments() + 2*nd*e.storage_params().n_face_qpoint());
    }
    {std::ostringstream o; o << "size " << m.root_size() << " vertices " << m.vertices().size() << " bcs " << m.boundary_conditions().size() << " surface " << m.surface_bc_sn() << " level " << m.refined_faces().size() << " " << m.hanging_vertex_matchers().size(); lines.push_back(o.str());}
    std::vector<std::string> c;
    auto& ec = m.element_connections();
    for (int i = 0; i < ec.size(); ++i) {
      auto dir = ec[i].get_direction(); std::pair<int, int> side [2];
      for (int s = 0; s < 2; ++s) side[s] = {ind.at(&ec[i].element(s)), 2*dir.i_dim[s] + dir.face_sign[s]};
      if (side[1] < side[0]) std::swap(side[0], side[1]);
      std::ostringstream o; o << "connection of " << side[0].first << " face " << side[0].second << " with " << side[1].first << " face " << side[1].second; c.push_back(o.str());
    }
    auto bc = [&](auto& bcs) {for (int i = 0; i < bcs.size(); ++i) {std::ostringstream o; o << "boundary " << bcs[i].bound_cond_serial_n() << " of " << ind.at(&bcs[i].element()) << " face " << 2*bcs[i].i_dim() + bcs[i].inside_face_sign(); c.push_back(o.str());}};
    bc(m.boundary_connections());
    auto rc = [&](auto& cons, const char* kind) {
      for (int i = 0; i < cons.size(); ++i) {
        auto& r = cons[i]; std::ostringstream o; o << kind << " hanging faces of " << ind.at(&r.coarse_element()) << " stretch " << r.stretch()[0] << r.stretch()[1] << ":";
        // which part of the coarse face belongs to which element
        for (int k = 0; k < r.n_fine_elements(); ++k) for (int j = 0; j < r.n_fine_elements(); ++j) if (r.refined_face.fine[j] == r.connection(k).state(r.order_reversed(), false)) o << " " << j << "=" << ind.at(&r.connection(k).element(!r.order_reversed()));
        std::string t = o.str(); std::sort(t.begin() + t.find(':') + 2, t.begin() + t.find(':') + 2); c.push_back(t);
      }
    };
    rc(m.cartesian().refined_connections(), "cartesian"); rc(m.deformed().refined_connections(), "deformed");
    auto ex = m.extruded_connections(); bool has_tree = tree_of(m);
    if (has_tree) for (int i = 0; i < ex.size(); ++i) {std::ostringstream o; o << "element " << ind.at(&ex[i].element(0)) << " extruded from " << ind.at(&ex[i].element(1)); c.push_back(o.str());}
    std::sort(c.begin(), c.end()); lines.insert(lines.end(), c.begin(), c.end());
    std::function<void(Tree*, std::string)> walk = [&](Tree* t, std::string path) {
      std::ostringstream o; o << "tree " << path << " status " << t->get_status() << " element " << (t->elem ? ind.at(t->elem.get()) : -1) << " deformed " << (t->elem && t->elem->get_is_deformed() && t->def_elem == t->elem.get());
      if (t->elem && t->elem->tree.get() != t) o << " not mutual";
      lines.push_back(o.str()); auto ch = t->children(); for (size_t i = 0; i < ch.size(); ++i) walk(ch[i], path + std::to_string(i));
    };
    if (has_tree) {walk(tree_of(m), "r"); auto o = tree_of(m)->origin(); for (int i = 0; i < nd; ++i) reals.push_back(o(i));}
  }
};
static bool same(const Canon& a, const Canon& b, double tol, std::string& why)
{
  for (size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); ++i) {
    std::string x = i < a.lines.size() ? a.lines[i] : "nothing", y = i < b.lines.size() ? b.lines[i] : "nothing";
    if (x != y) {why = "'" + y + "' instead of '" + x + "'"; return false;}
  }
  if (a.reals.size() != b.reals.size()) {why = "different amounts of data"; return false;}
  for (size_t i = 0; i < a.reals.size(); ++i) if (!(std::abs(a.reals[i] - b.reals[i]) <= tol)) {std::ostringstream o; o.precision(12); o << "coordinate or adjustment " << i << " is " << b.reals[i] << " instead of " << a.reals[i]; why = o.str(); return false;}
  return true;
}

static std::vector<double> wild(std::vector<double> pos, int nd)
{
  double rho = 1.2*(.9 + .2*hash01(pos.data(), nd, 1)), k = 0, p = .9*(.9 + .2*hash01(pos.data(), nd, 2));
  std::vector<double> r; for (int d = 0; d < nd; ++d) {double u = .3*(hash01(pos.data(), nd, 3 + d) - .4); r.push_back(rho*u); k += .5*rho*u*u;}
  r.push_back(rho); r.push_back(p/.4 + k); return r;
}
struct Probe : public Surface_func
{
  int nd; Probe(int n) : nd{n} {}
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double, std::vector<double>, std::vector<double>) const override {return wild(pos, nd);}
};
struct Setup {std::string name; bool visc; int av; int bc;};
static const Setup setups [] {{"inviscid", false, 0, 0}, {"viscous", true, 0, 1}, {"constant", false, 1, 2}, {"elementwise", false, 3, 0}, {"admissibility", false, 4, 0}};
struct Run
{
  const Mesh_case& mc; int rs; const Setup& su; std::unique_ptr<Solver> s; int nd; int count = 0;
  Flow_bc* bc()
  {
    Mat<> fs(nd + 2); auto f = wild(std::vector<double>(nd, .3), nd); for (int i = 0; i < nd + 2; ++i) fs(i) = f[i];
    switch ((su.bc + count++)%6) {
      case 0: return new Riemann_invariants(fs); case 1: return new No_slip(std::make_shared<Prescribed_heat_flux>(.1)); case 2: return new Cache_bc(new Probe(nd));
      case 3: return new Nonpenetration; case 4: return new Pressure_outflow(.9); default: return new Freestream(fs);
    }
  }
  void fresh()
  {
    s.reset(new Solver(nd, rs, 1., false, su.visc ? Transport_model::constant(.01) : inviscid, su.visc ? Transport_model::constant(2.) : inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>()));
    auto& n = s->nspace(); n.assign("max_safety", .2); n.assign<std::string>("working_dir", dir);
    n.assign("freestream" + std::to_string(nd), 1.2); n.assign("freestream" + std::to_string(nd + 1), 2.5); n.assign("freestream_speed", .3); n.assign("freestream_sound_speed", 1.); n.assign("freestream_density", 1.2);
    count = 0;
  }
  Run(const Mesh_case& m, int r, const Setup& u) : mc{m}, rs{r}, su{u}, nd{m.nd}
  {
    fresh(); mc.build(*s, [&](int) {return bc();});
    s->initialize(Fn(nd + 2, [this](std::vector<double> p) {return wild(p, nd);}));
  }
  void restart()
  {
    s->mesh().write(dir + "cut"); s->write_state(dir + "cut");
    fresh();
    std::vector<Flow_bc*> ext; for (int i = 0; i < 2*nd; ++i) ext.push_back(bc());
    Surface_geom* g = mc.geom ? mc.geom() : nullptr;
    s->read_mesh(dir + "cut", ext, g, g ? bc() : nullptr);
    s->read_state(dir + "cut");
  }
  void advance()
  {
    switch (su.av) {
      case 1: s->set_art_visc_constant(.01); break;
      case 3: s->update_art_visc_elwise(.3, false); break;
      case 4: s->set_fix_admissibility(true); s->set_art_visc_admis(); break;
    }
    s->update();
  }
  std::vector<double> result()
  {
    std::vector<double> r; Canon c(am(*s));
    for (Element* e : c.order) r.insert(r.end(), e->state(), e->state() + s->storage_params().n_dof());
    return r;
  }
};
static bool same(const std::vector<double>& a, const std::vector<double>& b, double tol, std::string& why)
{
  if (a.size() != b.size()) {why = "different numbers of values"; return false;}
  double worst = 0; size_t at = 0;
  for (size_t i = 0; i < a.size(); ++i) {double d = a[i] == b[i] ? 0 : std::abs(a[i] - b[i])/(1e-2 + std::abs(a[i]) + std::abs(b[i])); if (!(d <= worst)) {worst = d; at = i;}}
  if (worst <= tol) return true;
  std::ostringstream o; o.precision(10); o << "value " << at << " of " << a.size() << " is " << b[at] << " instead of " << a[at]; why = o.str(); return false;
}

static int idx = 0;
static bool mine(const std::string& c) {cs = c; if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) return false; vx::begin_case(cs); vx::new_state(cs); return true;}

// every mesh, by itself
static void round_trips()
{
  auto cases = all_cases(vx::thorough());
  for (size_t ic = 0; ic < cases.size(); ++ic) {
    auto& mc = cases[ic];
    if (!vx::thorough() && mc.nd == 3 && ((mc.tree && ic%9) || (mc.name.find("warp1") != std::string::npos))) continue;
    if (!mine("mesh " + mc.name)) continue;
    int rs = mc.row_sizes[ic%mc.row_sizes.size()];
    Solver s(mc.nd, rs, 1., false, inviscid, inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>());
    mc.build(s, [&](int) {return new Nonpenetration;});
    auto& m = am(s); Canon a(m); bool has_tree = tree_of(m);
    std::string name [] {dir + "a", dir + "b"};
    m.write(name[0]); ++vx::evals;
    {std::string why; if (!same(a, Canon(m), 0., why)) BAD("writing the mesh changed it: " << why);}
    std::unique_ptr<Accessible_mesh> back; Accessible_mesh* prev = &m; std::unique_ptr<Accessible_mesh> hold;
    for (int k = 0; k < 2; ++k) { // and again from what was read
      try {
        if (has_tree) {
          std::vector<Flow_bc*> ext; for (int i = 0; i < 2*mc.nd; ++i) ext.push_back(new Nonpenetration);
          Surface_geom* g = mc.geom ? mc.geom() : nullptr;
          back.reset(new Accessible_mesh(name[k], ext, g, g ? new Nonpenetration : nullptr));
        } else {
          std::vector<Flow_bc*> f; std::vector<Mesh_bc*> b; for (int i = 0; i < m.boundary_conditions().size(); ++i) {f.push_back(new Nonpenetration); b.push_back(new Null_mbc);}
          back.reset(new Accessible_mesh(name[k], f, b));
        }
      } catch (std::exception& e) {BAD("reading fails: " << std::string(e.what()).substr(0, 300)); break;}
      ++vx::transitions; std::string why; auto v = back->valid();
      if (!v) BAD("the mesh read has " << v.n_redundant << " redundant and " << v.n_missing << " missing connections");
      Canon c(*back); for (auto& l : c.lines) vx::state(l);
      if (!same(a, c, 1e-13, why)) {BAD((k ? "reading a second time: " : "reading: ") << why); break;}
      ++vx::validated;
      if (!k) {hold = std::move(back); prev = hold.get(); prev->write(name[1]);}
    }
  }
}

// the flow solver
static void flow_histories()
{
  auto cases = all_cases(vx::thorough());
  for (size_t ic = 0; ic < cases.size(); ++ic) {
    auto& mc = cases[ic]; if (!mc.tree && !mc.geom) continue;
    int stride = mc.tree ? (mc.nd == 3 ? 53 : mc.nd == 2 ? 9 : 1) : mc.nd == 3 ? 2 : 2; if (vx::thorough()) stride = (stride + 2)/3;
    if (ic%stride) continue;
    for (auto& su : setups) for (int rs : mc.row_sizes) {
      if (rs != mc.row_sizes[(ic/stride)%mc.row_sizes.size()]) continue;
      if (mc.nd == 3 && !vx::thorough() && (ic/stride + (&su - setups))%3) continue;
      if (!mine("flow " + mc.name + " rows " + std::to_string(rs) + " " + su.name)) continue;
      const int n = vx::thorough() ? 4 : 3; std::vector<double> ref; std::string why;
      {Run r(mc, rs, su); for (int k = 0; k < n; ++k) r.advance(); ref = r.result();}
      int nbad = 0;
      for (int mask = 1; mask < (1 << n) && nbad < 2; ++mask) for (int twice = 0; twice < (mask == 1 || mask == 2 ? 2 : 1); ++twice) {
        ++vx::evals; Run r(mc, rs, su); std::ostringstream h; bool ok = true;
        for (int k = 0; k < n && ok; ++k) {
          if ((mask >> k) & 1) for (int t = 0; t <= twice; ++t) {
            auto before = r.result(); try {r.restart();} catch (std::exception& e) {BAD(h.str() << "restart fails: " << std::string(e.what()).substr(0, 300)); ok = false; ++nbad; break;}
            h << "restart "; ++vx::transitions;
            if (!same(before, r.result(), 0., why)) {BAD(h.str() << ": the state read is not that written: " << why); ok = false; ++nbad; break;}
          }
          r.advance(); h << "advance "; ++vx::transitions;
        }
        if (!ok) break;
        if (!same(ref, r.result(), 1e-9, why)) {BAD(h.str() << ": " << why); ++nbad;} else ++vx::validated;
      }
      vx::state(std::string(reinterpret_cast<char*>(ref.data()), ref.size()*8));
    }
  }
}

// adaptation of the mesh
static void mesh_histories()
{
  for (int nd = 2; nd <= 3; ++nd) for (int body = 0; body < (nd == 2 ? 3 : 2); ++body) {
    auto geom = [=]() -> Surface_geom* {
      if (nd == 3) return new Hypersphere(Mat<3>{.44, .5, .47}, .27);
      if (body == 2) {Mat<dyn, dyn> pts(2, 5); pts << .3, .71, .66, .35, .3, .33, .38, .68, .61, .33; return new Simplex_geom<2>(segments(pts));}
      return new Hypersphere(Mat<2>{.42, .46}, .24);
    };
    int nq = 1 << nd; std::vector<std::string> ops;
    ops.push_back("body"); ops.push_back("split"); ops.push_back("fine surface"); ops.push_back("coarse"); ops.push_back("refine 0"); ops.push_back("refine " + std::to_string(nq - 2)); if (nd == 2 || vx::thorough()) {ops.push_back("coarse 1"); ops.push_back("coarse " + std::to_string(nq - 1));}
    auto fresh = [&]() {return std::make_unique<Solver>(nd, 2, 1., false, inviscid, inviscid, std::make_shared<Namespace>(), std::make_shared<Quiet>());};
    auto relax = [&](Accessible_mesh& m) {for (int i = 0; i < 2; ++i) m.relax(.5);};
    auto apply = [&](Solver& s, int op) {
      auto& m = am(s); std::string o = ops[op]; bool has = m.surface_bc_sn() >= 0; int q = o.find(' ') != std::string::npos ? atoi(o.c_str() + o.rfind(' ')) : -1;
      int max_level = nd == 2 ? 4 : 3;
      auto in = [=](Element& e) {return e.refinement_level() >= 1 && cell_ind(e, nd, 1) == q;};
      if (o == "body") {if (has) return false; m.set_surface(geom(), new Nonpenetration, Mat<>::Constant(nd, .02)); relax(m);}
      else if (o == "split") {
        if (!has) return false;
        m.disconnect_boundary(m.surface_bc_sn()); m.extrude(true, .6, true); m.connect_rest(m.surface_bc_sn()); m.cleanup();
      } else if (o == "fine surface") {if (!has) return false; m.update([=](Element& e) {return !e.tree && e.refinement_level() < max_level;}); relax(m);}
      else if (o == "coarse") {if (!m.update(criteria::never, [](Element& e) {return e.refinement_level() > 1;})) return false; relax(m);}
      else if (o[0] == 'c') {if (!m.update(criteria::never, in)) return false; relax(m);}
      else {if (!m.update([=](Element& e) {return in(e) && e.refinement_level() < max_level;})) return false; relax(m);}
      return true;
    };
    auto start = [&]() {
      auto s = fresh(); std::vector<Flow_bc*> ext; for (int i = 0; i < 2*nd; ++i) ext.push_back(new Nonpenetration);
      am(*s).add_tree(ext, Mat<>::Zero(nd)); for (int i = 0; i < (nd == 2 ? 3 : 2); ++i) am(*s).update();
      if (body) am(*s).set_surface(geom(), new Nonpenetration, Mat<>::Constant(nd, .02));
      return s;
    };
    auto restart = [&](std::unique_ptr<Solver>& s) {
      bool has = am(*s).surface_bc_sn() >= 0; s->mesh().write(dir + "m"); s = fresh();
      std::vector<Flow_bc*> ext; for (int i = 0; i < 2*nd; ++i) ext.push_back(new Nonpenetration);
      s->read_mesh(dir + "m", ext, has ? geom() : nullptr, has ? new Nonpenetration : nullptr);
    };
    int depth = nd == 2 ? (vx::thorough() ? 4 : 3) : (vx::thorough() ? 3 : 2), no = ops.size(), total = 1; for (int i = 0; i < depth; ++i) total *= no;
    for (int w = 0; w < total; ++w) {
      int word [8], x = w; for (int i = 0; i < depth; ++i) {word[i] = x%no; x /= no;}
      // without the surface, only histories in which it appears
      if (!body && std::find(word, word + depth, 0) == word + depth && w%3) continue;
      std::string text; for (int i = 0; i < depth; ++i) text += (i ? ", " : "") + ops[word[i]];
      if (!mine("adapt " + std::to_string(nd) + " body " + std::to_string(body) + ": " + text)) continue;
      auto a = start(); bool ok = true;
      try {for (int i = 0; i < depth && ok; ++i) ok = apply(*a, word[i]) && bool(am(*a).valid());} catch (...) {ok = false;}
      if (!ok) continue; // an operation that does not apply
      Canon ca(am(*a), false); for (auto& l : ca.lines) vx::state(l);
      for (int cut = 0; cut < depth; ++cut) {
        ++vx::evals; auto b = start(); std::string why;
        try {
          for (int i = 0; i < depth; ++i) {if (i == cut) restart(b); apply(*b, word[i]); ++vx::transitions;}
        } catch (std::exception& e) {BAD("restart before operation " << cut << ": " << std::string(e.what()).substr(0, 300)); break;}
        if (!same(ca, Canon(am(*b), false), 1e-7, why)) {BAD("restart before operation " << cut << ": " << why); break;}
        ++vx::validated;
      }
    }
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c14_XXXXXX"; dir = std::string(mkdtemp(t)) + "/"; H5::Exception::dontPrint();
  std::string only = getenv("ONLY") ? getenv("ONLY") : "rfm"; if (only.find("r") < 9) round_trips(); if (only.find("f") < 9) flow_histories(); if (only.find("m") < 9) mesh_histories();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
