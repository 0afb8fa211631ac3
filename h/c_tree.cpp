// Explicit-state exploration of the bin/quad/octree: breadth-first over every tree reachable by refine()/unrefine()
// within the bounds, each transition executed on the real Tree, each state compared with a geometric oracle that only
// knows the set of cells (level, integer coordinates).
#include <vx.hpp>
#include <Tree.hpp>
#include <map>
#include <set>
#include <queue>
#include <algorithm>
using namespace hexed;
typedef std::array<int, 3> I3;
struct Cell {int l; I3 c; bool operator<(const Cell& o) const {return std::tie(l, c) < std::tie(o.l, o.c);} bool operator==(const Cell& o) const {return l == o.l && c == o.c;}};
static const double root_size = 2.;
static const double orig3[3] {.5, -1., .25};

struct Model
{
  int nd;
  std::set<Cell> split; // refined cells
  bool is_split(const Cell& c) const {return split.count(c);}
  Cell child(const Cell& c, int i) const
  {
    Cell k{c.l + 1, {0, 0, 0}};
    for (int d = 0; d < nd; ++d) k.c[d] = 2*c.c[d] + ((i >> (nd - 1 - d)) & 1);
    return k;
  }
  void walk(const Cell& c, std::vector<Cell>& all) const // depth first row major
  {
    all.push_back(c);
    if (is_split(c)) for (int i = 0; i < (1 << nd); ++i) walk(child(c, i), all);
  }
  std::vector<Cell> all() const {std::vector<Cell> v; walk({0, {0, 0, 0}}, v); return v;}
  void unsplit(const Cell& c)
  {
    if (!is_split(c)) return;
    for (int i = 0; i < (1 << nd); ++i) unsplit(child(c, i));
    split.erase(c);
  }
  std::string key() const
  {
    std::string s = std::to_string(nd);
    for (auto& c : split) {s += " " + std::to_string(c.l); for (int d = 0; d < nd; ++d) s += "," + std::to_string(c.c[d]);}
    return s;
  }
};

static Cell cell_of(Tree& t)
{
  Cell c{t.refinement_level(), {0, 0, 0}};
  auto co = t.coordinates();
  for (int d = 0; d < t.n_dim; ++d) c.c[d] = co(d);
  return c;
}
static void walk_real(Tree& t, std::vector<Tree*>& v) {v.push_back(&t); for (auto ch : t.children()) walk_real(*ch, v);}
static Tree* locate(Tree& root, const Cell& c, int nd)
{
  Tree* t = &root;
  for (int l = 1; l <= c.l; ++l) {
    int i = 0;
    for (int d = 0; d < nd; ++d) i = 2*i + ((c.c[d] >> (c.l - l)) & 1);
    auto ch = t->children();
    if (i >= int(ch.size())) return nullptr;
    t = ch[i];
  }
  return t;
}
static std::unique_ptr<Tree> realize(const Model& m)
{
  Mat<> o(3); o << orig3[0], orig3[1], orig3[2];
  std::unique_ptr<Tree> t(new Tree(m.nd, root_size, o));
  std::vector<Cell> s(m.split.begin(), m.split.end()); // sorted by level
  for (auto& c : s) locate(*t, c, m.nd)->refine();
  return t;
}

#define FAIL(msg) {std::ostringstream _o; _o << msg; vx::fail(kase, _o.str()); return false;}
static constexpr int R = 5; // all geometry in units of 2^-R of the root
struct Box {I3 lo, hi;};
static Box box(const Cell& c, int nd) {Box b{{0,0,0},{0,0,0}}; for (int d = 0; d < nd; ++d) {b.lo[d] = c.c[d] << (R - c.l); b.hi[d] = (c.c[d] + 1) << (R - c.l);} return b;}

static std::string str(const Cell& c, int nd) {std::string s = "L" + std::to_string(c.l); for (int d = 0; d < nd; ++d) s += (d ? "," : ":") + std::to_string(c.c[d]); return s;}
static std::string str(Tree* t) {return t ? str(cell_of(*t), t->n_dim) : "null";}

static bool check_tree(const Model& m, Tree& root, const std::string& kase, int max_level, bool full)
{
  const int nd = m.nd;
  std::vector<Cell> cells = m.all();
  std::vector<Tree*> real; walk_real(root, real);
  if (real.size() != cells.size()) FAIL("tree has " << real.size() << " elements, expected " << cells.size());
  std::vector<Cell> leaves; std::vector<Tree*> leaf_ptr;
  std::map<Cell, Tree*> ptr;
  for (size_t i = 0; i < cells.size(); ++i) {
    Tree& t = *real[i]; const Cell& c = cells[i];
    if (!(cell_of(t) == c)) FAIL("element " << i << " in depth-first row-major order is " << str(&t) << ", expected " << str(c, nd));
    ptr[c] = &t;
    bool leaf = !m.is_split(c);
    if (t.is_leaf() != leaf || t.children().size() != (leaf ? 0u : 1u << nd)) FAIL("leaf status of " << str(c, nd));
    if (t.is_root() != (c.l == 0) || t.root() != &root) FAIL("root relation of " << str(c, nd));
    if (c.l == 0) {if (t.parent()) FAIL("root has a parent");}
    else {
      Cell p{c.l - 1, {0,0,0}}; for (int d = 0; d < nd; ++d) p.c[d] = c.c[d]/2;
      if (t.parent() != ptr[p]) FAIL("parent of " << str(c, nd) << " is " << str(t.parent()));
    }
    double sz = root_size/(1 << c.l);
    if (std::abs(t.nominal_size() - sz) > 1e-14) FAIL("nominal size of " << str(c, nd));
    if (t.origin().size() != nd) FAIL("origin size");
    for (int d = 0; d < nd; ++d) {
      double pos = orig3[d] + sz*c.c[d];
      if (std::abs(t.nominal_position()(d) - pos) > 1e-13) FAIL("nominal position of " << str(c, nd));
      if (std::abs(t.center()(d) - pos - sz/2) > 1e-13) FAIL("center of " << str(c, nd));
      if (t.origin()(d) != orig3[d]) FAIL("origin");
    }
    if (leaf) {leaves.push_back(c); leaf_ptr.push_back(&t);}
    int n_desc = 0;
    for (size_t j = i; j < cells.size() && (j == i || cells[j].l > c.l); ++j) ++n_desc;
    if (t.count() != n_desc) FAIL("count of " << str(c, nd) << " is " << t.count() << " not " << n_desc);
  }
  // subtree leaves in walk order
  auto sub_begin = [&](size_t i) {return i;};
  auto sub_end = [&](size_t i) {size_t j = i + 1; while (j < cells.size() && cells[j].l > cells[i].l) ++j; return j;};
  // neighbours
  int n_dir = 1; for (int d = 0; d < nd; ++d) n_dir *= 3;
  for (size_t i = 0; i < cells.size(); ++i) for (int k = 0; k < n_dir; ++k) {
    Eigen::VectorXi dir(nd); for (int d = 0, q = k; d < nd; ++d, q /= 3) dir(d) = q%3 - 1;
    Box b = box(cells[i], nd);
    // the leaf which contains this element's vertex 0 displaced in the given direction
    int main = -1;
    for (size_t j = 0; j < leaves.size(); ++j) {
      Box l = box(leaves[j], nd); bool in = true;
      for (int d = 0; d < nd; ++d) {
        int x = dir(d) > 0 ? b.hi[d] : b.lo[d];
        in = in && (dir(d) < 0 ? (l.lo[d] < x && x <= l.hi[d]) : (l.lo[d] <= x && x < l.hi[d]));
      }
      if (in) main = j;
    }
    Tree* got = real[i]->find_neighbor(dir);
    Tree* want = main < 0 ? nullptr : leaf_ptr[main];
    if (got != want) FAIL("find_neighbor of " << str(cells[i], nd) << " direction " << dir.transpose() << " gave " << str(got) << " expected " << str(want));
    std::vector<Tree*> wants;
    if (want) {
      if (leaves[main].l <= cells[i].l) wants.push_back(want);
      else {
        Box v = b; for (int d = 0; d < nd; ++d) {int s = b.hi[d] - b.lo[d]; v.lo[d] += dir(d)*s; v.hi[d] += dir(d)*s;}
        for (size_t j = 0; j < leaves.size(); ++j) {
          Box l = box(leaves[j], nd); bool in = true;
          for (int d = 0; d < nd; ++d) {
            in = in && l.lo[d] >= v.lo[d] && l.hi[d] <= v.hi[d];
            if (dir(d) > 0) in = in && l.lo[d] == v.lo[d];
            if (dir(d) < 0) in = in && l.hi[d] == v.hi[d];
          }
          if (in) wants.push_back(leaf_ptr[j]);
        }
      }
    }
    auto gots = real[i]->find_neighbors(dir);
    if (gots != wants) {
      std::ostringstream o; for (auto p : gots) o << str(p) << ";"; o << " expected "; for (auto p : wants) o << str(p) << ";";
      FAIL("find_neighbors of " << str(cells[i], nd) << " direction " << dir.transpose() << " gave " << o.str());
    }
  }
  // find_leaf by integer coordinates
  int max_rl = std::min(max_level + 1, nd == 3 ? (full ? 3 : 2) : 4);
  for (int rl = 0; rl <= max_rl; ++rl) {
    int n = (1 << rl) + 3, tot = 1; for (int d = 0; d < nd; ++d) tot *= n;
    for (int k = 0; k < tot; ++k) for (int bk = 0; bk < (1 << nd); ++bk) {
      Eigen::VectorXi c(nd), bias(nd);
      for (int d = 0, q = k; d < nd; ++d, q /= n) {c(d) = q%n - 1; bias(d) = (bk >> d) & 1;}
      int main = -1;
      for (size_t j = 0; j < leaves.size(); ++j) {
        Box l = box(leaves[j], nd); bool in = true;
        for (int d = 0; d < nd; ++d) {
          int x = c(d)*(1 << (R - rl));
          in = in && (bias(d) ? (l.lo[d] < x && x <= l.hi[d]) : (l.lo[d] <= x && x < l.hi[d]));
        }
        if (in) main = j;
      }
      // from the root and from every other element (which only looks at its own descendents)
      for (size_t i = 0; i < cells.size(); ++i) {
        if (i && !full && (k + bk)%3) break;
        bool inside = false;
        if (main >= 0) for (size_t j = sub_begin(i); j < sub_end(i); ++j) inside = inside || cells[j] == leaves[main];
        Tree* want = inside ? leaf_ptr[main] : nullptr;
        Tree* got = real[i]->find_leaf(rl, c, bias);
        if (got != want) FAIL("find_leaf(" << rl << ", {" << c.transpose() << "}, {" << bias.transpose() << "}) from " << str(cells[i], nd) << " gave " << str(got) << " expected " << str(want));
      }
    }
  }
  // find_leaf by physical position: lattice of half the finest cell, one step outside the root included
  {
    int rl = std::min(max_level + 1, nd == 3 ? 2 : 4), n = (1 << rl) + 3, tot = 1; for (int d = 0; d < nd; ++d) tot *= n;
    for (int k = 0; k < tot; ++k) {
      Mat<> p(nd); I3 x{0,0,0};
      for (int d = 0, q = k; d < nd; ++d, q /= n) {int c = q%n - 1; p(d) = orig3[d] + root_size*c/(1 << rl); x[d] = c*(1 << (R - rl));}
      for (size_t i = 0; i < cells.size(); ++i) {
        if (i && !full && k%5) break;
        Tree* got = real[i]->find_leaf(p);
        bool contains = true; Box b = box(cells[i], nd);
        for (int d = 0; d < nd; ++d) contains = contains && b.lo[d] <= x[d] && x[d] <= b.hi[d];
        if (!got) {if (contains) FAIL("find_leaf({" << p.transpose() << "}) from " << str(cells[i], nd) << " found nothing");}
        else {
          Cell g = cell_of(*got); Box l = box(g, nd); bool in = got->is_leaf() && ptr.count(g) && ptr[g] == got;
          for (int d = 0; d < nd; ++d) in = in && l.lo[d] <= x[d] && x[d] <= l.hi[d] && l.lo[d] >= b.lo[d] && l.hi[d] <= b.hi[d];
          if (!in) FAIL("find_leaf({" << p.transpose() << "}) from " << str(cells[i], nd) << " gave " << str(got) << " which does not contain the point");
        }
      }
    }
  }
  // flood fill: every barrier set (or every set of up to two barrier cells for bigger trees), every start element
  std::vector<std::vector<int>> adj(leaves.size());
  for (size_t i = 0; i < leaves.size(); ++i) for (size_t j = 0; j < leaves.size(); ++j) if (i != j) {
    Box a = box(leaves[i], nd), b = box(leaves[j], nd); int touch = 0, over = 0;
    for (int d = 0; d < nd; ++d) {
      if (a.hi[d] == b.lo[d] || a.lo[d] == b.hi[d]) ++touch;
      else if (a.lo[d] < b.hi[d] && b.lo[d] < a.hi[d]) ++over;
    }
    if (touch == 1 && over == nd - 1) adj[i].push_back(j);
  }
  std::vector<std::vector<int>> barriers;
  int nl = leaves.size();
  if (nl <= (full ? 10 : 7)) for (int mask = 0; mask < (1 << nl); ++mask) {std::vector<int> b; for (int i = 0; i < nl; ++i) if (mask >> i & 1) b.push_back(i); barriers.push_back(b);}
  else {
    barriers.push_back({});
    for (int i = 0; i < nl; ++i) {
      barriers.push_back({i});
      if (full) for (int j = 0; j < i; ++j) barriers.push_back({j, i});
      std::vector<int> wall; // all leaves touching a coordinate plane through leaf i
      for (int d = 0; d < nd; ++d) {
        wall.clear(); int x = box(leaves[i], nd).lo[d];
        for (int j = 0; j < nl; ++j) {Box l = box(leaves[j], nd); if (l.lo[d] <= x && x < l.hi[d]) wall.push_back(j);}
        barriers.push_back(wall);
      }
    }
  }
  for (auto& bar : barriers) {
    for (size_t i = 0; i < cells.size(); ++i) {
      if (!full && nl > 7 && i%2) continue;
      root.clear_status();
      for (Tree* t : real) if (t->get_status() != Tree::unprocessed) FAIL("clear_status left a status");
      std::vector<int> want(nl, Tree::unprocessed);
      for (int b : bar) {leaf_ptr[b]->set_status(7); want[b] = 7;}
      int s = -1; // start leaf: the descendent leaf with the smallest coordinates
      for (size_t j = i; s < 0; ++j) for (int q = 0; q < nl; ++q) if (leaves[q] == cells[j]) s = q;
      std::queue<int> todo; if (want[s] == Tree::unprocessed) {want[s] = 3; todo.push(s);}
      while (!todo.empty()) {int q = todo.front(); todo.pop(); for (int a : adj[q]) if (want[a] == Tree::unprocessed) {want[a] = 3; todo.push(a);}}
      real[i]->flood_fill(3);
      for (int q = 0; q < nl; ++q) if (leaf_ptr[q]->get_status() != want[q]) {
        std::ostringstream o; for (int b : bar) o << str(leaves[b], nd) << ";";
        FAIL("flood fill from " << str(cells[i], nd) << " with barrier " << o.str() << " gave status " << leaf_ptr[q]->get_status() << " to " << str(leaves[q], nd) << ", expected " << want[q]);
      }
    }
  }
  root.clear_status();
  return true;
}

static Model parse(const std::string& s)
{
  auto t = vx::split(s); Model m; m.nd = atoi(t[0].c_str());
  for (size_t i = 1; i < t.size(); ++i) {auto f = vx::split(t[i], ','); Cell c{atoi(f[0].c_str()), {0,0,0}}; for (int d = 0; d < m.nd; ++d) c.c[d] = atoi(f[1 + d].c_str()); m.split.insert(c);}
  return m;
}
static int max_levels(int nd) {return nd == 1 ? (vx::thorough() ? 4 : 4) : nd == 2 ? 3 : (vx::thorough() ? 3 : 2);}

// executes one transition `op` from state `m` on a real tree; returns the successor
static bool step(const Model& m, const Cell& c, bool refine, Model& succ)
{
  std::string kase = m.key() + "|" + (refine ? "R " : "U ") + std::to_string(c.l); for (int d = 0; d < m.nd; ++d) kase += " " + std::to_string(c.c[d]);
  vx::begin_case(kase);
  auto t = realize(m);
  std::map<Cell, Tree*> before; {std::vector<Tree*> v; walk_real(*t, v); for (auto p : v) before[cell_of(*p)] = p;}
  // give every element a status so that the transition is seen to leave the others alone
  int k = 10; std::map<Tree*, int> st; for (auto& b : before) {b.second->set_status(k); st[b.second] = k++;}
  Tree* e = before[c];
  succ = m;
  if (refine) {
    succ.split.insert(c); e->refine();
    bool threw = false; try {e->refine();} catch (std::exception&) {threw = true;}
    if (!threw) {vx::fail(kase, "refining an element that is not a leaf did not raise an exception"); return false;}
  } else {succ.unsplit(c); e->unrefine();}
  for (auto& q : succ.all()) if (before.count(q)) {
    Tree* p = locate(*t, q, m.nd);
    if (p != before[q]) {vx::fail(kase, "a surviving element was reallocated"); return false;}
    if (p->get_status() != st[p]) {vx::fail(kase, "modifying one element changed the status of another"); return false;}
  }
  t->clear_status();
  ++vx::transitions;
  return check_tree(succ, *t, kase, max_levels(m.nd), vx::replaying || succ.split.size() <= 2);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  if (vx::replaying) {
    auto p = vx::split(vx::replay_case, '|'); Model m = parse(p[0]), s;
    auto f = vx::split(p[1]); Cell c{atoi(f[1].c_str()), {0,0,0}}; for (int d = 0; d < m.nd; ++d) c.c[d] = atoi(f[2 + d].c_str());
    step(m, c, f[0] == "R", s);
    return vx::finish();
  }
  for (int nd = 1; nd <= 3; ++nd) {
    const int max_split = vx::thorough() ? (nd == 1 ? 15 : nd == 2 ? 6 : 4) : (nd == 1 ? 15 : nd == 2 ? 4 : 3);
    std::set<std::string> seen; std::queue<Model> q; Model m0; m0.nd = nd;
    if (vx::shard == 0) {auto t = realize(m0); vx::begin_case(m0.key() + "|"); check_tree(m0, *t, "root", 2, true);}
    q.push(m0); seen.insert(m0.key()); int64_t idx = 0;
    while (!q.empty() && vx::violations.size() < 5) {
      Model m = q.front(); q.pop();
      vx::state(m.key()); vx::sample(m.key());
      bool mine = vx::mine(idx++);
      for (auto& c : m.all()) {
        Model s; bool refine = !m.is_split(c);
        if (refine && (c.l >= max_levels(nd) || int(m.split.size()) >= max_split)) continue;
        if (mine) step(m, c, refine, s); else {s = m; if (refine) s.split.insert(c); else s.unsplit(c);}
        if (seen.insert(s.key()).second) q.push(s);
      }
      if (mine) {auto t = realize(m); vx::outcome(m.key());}
    }
  }
  vx::validated = vx::transitions;
  return vx::finish();
}
