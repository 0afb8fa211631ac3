// Every bounded history of mesh adaptation on a block mesh, on the real mesher, against the reference semantics of
// meshlib.hpp.  State = leaf set; every transition re-executes its whole history on a fresh mesh.
#include <meshlib.hpp>
using namespace ml;

struct Op {std::set<Cell> ref, unref, lock;};
static const double root_sz = .8;
static const double origin[3] {.1, -.2, .3};

static std::string op_str(const Op& o, int nd)
{
  std::string s;
  for (auto& c : o.ref) s += "r" + str(c, nd) + " ";
  for (auto& c : o.unref) s += "u" + str(c, nd) + " ";
  for (auto& c : o.lock) s += "l" + str(c, nd) + " ";
  return s + ";";
}
static std::string case_str(int nd, const std::vector<Op>& ops) {std::string s = std::to_string(nd) + "|"; for (auto& o : ops) s += op_str(o, nd); return s;}

static bool apply(Accessible_mesh& mesh, const Op& o, int nd)
{
  mesh.set_unref_locks([&](Element& e) {return o.lock.count(cell_of(e, nd)) > 0;});
  return mesh.update([&](Element& e) {return o.ref.count(cell_of(e, nd)) > 0;}, [&](Element& e) {return o.unref.count(cell_of(e, nd)) > 0;});
}
// runs the history; the last transition is checked in full (the earlier ones were when they were last)
static bool run(int nd, const std::vector<Op>& ops, bool check_all)
{
  std::string kase = case_str(nd, ops);
  vx::begin_case(kase);
  Accessible_mesh mesh({2, nd + 2, nd, 2}, root_sz);
  std::vector<Flow_bc*> bcs; for (int i = 0; i < 2*nd; ++i) bcs.push_back(new Copy);
  mesh.add_tree(bcs, Mat<3>{origin[0], origin[1], origin[2]});
  Leaves s {{0, {0,0,0}}}; std::string why;
  for (size_t i = 0; i < ops.size(); ++i) {
    auto m = model_update(s, ops[i].ref, ops[i].unref, ops[i].lock, nd);
    bool ch = apply(mesh, ops[i], nd);
    bool last = i + 1 == ops.size();
    if (last || check_all) {
      if (!check_block_mesh(mesh, m.leaves, nd, root_sz, origin, why)) {vx::fail(kase, "after update " + std::to_string(i) + ": " + why); return false;}
      if (m.surely_changed && !ch) {vx::fail(kase, "update changed the mesh but reported no change"); return false;}
      if (m.surely_unchanged && ch) {vx::fail(kase, "update reported a change but did nothing"); return false;}
      // an update that asks for nothing does nothing
      if (apply(mesh, Op(), nd)) {vx::fail(kase, "an update that asks for nothing reported a change"); return false;}
      if (leaves_of(mesh, nd) != m.leaves) {vx::fail(kase, "an update that asks for nothing changed the mesh"); return false;}
    }
    s = m.leaves;
  }
  return true;
}

static std::vector<Op> choices(const Leaves& s, int nd, int max_level)
{
  std::vector<Op> r; std::vector<Cell> c(s.begin(), s.end()); int n = c.size();
  auto refinable = [&](const Cell& k) {return k.l < max_level;};
  std::set<Cell> parents; for (auto& k : c) if (k.l) parents.insert(parent(k));
  std::vector<std::vector<Cell>> groups;
  for (auto& p : parents) {std::vector<Cell> g; for (auto& k : children(p, nd)) if (s.count(k)) g.push_back(k); groups.push_back(g);}
  if (n <= (vx::thorough() ? 6 : 4)) { // every assignment of {nothing, refine, unrefine, both} to the elements
    int tot = 1; for (int i = 0; i < n; ++i) tot *= n <= 4 ? 4 : 3;
    int base = n <= 4 ? 4 : 3;
    for (int k = 0; k < tot; ++k) {
      Op o; bool ok = true;
      for (int i = 0, q = k; i < n; ++i, q /= base) {if (q%base == 1 || q%base == 3) {o.ref.insert(c[i]); ok = ok && refinable(c[i]);} if (q%base >= 2) o.unref.insert(c[i]);}
      if (ok) r.push_back(o);
    }
  } else {
    for (auto& k : c) if (refinable(k)) {Op o; o.ref.insert(k); r.push_back(o);}
    for (auto& g : groups) {
      Op o; for (auto& k : g) o.unref.insert(k); r.push_back(o);
      {Op p = o; p.lock.insert(g[0]); r.push_back(p);} {Op p = o; p.lock.insert(g.back()); r.push_back(p);}
      {Op p = o; p.ref.insert(g.back()); if (refinable(g.back())) r.push_back(p);} // one sibling asks for both
      {Op p = o; p.unref.erase(g[g.size()/2]); r.push_back(p);} // one sibling does not ask
      for (auto& k : c) if (refinable(k) && !o.unref.count(k)) {Op p = o; p.ref.insert(k); if (nd < 3 || k.l == max_level - 1) r.push_back(p);} // simultaneous
    }
    {Op o; for (auto& k : c) o.unref.insert(k); r.push_back(o);}
    {Op o; for (auto& k : c) if (refinable(k)) o.ref.insert(k); r.push_back(o);}
    for (int d = 0; d < nd; ++d) { // refine one half while unrefining the other
      Op o, p; for (auto& k : c) {bool up = box(k, nd).lo[d] >= (1 << (R - 1)); if (refinable(k) && up) {o.ref.insert(k);} else if (!up) o.unref.insert(k); if (!up && refinable(k)) p.ref.insert(k); else if (up) p.unref.insert(k);}
      r.push_back(o); r.push_back(p);
    }
  }
  return r;
}

static std::vector<Op> parse(const std::string& text, int& nd)
{
  nd = text[0] - '0'; std::vector<Op> ops;
  for (auto& o : vx::split(text.substr(2), ';')) {
    Op op; if (&o == nullptr) continue;
    for (auto& t : vx::split(o)) if (t.size() > 1) {
      Cell c{0, {0,0,0}}; size_t p = t.find(':'); c.l = atoi(t.substr(1, p - 1).c_str());
      auto f = vx::split(t.substr(p + 1), ','); for (int d = 0; d < nd; ++d) c.c[d] = atoi(f[d].c_str());
      (t[0] == 'r' ? op.ref : t[0] == 'u' ? op.unref : op.lock).insert(c);
    }
    ops.push_back(op);
  }
  ops.pop_back();
  return ops;
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  if (vx::replaying) {int nd; auto ops = parse(vx::replay_case, nd); run(nd, ops, true); return vx::finish();}
  bool T = vx::thorough();
  for (int nd = 1; nd <= 3; ++nd) {
    int max_level = nd == 1 ? 4 : nd == 2 ? 3 : (T ? 3 : 2);
    int max_states = nd == 1 ? 2000 : nd == 2 ? (T ? 6000 : 400) : (T ? 400 : 60);
    std::map<std::string, std::vector<Op>> path; std::queue<std::pair<Leaves, std::vector<Op>>> q;
    Leaves s0 {{0, {0,0,0}}}; q.push({s0, {}}); std::set<std::string> seen {key(s0, nd)}; int64_t idx = 0; int popped = 0;
    while (!q.empty() && popped < max_states && vx::violations.size() < 5) {
      auto [s, ops] = q.front(); q.pop(); ++popped;
      vx::state(std::to_string(nd) + key(s, nd));
      for (auto& o : choices(s, nd, max_level)) {
        auto nx = ops; nx.push_back(o);
        if (vx::mine(idx++)) {run(nd, nx, false); ++vx::transitions; if (vx::transitions%997 == 1) vx::sample(case_str(nd, nx));}
        auto m = model_update(s, o.ref, o.unref, o.lock, nd);
        bool deep = false; for (auto& c : m.leaves) deep = deep || c.l > max_level;
        vx::outcome(std::to_string(nd) + key(m.leaves, nd));
        if (!deep && seen.insert(key(m.leaves, nd)).second) q.push({m.leaves, nx});
      }
    }
    if (!q.empty()) vx::extra("frontier_states_left_" + std::to_string(nd) + "d", vx::shard == 0 ? q.size() : 0);
  }
  vx::validated = vx::evals;
  return vx::finish();
}
