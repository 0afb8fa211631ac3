// C16: every history of mutual pointers and of vertex handles, up to the number of slots, against reference models.
// Explicit-state search: a state is what the reference model says exists; every transition out of every state is executed
// on real objects (built by replaying the path to the state), and every observer is compared afterwards.
#include <vx.hpp>
#include <Mutual_ptr.hpp>
#include <Vertex.hpp>
#include <deque>
#include <map>
#include <memory>
#include <optional>
using namespace hexed;
typedef std::vector<int> Op;
static std::string op_str(const std::vector<Op>& path)
{
  std::string s; for (auto& o : path) {s += s.empty() ? "" : " "; for (size_t i = 0; i < o.size(); ++i) s += (i ? "," : "") + std::to_string(o[i]);}
  return s;
}
static std::vector<Op> str_op(const std::string& s)
{
  std::vector<Op> r; for (auto& t : vx::split(s)) if (!t.empty()) {Op o; for (auto& x : vx::split(t, ',')) o.push_back(atoi(x.c_str())); r.push_back(o);}
  return r;
}

//------------------------------------------------------------------ mutual pointers
// T and U are different types or the same one; slots [0, na) hold Mutual_ptr<T, U>, the rest Mutual_ptr<U, T>
template <typename T, typename U> struct Mut
{
  static constexpr bool same = std::is_same<T, U>::value;
  int na, nb;
  struct Slot {bool there = false; int mine = 0, partner = -1;};
  struct Model {std::vector<Slot> s;};
  Model start() const {Model m; m.s.resize(na + nb); return m;}
  int kind(int i) const {return i >= na;}
  std::string key(const Model& m) const {std::string k; for (auto& x : m.s) {k += char('0' + x.there); if (x.there) {k += char('0' + x.mine); k += char('a' + x.partner);}} return k;}
  // operations: 0 create slot data, 1 destroy, 2 pair i j, 3 unpair, 4 move-construct to from, 5 move-assign to from
  std::vector<Op> ops(const Model& m) const
  {
    std::vector<Op> r; int n = na + nb;
    for (int i = 0; i < n; ++i) {
      if (!m.s[i].there) {
        for (int d = 0; d < 2; ++d) r.push_back({0, i, d});
        for (int j = 0; j < n; ++j) if (m.s[j].there && kind(i) == kind(j)) r.push_back({4, i, j});
      } else {
        r.push_back({1, i}); r.push_back({3, i});
        for (int j = 0; j < n; ++j) if (m.s[j].there) {
          if ((same || kind(i) != kind(j)) && i != j) r.push_back({2, i, j});
          if (kind(i) == kind(j) && i != j) r.push_back({5, i, j});
        }
      }
    }
    return r;
  }
  void unpair(Model& m, int i) const {int p = m.s[i].partner; if (p >= 0) {m.s[p].partner = -1; m.s[i].partner = -1;}}
  void apply(Model& m, const Op& o) const
  {
    Slot& s = m.s[o[1]];
    switch (o[0]) {
      case 0: s = {true, o[2], -1}; break;
      case 1: unpair(m, o[1]); s = {}; break;
      case 2: unpair(m, o[1]); unpair(m, o[2]); s.partner = o[2]; m.s[o[2]].partner = o[1]; break;
      case 3: unpair(m, o[1]); break;
      case 4: case 5: {
        if (o[0] == 5) unpair(m, o[1]);
        int p = m.s[o[2]].partner; // after unpairing: moving from one's own partner breaks the pair
        unpair(m, o[2]);
        s.there = true; s.mine = m.s[o[2]].mine; s.partner = -1;
        if (p >= 0) {s.partner = p; m.s[p].partner = o[1];}
        break;
      }
    }
  }
  struct Real
  {
    T tdata[2]; U udata[2];
    std::vector<std::unique_ptr<Mutual_ptr<T, U>>> a; std::vector<std::unique_ptr<Mutual_ptr<U, T>>> b;
  };
  void apply(Real& r, const Op& o) const
  {
    int i = o[1];
    auto& A = r.a; auto& B = r.b;
    switch (o[0]) {
      case 0: if (kind(i)) B[i - na].reset(new Mutual_ptr<U, T>(&r.udata[o[2]])); else A[i].reset(new Mutual_ptr<T, U>(&r.tdata[o[2]])); break;
      case 1: if (kind(i)) B[i - na].reset(); else A[i].reset(); break;
      case 2:
        if constexpr (same) A[i]->pair(*A[o[2]]);
        else {if (kind(i)) B[i - na]->pair(*A[o[2]]); else A[i]->pair(*B[o[2] - na]);}
        break;
      case 3: if (kind(i)) B[i - na]->unpair(); else A[i]->unpair(); break;
      case 4: if (kind(i)) B[i - na].reset(new Mutual_ptr<U, T>(std::move(*B[o[2] - na]))); else A[i].reset(new Mutual_ptr<T, U>(std::move(*A[o[2]]))); break;
      case 5: if (kind(i)) *B[i - na] = std::move(*B[o[2] - na]); else *A[i] = std::move(*A[o[2]]); break;
    }
  }
  template <typename P, typename Q, typename M, typename N> std::string look(P& p, int partner, M* mine, N* theirs, Q* pp) const
  {
    if (&p.mine() != mine) return "`mine` is not its own object";
    if (bool(p) != (partner >= 0)) return "operator bool is wrong";
    if (p.partner() != pp) return "wrong partner";
    if (p.get() != theirs || static_cast<N*>(p) != theirs) return "`get` is wrong";
    if (partner >= 0) {
      if (&*p != theirs || p.operator->() != theirs || &p.value() != theirs) return "dereferencing is wrong";
      if (pp->partner() != &p) return "pairing is not mutual";
    } else {
      bool threw = false; try {p.value();} catch (std::exception&) {threw = true;}
      if (!threw) return "`value` of an unpaired pointer does not throw";
    }
    return "";
  }
  std::string check(Real& r, const Model& m) const
  {
    for (int i = 0; i < na + nb; ++i) if (m.s[i].there) {
      int p = m.s[i].partner; std::string e;
      if constexpr (same) e = look(*r.a[i], p, &r.tdata[m.s[i].mine], p >= 0 ? &r.tdata[m.s[p].mine] : nullptr, p >= 0 ? r.a[p].get() : nullptr);
      else if (kind(i)) e = look(*r.b[i - na], p, &r.udata[m.s[i].mine], p >= 0 ? &r.tdata[m.s[p].mine] : nullptr, p >= 0 ? r.a[p].get() : nullptr);
      else e = look(*r.a[i], p, &r.tdata[m.s[i].mine], p >= 0 ? &r.udata[m.s[p].mine] : nullptr, p >= 0 ? r.b[p - na].get() : nullptr);
      if (!e.empty()) return "pointer " + std::to_string(i) + ": " + e;
    }
    return "";
  }
  Real fresh() const {Real r; r.a.resize(na); r.b.resize(nb); return r;}
};

//------------------------------------------------------------------ vertices
struct Vert
{
  int nt, nn;
  struct Vtx {Mat<3> pos; std::vector<int> rec; std::set<int> nb;};
  struct Model
  {
    std::map<int, Vtx> v; int next = 0;
    std::vector<int> t, mob, ex; std::vector<double> val; // per handle: vertex or -1, mobile flag, value
    std::vector<int> n; // -2 does not exist, -1 null, else vertex
  };
  Model start() const {Model m; m.t.assign(nt, -1); m.mob.assign(nt, 0); m.ex.assign(nt, 0); m.val.assign(nt, 0.); m.n.assign(nn, -2); return m;}
  std::string key(const Model& m) const
  {
    std::map<int, int> id; std::string k;
    for (int i = 0; i < nt; ++i) {if (m.t[i] >= 0 && !id.count(m.t[i])) {int x = id.size(); id[m.t[i]] = x;} k += m.t[i] < 0 ? '-' : char('0' + id[m.t[i]]); k += char('0' + m.mob[i]);}
    for (auto& a : id) for (auto& b : id) if (a.second < b.second) k += char('0' + m.v.at(a.first).nb.count(b.first));
    for (int x : m.n) k += x < 0 ? char('A' - x) : char('0' + id[x]);
    return k;
  }
  // 0 create, 1 copy-construct to from, 2 destroy, 3 assign, 4 eat, 5 connect, 6 make observer n of t, 7 copy observer, 8 assign observer, 9 destroy observer, 10 nullify
  std::vector<Op> ops(const Model& m) const
  {
    std::vector<Op> r;
    for (int i = 0; i < nt; ++i) {
      if (m.t[i] < 0) {
        for (int mob : {0, 1}) r.push_back({0, i, mob});
        for (int j = 0; j < nt; ++j) if (m.t[j] >= 0) r.push_back({1, i, j});
      } else {
        r.push_back({2, i});
        for (int j = 0; j < nt; ++j) if (m.t[j] >= 0) {r.push_back({3, i, j}); r.push_back({4, i, j}); if (i <= j) r.push_back({5, i, j});}
        for (int k = 0; k < nn; ++k) if (m.n[k] == -2) r.push_back({6, k, i});
      }
    }
    for (int k = 0; k < nn; ++k) for (int l = 0; l < nn; ++l) if (m.n[l] != -2) {
      if (m.n[k] == -2) r.push_back({7, k, l}); else r.push_back({8, k, l});
    }
    for (int k = 0; k < nn; ++k) if (m.n[k] != -2) {r.push_back({9, k}); r.push_back({10, k});}
    return r;
  }
  int mass(const Model& m, int v) const {return std::count(m.t.begin(), m.t.end(), v);}
  void drop(Model& m, int v) const // the vertex goes when its last handle does
  {
    if (mass(m, v)) return;
    for (auto& x : m.v) x.second.nb.erase(v);
    m.v.erase(v);
    for (int& n : m.n) if (n == v) n = -1;
  }
  static Mat<3> pos0(int id) {return Mat<3>{1. + 3*id, .5*id*id - 2, -1./(1 + id)};}
  void apply(Model& m, const Op& o) const
  {
    int i = o[1];
    switch (o[0]) {
      case 0: {int id = m.next++; m.v[id] = {pos0(id), {id}, {}}; m.t[i] = id; m.mob[i] = o[2]; m.val[i] = i + 1; m.ex[i] = i%2; break;}
      case 1: m.t[i] = m.t[o[2]]; m.mob[i] = m.mob[o[2]]; m.val[i] = i + 1; m.ex[i] = i%2; break;
      case 2: {int v = m.t[i]; m.t[i] = -1; m.mob[i] = 0; drop(m, v); break;}
      case 3: {int v = m.t[i]; m.t[i] = m.t[o[2]]; drop(m, v); break;}
      case 4: {
        int a = m.t[i], b = m.t[o[2]]; if (a == b) break;
        double ma = mass(m, a), mb = mass(m, b); Vtx& A = m.v[a]; Vtx& B = m.v[b];
        A.pos = (ma*A.pos + mb*B.pos)/(ma + mb);
        for (int x : B.nb) if (x != a) {A.nb.insert(x); m.v[x].nb.insert(a);}
        A.rec.insert(A.rec.end(), B.rec.begin(), B.rec.end());
        for (int& t : m.t) if (t == b) t = a;
        drop(m, b); break;
      }
      case 5: {int a = m.t[i], b = m.t[o[2]]; if (a != b) {m.v[a].nb.insert(b); m.v[b].nb.insert(a);} break;}
      case 6: m.n[i] = m.t[o[2]]; break;
      case 7: case 8: m.n[i] = m.n[o[2]]; break;
      case 9: m.n[i] = -2; break;
      case 10: m.n[i] = -1; break;
    }
  }
  struct Real {std::vector<std::unique_ptr<Vertex::Transferable_ptr>> t; std::vector<std::unique_ptr<Vertex::Non_transferable_ptr>> n; int next = 0; std::string err;};
  Real fresh() const {Real r; r.t.resize(nt); r.n.resize(nn); return r;}
  void apply(Real& r, const Op& o) const
  {
    int i = o[1];
    auto mark = [&]() {r.t[i]->shareable_value = i + 1; r.t[i]->needs_smooth = i%2;};
    switch (o[0]) {
      case 0: {
        int id = r.next++; r.t[i].reset(new Vertex::Transferable_ptr(pos0(id), o[2])); (*r.t[i])->record.push_back(id);
        if (r.t[i]->shareable_value != 0) r.err = "value of a new handle is not 0";
        mark(); break;
      }
      case 1: {
        double v = r.t[o[2]]->shareable_value;
        // storage that is not zero, so that a member which is not initialised shows
        static_assert(std::is_same<double, decltype(r.t[i]->shareable_value)>::value);
        auto p = operator new(sizeof(Vertex::Transferable_ptr)); memset(p, 0x5a, sizeof(Vertex::Transferable_ptr));
        r.t[i].reset(new (p) Vertex::Transferable_ptr(*r.t[o[2]]));
        if (r.t[i]->shareable_value != v) r.err = "copy of a handle has the value " + std::to_string(r.t[i]->shareable_value) + " instead of " + std::to_string(v);
        mark(); break;
      }
      case 2: r.t[i].reset(); break;
      case 3: *r.t[i] = *r.t[o[2]]; break;
      case 4: (*r.t[i])->eat(**r.t[o[2]]); break;
      case 5: Vertex::connect(**r.t[i], **r.t[o[2]]); break;
      case 6: r.n[i].reset(new Vertex::Non_transferable_ptr(**r.t[o[2]])); break;
      case 7: r.n[i].reset(new Vertex::Non_transferable_ptr(*r.n[o[2]])); break;
      case 8: *r.n[i] = *r.n[o[2]]; break;
      case 9: r.n[i].reset(); break;
      case 10: r.n[i]->nullify(); break;
    }
  }
  std::string check(Real& r, const Model& m) const
  {
    if (!r.err.empty()) return r.err;
    std::map<int, Vertex*> addr;
    for (int i = 0; i < nt; ++i) if (m.t[i] >= 0) {
      Vertex& v = **r.t[i]; int id = m.t[i]; std::string at = "handle " + std::to_string(i) + ": ";
      if (addr.count(id)) {if (addr[id] != &v) return at + "merged handles refer to different vertices";}
      else {for (auto& a : addr) if (a.second == &v) return at + "distinct vertices have been confused"; addr[id] = &v;}
      const auto& cp = *r.t[i];
      if (r.t[i]->operator->() != &v || cp.operator->() != &v || &*cp != &v) return at + "ways of dereferencing disagree";
      if (v.mass() != mass(m, id)) return at + "mass is " + std::to_string(v.mass());
      auto& mv = m.v.at(id);
      if (!((v.pos - mv.pos).norm() < 1e-12*(1 + mv.pos.norm()))) return at + "vertex is not at the average position of its constituents";
      if (v.record != mv.rec) return at + "records are not the concatenation";
      bool mobile = true, smooth = false; double mx = -1e9, mn = 1e9, sum = 0;
      for (int j = 0; j < nt; ++j) if (m.t[j] == id) {mobile = mobile && m.mob[j]; smooth = smooth || m.ex[j]; mx = std::max(mx, m.val[j]); mn = std::min(mn, m.val[j]); sum += m.val[j];}
      if (r.t[i]->mobile != bool(m.mob[i])) return at + "mobility flag of the handle changed";
      if (v.is_mobile() != mobile) return at + "is_mobile is wrong";
      if (v.needs_smooth() != smooth) return at + "needs_smooth is wrong";
      if (r.t[i]->shareable_value != m.val[i]) return at + "value changed";
      if (v.shared_value() != mx || v.shared_value(Vertex::vector_min) != mn || v.shared_value([](Mat<> x) {return x.sum();}) != sum) return at + "shared value is not the reduction over its handles";
    }
    for (int i = 0; i < nt; ++i) if (m.t[i] >= 0) {
      std::set<Vertex*> want, got; for (int x : m.v.at(m.t[i]).nb) want.insert(addr.at(x));
      int n = 0; for (const Vertex& x : (*r.t[i])->get_neighbors()) {got.insert(const_cast<Vertex*>(&x)); ++n;}
      if (want != got || n != int(want.size())) return "handle " + std::to_string(i) + ": wrong neighbours";
      for (int j = 0; j < nt; ++j) if (m.t[j] >= 0) if (Vertex::are_neighbors(**r.t[i], **r.t[j]) != bool(m.v.at(m.t[i]).nb.count(m.t[j]))) return "are_neighbors is wrong";
    }
    for (int k = 0; k < nn; ++k) if (m.n[k] != -2) {
      if (bool(*r.n[k]) != (m.n[k] >= 0)) return "observer " + std::to_string(k) + (m.n[k] >= 0 ? " is null although its vertex exists" : " is not null although its vertex is gone");
      if (m.n[k] >= 0) {if (&**r.n[k] != addr.at(m.n[k]) || r.n[k]->operator->() != addr.at(m.n[k])) return "observer refers to the wrong vertex";}
      else if (r.n[k]->operator->()) return "null observer has a target";
    }
    return "";
  }
};

template <typename M> static void explore(const M& mach, std::string name, int64_t max_states, int max_depth)
{
  typedef typename M::Model Model;
  auto run = [&](const std::vector<Op>& path) -> std::string {
    Model m = mach.start(); std::string err;
    {
      auto r = mach.fresh();
      for (auto& o : path) {
        mach.apply(m, o); mach.apply(r, o);
        if (&o == &path.back() || vx::replaying) {err = mach.check(r, m); if (!err.empty()) break;}
      }
    }
    return err;
  };
  if (vx::replaying) {
    auto s = vx::split(vx::replay_case, ':'); if (s[0] != name) return;
    std::string e = run(str_op(s[1])); if (!e.empty()) vx::fail(vx::replay_case, e);
    return;
  }
  struct Node {Model m; std::vector<Op> path;};
  std::deque<Node> q; std::unordered_set<std::string> seen; int64_t idx = 0;
  q.push_back({mach.start(), {}}); seen.insert(mach.key(q[0].m));
  bool complete = true; int depth = 0;
  while (!q.empty()) {
    Node n = q.front(); q.pop_front(); depth = n.path.size();
    bool mine = vx::mine(idx++);
    if (mine) vx::state(name + mach.key(n.m));
    for (auto& o : mach.ops(n.m)) {
      auto path = n.path; path.push_back(o);
      if (mine) {
        std::string cs = name + ":" + op_str(path);
        vx::begin_case(cs); vx::outcome(cs); if (path.size() > 4) vx::sample(cs);
        std::string e = run(path);
        if (!e.empty()) vx::fail(cs, e);
        ++vx::transitions; ++vx::validated;
      }
      Model m = n.m; mach.apply(m, o);
      if (int(path.size()) >= max_depth || int64_t(seen.size()) >= max_states) {if (!seen.count(mach.key(m))) complete = false; continue;}
      if (seen.insert(mach.key(m)).second) q.push_back({m, path});
    }
  }
  if (vx::shard == 0) {vx::extra(name + "_states", seen.size()); vx::extra(name + "_complete", complete); vx::extra(name + "_depth", depth);}
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  bool t = vx::thorough();
  explore(Mut<int, char>{t ? 3 : 2, t ? 3 : 3}, "mutual", 1 << 22, 100);
  explore(Mut<int, int>{t ? 5 : 4, 0}, "mutual-same", 1 << 22, 100);
  explore(Vert{3, 2}, "vertex", 1 << 22, 100);
  explore(Vert{t ? 5 : 4, 1}, "vertex4", t ? 2000000 : 60000, 100);
  return vx::finish();
}
