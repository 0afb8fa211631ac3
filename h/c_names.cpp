// The complete state space of one variable name in a graph of four namespaces (child with two parents, one of which has
// a parent of its own): every operation in every state, on the real Namespace and through the real Interpreter.
#include <vx.hpp>
#include <Interpreter.hpp>
#include <memory>
#include <optional>
using hexed::Interpreter; using hexed::Namespace;

struct Var {char k = '-'; int i = 0; double d = 0; std::string s; bool ro = false; // k: - none, i, d, s
  bool operator==(const Var& o) const {return k == o.k && i == o.i && d == o.d && s == o.s && ro == o.ro;}};
static Var I(int i, bool ro = false) {Var v; v.k = 'i'; v.i = i; v.ro = ro; return v;}
static Var D(double d, bool ro = false) {Var v; v.k = 'd'; v.d = d; v.ro = ro; return v;}
static Var S(std::string s, bool ro = false) {Var v; v.k = 's'; v.s = s; v.ro = ro; return v;}
static std::string str(const Var& v) {return std::string(1, v.k) + (v.k == 'i' ? std::to_string(v.i) : v.k == 'd' ? std::to_string(v.d).substr(0, 3) : v.s) + (v.ro ? "!" : "");}
constexpr int NS = 4; // 0 child, 1 and 2 its parents, 3 parent of 1
static const std::vector<std::vector<int>> sup {{1, 2}, {3}, {}, {}};
typedef std::array<Var, NS> Model;
static const Var* visible(const Model& m, int s)
{
  if (m[s].k != '-') return &m[s];
  for (int p : sup[s]) if (auto v = visible(m, p)) return v;
  return nullptr;
}
static int evals_ro = 0;
struct Real {
  std::vector<std::shared_ptr<Namespace>> n;
  Real(const Model& m, int order)
  {
    for (int i = 0; i < NS; ++i) n.push_back(std::make_shared<Namespace>());
    for (int i = 0; i < NS; ++i) for (int p : sup[i]) n[i]->supers.push_back(n[p]);
    n[3]->assign<int>("w", 77); n[0]->assign<std::string>("v2", "other"); n[1]->assign<double>("w2", 2.5);
    for (int q = 0; q < NS; ++q) {
      int i = order ? NS - 1 - q : q; auto& v = m[i];
      if (v.k == 'i') {if (v.ro) ro(i, v); else {n[i]->assign<int>("v", v.i + 5); n[i]->assign<int>("v", v.i);}}
      if (v.k == 'd') {if (v.ro) ro(i, v); else if (v.d == int(v.d)) {n[i]->assign<double>("v", .125); n[i]->assign<int>("v", int(v.d));} else n[i]->assign<double>("v", v.d);}
      if (v.k == 's') {if (v.ro) ro(i, v); else n[i]->assign<std::string>("v", v.s);}
    }
  }
  void ro(int i, Var v)
  {
    if (v.k == 'i') n[i]->create<int>("v", new Namespace::Heisenberg<int>([v]() {++evals_ro; return v.i;}));
    if (v.k == 'd') n[i]->create<double>("v", new Namespace::Heisenberg<double>([v]() {++evals_ro; return v.d;}));
    if (v.k == 's') n[i]->create<std::string>("v", new Namespace::Heisenberg<std::string>([v]() {++evals_ro; return v.s;}));
  }
};
static bool check(const Model& m, Real& r, std::string& why)
{
  for (int i = 0; i < NS; ++i) {
    auto& n = *r.n[i]; auto v = visible(m, i); std::string at = " in space " + std::to_string(i);
    int before = evals_ro;
    if (n.exists("v") != (m[i].k != '-')) {why = "exists is wrong" + at; return false;}
    if (n.exists_recursive("v") != bool(v)) {why = "exists_recursive is wrong" + at; return false;}
    if (evals_ro != before) {why = "testing existence evaluated a computed variable"; return false;}
    auto a = n.lookup<int>("v");
    if (v && v->ro && evals_ro != before + (v->k == 'i')) {why = "looking up a computed variable evaluated it " + std::to_string(evals_ro - before) + " times" + at; return false;}
    auto b = n.lookup<double>("v"); auto c = n.lookup<std::string>("v");
    bool oi = v && v->k == 'i', od = v && (v->k == 'i' || v->k == 'd'), os = v && v->k == 's';
    if (bool(a) != oi || (oi && *a != v->i)) {why = "integer lookup is wrong" + at; return false;}
    if (bool(b) != od || (od && *b != (v->k == 'i' ? v->i : v->d))) {why = "float lookup is wrong" + at; return false;}
    if (bool(c) != os || (os && *c != v->s)) {why = "string lookup is wrong" + at; return false;}
    bool w = i != 2; // "w" is defined in space 3 only
    if (n.exists_recursive("w") != w || n.lookup<int>("w").value_or(-1) != (w ? 77 : -1) || n.exists("w") != (i == 3)) {why = "an unrelated variable is affected" + at; return false;}
    if (n.exists_recursive("v2") != (i == 0) || n.lookup<std::string>("v2").value_or("") != (i == 0 ? "other" : "")) {why = "an unrelated variable is affected" + at; return false;}
    if (n.lookup<double>("w2").value_or(0) != (i < 2 ? 2.5 : 0) || n.lookup<int>("w2")) {why = "an unrelated variable is affected" + at; return false;}
  }
  return true;
}
// reference semantics; returns whether the operation is accepted
static bool assign(Model& m, int s, const Var& x)
{
  Var& v = m[s];
  if (v.k == '-') {v = x; return true;}
  if (v.ro) return false;
  if (v.k == x.k) {v = x; return true;}
  if (v.k == 'd' && x.k == 'i') {v = D(x.i); return true;}
  return false;
}
static std::string mstr(const Model& m) {std::string s; for (auto& v : m) s += str(v) + " "; return s;}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  std::vector<Var> vals {I(1), I(2), D(.5), D(3.), S("a"), S("b")};
  std::vector<Var> locals {Var(), I(1), I(2), D(.5), D(3.), D(1.), S("a"), S("b"), I(4, true), D(1.5, true), S("c", true)};
  if (vx::thorough()) {locals.push_back(D(2.)); locals.push_back(I(0)); locals.push_back(S(""));}
  Interpreter base_inter(std::vector<std::string>{}); auto root = base_inter.variables;
  int64_t idx = 0; int L = locals.size(); int64_t N = 1; for (int i = 0; i < NS; ++i) N *= L;
  for (int64_t k = 0; k < N; ++k) {
    if (!vx::mine(k)) continue;
    Model m; int64_t q = k; for (auto& v : m) {v = locals[q%L]; q /= L;}
    std::string st = mstr(m);
    if (vx::replaying && vx::replay_case.compare(0, st.size(), st)) continue;
    vx::state(st);
    std::string why;
    for (int order = 0; order < 2; ++order) {vx::begin_case(st); Real r(m, order); if (!check(m, r, why)) {vx::fail(st, why); break;}}
    for (int s = 0; s < NS; ++s) for (auto& x : vals) for (int op = 0; op < 5; ++op) {
      std::string kase = st + "| " + std::to_string(s) + " " + str(x) + " " + std::to_string(op);
      if (vx::replaying && kase != vx::replay_case && st != vx::replay_case) continue;
      vx::begin_case(kase); ++vx::transitions;
      if (vx::transitions%50021 == 1) vx::sample(kase);
      Model want = m; bool ok = true; bool threw = false;
      Real r(m, 0); auto& n = r.n[s];
      if (op == 0) ok = assign(want, s, x);
      if (op == 1 && !visible(want, s)) ok = assign(want, s, x);
      if (op == 2 || op == 3) {ok = want[s].k == '-'; if (ok) {want[s] = x; want[s].ro = op == 3;}}
      if (op == 4) ok = assign(want, s, x);
      try {
        if (op == 0) {if (x.k == 'i') n->assign<int>("v", x.i); if (x.k == 'd') n->assign<double>("v", x.d); if (x.k == 's') n->assign<std::string>("v", x.s);}
        if (op == 1) {if (x.k == 'i') n->assign_default<int>("v", x.i); if (x.k == 'd') n->assign_default<double>("v", x.d); if (x.k == 's') n->assign_default<std::string>("v", x.s);}
        if (op == 2) {if (x.k == 'i') n->create<int>("v", new Namespace::Value<int>(x.i)); if (x.k == 'd') n->create<double>("v", new Namespace::Value<double>(x.d)); if (x.k == 's') n->create<std::string>("v", new Namespace::Value<std::string>(x.s));}
        if (op == 3) r.ro(s, x);
        if (op == 4) { // the same assignment written in HIL
          auto extra = std::make_shared<Namespace>(); // (the interpreter wants its error-handling variables)
          Interpreter in(std::vector<std::string>{}); n->supers.push_back(in.variables); in.variables = n;
          std::string lit = x.k == 'i' ? std::to_string(x.i) : x.k == 'd' ? (x.d == 3. ? "3." : ".5") : "{" + x.s + "}";
          try {in.exec("  v=" + lit);} catch (...) {n->supers.pop_back(); throw;}
          n->supers.pop_back();
        }
      } catch (const std::exception&) {threw = true;}
      if (threw == ok) vx::fail(kase, ok ? "operation should be accepted but is rejected" : "operation should be rejected but is accepted");
      else if (!check(want, r, why)) vx::fail(kase, std::string(ok ? "after the operation: " : "after the rejected operation: ") + why);
      vx::outcome(mstr(want));
    }
    // reading through the interpreter: value and type are those of the visible variable, or an error
    for (int s = 0; s < NS; ++s) {
      std::string kase = st + "> " + std::to_string(s);
      if (vx::replaying && kase != vx::replay_case && st != vx::replay_case) continue;
      vx::begin_case(kase); ++vx::transitions;
      Real r(m, 1); auto v = visible(m, s);
      Interpreter in(std::vector<std::string>{}); auto own = in.variables; own->supers.push_back(r.n[s]); bool threw = false;
      Interpreter sub(std::vector<std::string>{}); sub.variables->supers.push_back(own);
      for (auto* it : {&in, &sub}) {
        threw = false;
        try {it->exec("r = v; v = r");} catch (const Interpreter::Hil_unhandled_exception&) {threw = true;}
        auto& u = *it->variables;
        for (std::string name : {"r", "v"}) {
          auto a = u.lookup<int>(name); auto b = u.lookup<double>(name); auto c = u.lookup<std::string>(name);
          bool good = threw == !v && (!v || (bool(a) == (v->k == 'i') && bool(c) == (v->k == 's') && (v->k != 'i' || *a == v->i) && (v->k != 'd' || (b && *b == v->d)) && (v->k != 's' || *c == v->s)));
          if (!good) {vx::fail(kase, "reading the variable through the interpreter gives the wrong value, type or error"); break;}
        }
      }
      if (!check(m, r, why)) vx::fail(kase, "reading and shadowing in a sub-interpreter modified its parents: " + why);
    }
  }
  // sub-interpreters of sub-interpreters see everything above them and modify nothing
  vx::begin_case("nested sub-interpreters");
  if (vx::shard == 0) {
    Interpreter a(std::vector<std::string>{}); a.exec("x = 1; y = .5; t = {s}");
    Interpreter b = a.make_sub(); Interpreter c = b.make_sub(); Interpreter d = c.make_sub();
    bool ok = true;
    try {d.exec("x1 = x + 1; y = y + x; t = t + t; x = {now a string}"); c.exec("q = x + y"); b.exec("z = x; exit; z = 3");} catch (const std::exception& e) {ok = false;}
    ok = ok && d.variables->lookup<int>("x1").value_or(0) == 2 && d.variables->lookup<double>("y").value_or(0) == 1.5 && d.variables->lookup<std::string>("t").value_or("") == "ss" && d.variables->lookup<std::string>("x").value_or("") == "now a string";
    ok = ok && a.variables->lookup<int>("x").value_or(0) == 1 && c.variables->lookup<double>("q").value_or(0) == 1.5 && b.variables->lookup<int>("z").value_or(0) == 1 && !a.variables->exists("z") && !c.variables->exists("x1") && a.variables->lookup<double>("y").value_or(0) == .5;
    if (!ok) vx::fail("nested sub-interpreters", "scoping through three levels of sub-interpreters is wrong");
  }
  vx::validated = vx::evals;
  return vx::finish();
}
