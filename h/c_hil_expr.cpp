// Every HIL expression up to a size bound, on the real interpreter, against an evaluator that works by repeatedly
// reducing the token list one precedence level at a time (the interpreter climbs precedence recursively).
#include <vx.hpp>
#include <Interpreter.hpp>
#include <memory>
#include <optional>
using hexed::Interpreter; using hexed::Namespace;

struct Val {
  int kind = -1; // 0 int 1 float 2 string
  long long i = 0; double d = 0; std::string s;
  static Val I(long long x) {Val v; v.kind = 0; v.i = x; return v;}
  static Val D(double x) {Val v; v.kind = 1; v.d = x; return v;}
  static Val S(std::string x) {Val v; v.kind = 2; v.s = x; return v;}
  double num() const {return kind == 0 ? double(i) : d;}
};
struct Err {}; struct Skip {};
struct Tok; typedef std::vector<Tok> Toks;
struct Tok {
  enum K {ATOM, UN, BIN, PAREN, ASSIGN} k; std::string text; Val val; std::shared_ptr<Toks> sub;
  std::shared_ptr<Toks> splice; // text is a macro substitution; reads as these tokens
};
static std::string printed; static std::map<std::string, Val> assigned;
static long long chk(long long x) {if (x > 2147483647ll || x < -2147483648ll) throw Skip(); return x;}
static std::string fmt(double d) {char b [400]; snprintf(b, 400, "%g", d); return b;}
static std::string to_str(const Val& v) {return v.kind == 0 ? std::to_string(v.i) : v.kind == 1 ? fmt(v.d) : v.s;}
static Val to_int(double d) {if (!(std::abs(d) < 2e9)) throw Skip(); return Val::I((long long)d);}

static Val unary(const std::string& op, const Val& v)
{
  static const std::map<std::string, double(*)(double)> f {{"sqrt", std::sqrt}, {"exp", std::exp}, {"log", std::log}, {"sin", std::sin},
    {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}};
  if (op == "print" || op == "println") {printed += to_str(v) + (op == "println" ? "\n" : ""); return Val::S("");}
  if (op == "#") {if (v.kind != 2) throw Err(); return Val::I(v.s.size());}
  if (v.kind == 2) throw Err();
  if (op == "-") return v.kind ? Val::D(-v.d) : Val::I(chk(-v.i));
  if (op == "!") {if (v.kind) throw Err(); return Val::I(v.i == 0);}
  if (op == "abs") return v.kind ? Val::D(std::fabs(v.d)) : Val::I(v.i < 0 ? -v.i : v.i);
  if (op == "floor") return to_int(std::floor(v.num()));
  if (op == "ceil") return to_int(std::ceil(v.num()));
  if (op == "round") {double n = v.num(), t = std::trunc(n); return to_int(std::abs(n - t) >= .5 ? t + (n < 0 ? -1 : 1) : t);}
  return Val::D(f.at(op)(v.num()));
}
static Val binary(const std::string& op, const Val& a, const Val& b)
{
  if (op == "+" && (a.kind == 2 || b.kind == 2)) return Val::S(to_str(a) + to_str(b));
  if (op == "#") {
    if (a.kind != 2 || b.kind != 0) throw Err();
    if (b.i < 0 || b.i >= (long long)a.s.size()) throw Err();
    return Val::S(a.s.substr(b.i, 1));
  }
  if (op == "==" || op == "!=") {
    if ((a.kind == 2) != (b.kind == 2)) throw Err();
    bool eq = a.kind == 2 ? a.s == b.s : a.kind == 0 && b.kind == 0 ? a.i == b.i : a.num() == b.num();
    return Val::I(eq == (op == "=="));
  }
  if (a.kind == 2 || b.kind == 2) throw Err();
  bool ints = a.kind == 0 && b.kind == 0;
  if (op == "%") {if (!ints || !b.i) throw Err(); return Val::I(a.i%b.i);}
  double x = a.num(), y = b.num();
  if (op == ">") return Val::I(x > y);
  if (op == "<") return Val::I(x < y);
  if (op == ">=") return Val::I(x >= y);
  if (op == "<=") return Val::I(x <= y);
  if (op == "&") return Val::I(x != 0 && y != 0);
  if (op == "|") return Val::I(x != 0 || y != 0);
  if (ints) {
    if (op == "+") return Val::I(chk(a.i + b.i));
    if (op == "-") return Val::I(chk(a.i - b.i));
    if (op == "*") return Val::I(chk(a.i*b.i));
    if (op == "/") {if (!b.i) throw Err(); return Val::I(a.i/b.i);}
    if (std::abs(b.i) > 1000) throw Skip(); // takes the interpreter time proportional to the exponent
    if (b.i < 0) {
      if (!a.i) throw Err();
      return Val::I(a.i == 1 ? 1 : a.i == -1 ? (b.i%2 ? -1 : 1) : 0);
    }
    long long r = 1; for (int k = 0; k < b.i; ++k) r = chk(r*a.i); return Val::I(r);
  }
  if (op == "+") return Val::D(x + y);
  if (op == "-") return Val::D(x - y);
  if (op == "*") return Val::D(x*y);
  if (op == "/") return Val::D(x/y);
  return Val::D(std::pow(x, y));
}
static int level(const std::string& op)
{
  static const std::map<std::string, int> l {{"^",1},{"#",1},{"%",2},{"/",2},{"*",2},{"-",3},{"+",3},{"==",4},{"!=",4},{">=",4},{"<=",4},{">",4},{"<",4},{"&",5},{"|",5}};
  return l.at(op);
}
static Val reduce(const Toks& in)
{
  Toks t;
  for (auto& k : in) if (k.splice) for (auto& q : *k.splice) t.push_back(q); else t.push_back(k);
  // an assignment takes everything to its right
  for (size_t i = 0; i < t.size(); ++i) if (t[i].k == Tok::ASSIGN) {
    Val v = reduce(Toks(t.begin() + i + 1, t.end()));
    std::string name = t[i].text;
    assigned[name] = v;
    Toks r(t.begin(), t.begin() + i); Tok a; a.k = Tok::ATOM; a.val = v; r.push_back(a);
    t = r; break;
  }
  std::vector<Val> v; std::vector<std::string> ops;
  for (size_t i = 0; i < t.size();) {
    std::vector<std::string> un;
    while (t[i].k == Tok::UN) un.push_back(t[i++].text);
    Val x = t[i].k == Tok::PAREN ? reduce(*t[i].sub) : t[i].val; ++i;
    for (int j = un.size() - 1; j >= 0; --j) x = unary(un[j], x);
    v.push_back(x);
    if (i < t.size()) ops.push_back(t[i++].text);
  }
  for (int l = 1; l <= 5; ++l) for (size_t i = 0; i < ops.size();) {
    if (level(ops[i]) == l) {
      v[i] = binary(ops[i], v[i], v[i + 1]);
      v.erase(v.begin() + i + 1); ops.erase(ops.begin() + i);
    } else ++i;
  }
  return v[0];
}
static std::string text(const Toks& t, bool spaced)
{
  std::string s;
  for (auto& k : t) {
    if (k.k == Tok::PAREN) s += spaced ? "( " + text(*k.sub, spaced) + " )" : "(" + text(*k.sub, spaced) + ")";
    else if (k.k == Tok::ASSIGN) s += spaced ? k.text + " = " : k.text + "=";
    else if (k.k == Tok::BIN) s += spaced ? " " + k.text + " " : k.text;
    else if (k.k == Tok::UN) s += k.text + (isalpha(k.text[0]) || spaced ? " " : "");
    else s += k.text;
  }
  return s;
}
struct Cap : hexed::Printer {std::string out; void print(std::string s) override {out += s;}};
static std::shared_ptr<Interpreter> inter; static std::shared_ptr<Namespace> base; static Cap* cap;
static std::string denan(std::string s) {size_t p; while ((p = s.find("-nan")) != std::string::npos) s.erase(p, 1); return s;}

static std::string show(const Val& v) {return v.kind == 0 ? "int " + std::to_string(v.i) : v.kind == 1 ? "float " + fmt(v.d) : v.kind == 2 ? "string {" + v.s + "}" : "nothing";}
static Val look(Namespace& n, const std::string& name)
{
  Val v;
  auto i = n.lookup<int>(name); auto d = n.lookup<double>(name); auto s = n.lookup<std::string>(name);
  if (i) v = Val::I(*i); else if (d) v = Val::D(*d); else if (s) v = Val::S(*s);
  return v;
}
static bool same(const Val& a, const Val& b)
{
  if (a.kind != b.kind) return false;
  if (a.kind == 0) return a.i == b.i;
  if (a.kind == 1) return (std::isnan(a.d) && std::isnan(b.d)) || a.d == b.d || std::abs(a.d - b.d) <= 1e-14*std::abs(b.d);
  return denan(a.s) == denan(b.s);
}
// runs one statement and compares with the expectation
static void judge(const std::string& code, const std::string& kase, std::optional<Val> want, const std::string& out, const std::map<std::string, Val>& assigns)
{
  auto child = std::make_shared<Namespace>(); child->supers.push_back(base);
  inter->variables = child; cap->out.clear();
  bool threw = false; std::string what;
  try {inter->exec(code);}
  catch (const Interpreter::Hil_unhandled_exception& e) {threw = true; what = e.what();}
  catch (const std::exception& e) {vx::fail(kase, std::string("`") + code + "` raised something other than a HIL error: " + e.what()); return;}
  if (!want) {
    vx::outcome("error");
    if (!threw) vx::fail(kase, "`" + code + "` should be rejected but yields " + show(look(*child, "result")));
    else if (child->exists("result")) vx::fail(kase, "`" + code + "` is rejected but still assigns " + show(look(*child, "result")));
    return;
  }
  vx::outcome(show(*want));
  if (threw) {vx::fail(kase, "`" + code + "` should be " + show(*want) + " but is rejected: " + what.substr(0, 300)); return;}
  Val got; if (child->exists("result")) got = look(*child, "result");
  if (!same(got, *want)) vx::fail(kase, "`" + code + "` should be " + show(*want) + " but is " + show(got));
  if (denan(cap->out) != denan(out)) vx::fail(kase, "`" + code + "` printed {" + cap->out + "} instead of {" + out + "}");
  for (auto& a : assigns) if (!same(look(*child, a.first), a.second)) vx::fail(kase, "`" + code + "` assigns " + show(look(*child, a.first)) + " to " + a.first + " instead of " + show(a.second));
}
static int64_t idx = 0; static std::string only;
static void test(const Toks& t, int styles = 1)
{
  for (int style = 0; style < styles; ++style) {
    if (!vx::mine(idx++)) continue;
    std::string code = "result = " + text(t, style == 0);
    if (vx::replaying && code != only) continue;
    vx::begin_case(code); ++vx::transitions;
    if (vx::evals%50021 == 1) vx::sample(code);
    printed.clear(); assigned.clear(); std::optional<Val> want;
    try {want = reduce(t);} catch (Err) {} catch (Skip) {vx::extra("unspecified_by_documentation", 1); continue;}
    vx::state(code);
    judge(code, code, want, printed, assigned);
  }
}
static Tok atom(std::string s, Val v) {Tok t; t.k = Tok::ATOM; t.text = s; t.val = v; return t;}
static Tok un(std::string s) {Tok t; t.k = Tok::UN; t.text = s; return t;}
static Tok bin(std::string s) {Tok t; t.k = Tok::BIN; t.text = s; return t;}
static Tok paren(Toks s) {Tok t; t.k = Tok::PAREN; t.sub = std::make_shared<Toks>(s); return t;}
static Tok assign(std::string s) {Tok t; t.k = Tok::ASSIGN; t.text = s; return t;}
static Tok macro(std::string s, Toks reads_as) {Tok t; t.k = Tok::ATOM; t.text = s; t.splice = std::make_shared<Toks>(reads_as); return t;}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  if (vx::replaying) only = vx::replay_case;
  bool T = vx::thorough();
  inter = std::make_shared<Interpreter>(std::vector<std::string>{});
  base = inter->variables; cap = new Cap; inter->printer.reset(cap);
  base->assign<int>("i", 3); base->assign<double>("d", .5); base->assign<std::string>("s", "xy"); base->assign<int>("_n0", -4);
  base->assign<std::string>("m", "1 + 1"); base->assign<std::string>("sqrtx", "2*");
  std::vector<std::string> bops {"^","#","%","/","*","-","+","==","!=",">=","<=",">","<","&","|"};
  std::vector<std::string> uops {"-","!","#","sqrt","exp","log","sin","cos","tan","asin","acos","atan","floor","ceil","round","abs","print","println"};
  std::vector<Tok> atoms {atom("0", Val::I(0)), atom("1", Val::I(1)), atom("2", Val::I(2)), atom("7", Val::I(7)), atom("012", Val::I(12)), atom("2147483647", Val::I(2147483647)),
    atom("1.5", Val::D(1.5)), atom("4.", Val::D(4.)), atom(".25", Val::D(.25)), atom("5e-1", Val::D(.5)), atom("5E+2", Val::D(500)), atom("3e2", Val::D(300.)), atom("0.", Val::D(0.)), atom("2.5", Val::D(2.5)), atom("3.5", Val::D(3.5)),
    atom("{}", Val::S("")), atom("{a}", Val::S("a")), atom("{ab;c}", Val::S("ab;c")), atom("{{x}}", Val::S("{x}")), atom("{\\}\\\\\\{}", Val::S("}\\{")), atom("{$ m\n}", Val::S("$ m\n")), atom("{1 + 1}", Val::S("1 + 1")), atom("{\\\\\\\\}", Val::S("\\\\")), atom("{a\\{b}", Val::S("a{b")),
    atom("i", Val::I(3)), atom("d", Val::D(.5)), atom("s", Val::S("xy")), atom("_n0", Val::I(-4)), atom("sqrtx", Val::S("2*")),
    macro("$m", {atom("1", Val::I(1)), bin("+"), atom("1", Val::I(1))}), macro("${2*3}", {atom("2", Val::I(2)), bin("*"), atom("3", Val::I(3))}), macro("${-}2", {un("-"), atom("2", Val::I(2))}),
    macro("${(${m} + {})}", {paren({atom("m", Val::S("1 + 1")), bin("+"), atom("{}", Val::S(""))})}), macro("$${m}", {atom("1", Val::I(1)), bin("+"), atom("1", Val::I(1))})};
  // 1 operand: all chains of up to 3 unary operators
  for (auto& a : atoms) {
    test({a}, 2); test({paren({a})}, 2); test({paren({paren({a})})}, 2);
    for (auto& u : uops) {
      test({un(u), a}, 2); test({un(u), paren({a})}, 2);
      for (auto& w : uops) {
        test({un(u), un(w), a}, 2); test({un(u), paren({un(w), a})}, 2);
        for (auto& x : uops) test({un(u), un(w), un(x), a});
      }
    }
  }
  // 2 operands
  std::vector<std::string> us {"", "-", "!", "#", "sqrt", "floor", "abs"};
  auto app = [](Toks& t, const std::string& u, const Tok& a) {if (!u.empty()) t.push_back(un(u)); t.push_back(a);};
  for (auto& a : atoms) for (auto& b : atoms) for (auto& o : bops) for (auto& u : us) for (auto& w : us) {
    if (u != "" && w != "" && &a - &atoms[0] > 16 && &b - &atoms[0] > 16) continue;
    Toks t; app(t, u, a); t.push_back(bin(o)); app(t, w, b); test(t, u == "" || w == "" ? 2 : 1);
    if (w == "") {Toks p; if (u != "") p.push_back(un(u)); p.push_back(paren({a, bin(o), b})); test(p);}
  }
  // assignments inside expressions
  for (auto& a : atoms) for (auto& b : atoms) {
    test({assign("v"), a}, 2); test({assign("v"), assign("w"), a}, 2);
    for (auto& o : bops) {
      test({assign("v"), a, bin(o), b}, 2);
      test({a, bin(o), assign("v"), b}); test({paren({assign("v"), a}), bin(o), b}, 2); test({a, bin(o), paren({assign("v"), b})});
      test({a, bin(o), assign("v"), b, bin("+"), a}); test({a, bin(o), assign("v"), b, bin("=="), a});
    }
  }
  // 3 operands, all operator pairs, all groupings
  std::vector<Tok> a3 {atoms[0], atoms[2], atoms[3], atoms[6], atoms[8], atoms[15], atoms[17], atoms[24], atoms[29]};
  for (auto& a : a3) for (auto& b : a3) for (auto& c : a3) for (auto& o : bops) for (auto& p : bops) {
    test({a, bin(o), b, bin(p), c});
    test({paren({a, bin(o), b}), bin(p), c}); test({a, bin(o), paren({b, bin(p), c})});
    test({un("-"), a, bin(o), b, bin(p), c}); test({a, bin(o), un("-"), b, bin(p), c});
    if (T) {test({a, bin(o), b, bin(p), un("!"), c}); test({a, bin(o), un("-"), paren({b, bin(p), c})}); test({assign("v"), a, bin(o), b, bin(p), c}); test({a, bin(o), assign("v"), b, bin(p), c});}
  }
  // 4 operands, all operator triples
  std::vector<Tok> a4 {atoms[2], atoms[13], atoms[17]}; if (T) {a4.push_back(atoms[1]); a4.push_back(atoms[24]);}
  for (auto& a : a4) for (auto& b : a4) for (auto& c : a4) for (auto& e : a4) for (auto& o : bops) for (auto& p : bops) for (auto& q : bops) {
    test({a, bin(o), b, bin(p), c, bin(q), e});
    test({paren({a, bin(o), b}), bin(p), paren({c, bin(q), e})});
    if (T) {test({a, bin(o), paren({b, bin(p), c}), bin(q), e}); test({a, bin(o), paren({b, bin(p), c, bin(q), e})}); test({paren({a, bin(o), b, bin(p), c}), bin(q), e});}
  }
  // 5 operands over numbers only, all operator quadruples
  std::vector<Tok> a5 {atoms[2]};
  for (auto& o : bops) for (auto& p : bops) for (auto& q : bops) for (auto& r : bops)
    for (int k = 0; k < (T ? 32 : 4); ++k) {
      auto pick = [&](int j) {return ((T ? k : (k*11)) >> j) & 1 ? atoms[7] : atoms[3];};
      test({pick(0), bin(o), pick(1), bin(p), pick(2), bin(q), pick(3), bin(r), pick(4)});
    }
  // sequences of statements evaluate to the last one
  for (auto& a : atoms) for (auto& b : atoms) for (std::string sep : {";", "\n", " ; ", ";\n"}) if (vx::mine(idx++)) {
    std::string code = "result = (" + text({a}, true) + sep + text({b}, true) + ")";
    if (vx::replaying && code != only) continue;
    vx::begin_case(code); ++vx::transitions; printed.clear(); assigned.clear(); std::optional<Val> want;
    try {reduce({a}); want = reduce({b});} catch (Err) {} catch (Skip) {continue;}
    judge(code, code, want, printed, assigned);
  }
  // a missing operand is never silently accepted
  for (auto& a : atoms) for (auto& o : bops) for (std::string f : {"result = $A $O", "result = $A $O ;", "result = ($A $O)", "result = $A $O\n{z}", "result = () $O $A", "result = $A $O ()"}) if (vx::mine(idx++)) {
    std::string code; for (size_t i = 0; i < f.size(); ++i) if (f[i] == '$') {code += f[++i] == 'A' ? text({a}, true) : o;} else code += f[i];
    if (o == "+") continue; // concatenation with nothing is used as a no-op by the standard library
    if (vx::replaying && code != only) continue;
    vx::begin_case(code); ++vx::transitions;
    judge(code, code, {}, "", {});
  }
  vx::validated = vx::evals;
  return vx::finish();
}
