// Every HIL program up to a size bound built from conditionals, loops, macro calls, nested statement sequences, handled
// errors and `exit`, run by the real interpreter with the real standard library and compared with a structural
// interpreter of the same syntax tree.  Also every bounded REPL session and every bounded use of `split`.
#include <vx.hpp>
#include <Interpreter.hpp>
#include <memory>
using hexed::Interpreter; using hexed::Namespace;

enum Kind {P, ERR, EXIT, IF0, IF1, IFP, LOOP0, LOOP1, LOOP3, CALL, SEQ, NKIND};
struct Node; typedef std::vector<Node> Body;
struct Node {int kind; Body body; int id = 0;};
struct Exit {};
static int styles_total = 4;

static std::string shape(const Body& b)
{
  static const char* n [] {"p", "e", "x", "i0", "i1", "ip", "l0", "l1", "l3", "c", "s"};
  std::string s; for (auto& k : b) {s += n[k.kind]; if (k.kind >= IF0) s += "[" + shape(k.body) + "]";} return s;
}
static void number(Body& b, int& n) {for (auto& k : b) {k.id = n++; number(k.body, n);}}
static std::string render(const Body& b, int depth, int style, const std::string& counter)
{
  std::string sep = style == 1 ? "; " : style == 2 ? " ;\n" : "\n";
  std::string s;
  for (auto& k : b) {
    std::string id = std::to_string(k.id);
    if (style == 3) s += "{a comment\n; $nothing {x}};";
    auto sub = [&](const std::string& c) {return render(k.body, depth + 1, style, c);};
    switch (k.kind) {
      case P: s += k.id%2 ? "tr = tr + {p" + id + ",}" : "print {p" + id + ",}"; break;
      case ERR: {
        static const char* bad [] {"undefined_thing", "x1 = 1 + undefined_thing*2 + (3)", "x2 = {a}*2", "$(5)", "x3 = 1/0", "sqrt {a}", "tr = 4", "1 + ", ") 5"};
        s += "except = {tr = tr + {e" + id + ":} + (#exception > 0) + {,}}" + sep + bad[k.id%9]; break;
      }
      case EXIT: s += "exit"; break;
      case IF0: case IF1: case IFP: {
        std::string c = k.kind == IF0 ? "0" : k.kind == IF1 ? "3" : counter.empty() ? "1" : counter + "%2";
        s += "case1 = {" + sub(counter) + "}" + sep + "case0 = {tr = tr + {n" + id + ",}}" + sep + "$$({case} + (" + c + " != 0))"; break;
      }
      case LOOP0: case LOOP1: case LOOP3: {
        std::string n = k.kind == LOOP0 ? "0" : k.kind == LOOP1 ? "1" : "3", i = "i" + std::to_string(depth);
        s += i + " = 0" + sep + (style == 2 ? "while = {" + n + " - " + i + "}" : "while = {" + i + " < " + n + "}") + sep + "do = {" + i + " = " + i + " + 1" + sep + sub(i) + "}" + sep + "$loop"; break;
      }
      case CALL: s += "f" + id + " = {" + sub(counter) + "}" + sep + "$f" + id + sep + (style%2 ? "$(f" + id + ")" : "${$f" + id + "}"); break;
      case SEQ: s += "v" + id + " = (" + sub(counter) + sep + "4)" + sep + "tr = tr + v" + id; break;
    }
    s += sep;
  }
  if (b.empty()) return "";
  if (style != 2) for (size_t i = 0; i < sep.size(); ++i) s.pop_back(); // documented loops have no trailing separator
  return s;
}
// (prints and trace entries are merged in one list in order of execution)
static void expect(const Body& b, int count, std::string& tr, std::string& out)
{
  for (auto& k : b) {
    std::string id = std::to_string(k.id);
    switch (k.kind) {
      case P: (k.id%2 ? tr : out) += "p" + id + ","; break;
      case ERR: tr += "e" + id + ":1,"; break;
      case EXIT: throw Exit();
      case IF0: case IF1: case IFP: if (k.kind == IF1 || (k.kind == IFP && count%2)) expect(k.body, count, tr, out); else tr += "n" + id + ","; break;
      case LOOP0: case LOOP1: case LOOP3: for (int i = 0; i < (k.kind == LOOP0 ? 0 : k.kind == LOOP1 ? 1 : 3); ++i) expect(k.body, i + 1, tr, out); break;
      case CALL: expect(k.body, count, tr, out); expect(k.body, count, tr, out); break;
      case SEQ: expect(k.body, count, tr, out); tr += "4"; break;
    }
  }
}
struct Cap : hexed::Printer {std::string out; void print(std::string s) override {out += s;}};
static std::shared_ptr<Interpreter> inter; static std::shared_ptr<Namespace> base; static Cap* cap;
static void fresh() {auto c = std::make_shared<Namespace>(); c->supers.push_back(base); inter->variables = c; cap->out.clear();
  c->assign<std::string>("except", ""); c->assign<std::string>("exception", ""); c->assign<std::string>("tr", "");}

static void program(Body b, int style)
{
  int n = 1; number(b, n);
  std::string code = render(b, 1, style, ""), kase = std::to_string(style) + shape(b);
  if (vx::replaying && kase != vx::replay_case) return;
  vx::begin_case(kase); ++vx::transitions; vx::state(kase);
  if (vx::evals%20011 == 1) vx::sample(code);
  std::string tr, out; bool exited = false;
  try {expect(b, 1, tr, out);} catch (Exit) {exited = true;}
  fresh();
  for (int rep = 0; rep < 2; ++rep) { // the second run starts from whatever the first one left behind
    auto& v = *inter->variables; v.assign<std::string>("tr", ""); v.assign<std::string>("last", ""); cap->out.clear();
    try {inter->exec(code + "\nlast = {reached}");}
    catch (const std::exception& e) {vx::fail(kase, "program\n" + code + "\nraised " + e.what()); return;}
    std::string got = v.lookup<std::string>("tr").value();
    if (got != tr || cap->out != out) {vx::fail(kase, "program\n" + code + "\nleaves the trace {" + got + "} and prints {" + cap->out + "}, expected {" + tr + "} and {" + out + "}" + (rep ? " (second run)" : "")); return;}
    if ((v.lookup<std::string>("last").value() == "reached") == exited) {vx::fail(kase, "program\n" + code + "\nexecution does not " + (exited ? "stop" : "continue") + " after it"); return;}
    if (!exited && (v.lookup<int>("hexed_loop_depth").value() != 0 || v.lookup<std::string>("except").value() != "" || v.lookup<std::string>("exception").value() != "")) {vx::fail(kase, "program\n" + code + "\nleaves the loop depth or the exception variables modified"); return;}
    vx::outcome(tr + "|" + out);
  }
}
static int64_t idx = 0;
// all bodies with exactly n nodes
static void gen(int n, int depth, bool in_seq, const std::function<void(const Body&)>& f)
{
  if (n == 0) {f({}); return;}
  for (int first = 1; first <= n; ++first) for (int k = 0; k < NKIND; ++k) {
    if (k < IF0 && first != 1) continue;
    // an error inside parentheses leaves the closing one behind, `exit` inside an assigned sequence has no value
    if (in_seq && (k == ERR || k == EXIT)) continue;
    if (k >= IF0 && depth == 4) continue;
    std::function<void(const Body&)> with = [&](const Body& inner) {
      gen(n - first, depth, in_seq, [&](const Body& rest) {Body b {Node{k, inner}}; b.insert(b.end(), rest.begin(), rest.end()); f(b);});
    };
    if (k < IF0) with({}); else gen(first - 1, depth + 1, in_seq || k == SEQ, with);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  bool T = vx::thorough();
  inter = std::make_shared<Interpreter>(); base = inter->variables; cap = new Cap; inter->printer.reset(cap);
  for (int n = 1; n <= (T ? 5 : 4); ++n) gen(n, 0, false, [&](const Body& b) {
    for (int style = 0; style < styles_total; ++style) if (n < (T ? 5 : 4) || style == (idx/7)%4 || (T && style == 0)) if (vx::mine(idx++)) program(b, style); else {}
  });
  // nesting depth: a chain of containers around one marker
  for (int d = 1; d <= (T ? 6 : 5); ++d) {
    int64_t N = 1; for (int i = 0; i < d; ++i) N *= NKIND - IF0;
    for (int64_t k = 0; k < N; ++k) if (vx::mine(idx++)) {
      Body b {Node{P, {}}}; int64_t q = k; for (int i = 0; i < d; ++i) {b = Body{Node{int(IF0 + q%(NKIND - IF0)), b}, Node{P, {}}}; q /= NKIND - IF0;}
      program(b, k%4);
    }
  }
  // string splitting
  std::string alpha = "ab,";
  for (int n = 0; n <= (T ? 6 : 5); ++n) {
    std::vector<int> c(n, 0);
    while (true) {
      std::string s; for (int k : c) s += alpha[k];
      for (int at = 0; at <= n + 1; ++at) if (vx::mine(idx++)) { // split at a position, or at the first comma
        std::string kase = "split " + s + " " + std::to_string(at); if (vx::replaying && kase != vx::replay_case) continue;
        vx::begin_case(kase); ++vx::transitions; fresh();
        size_t pos = at == n + 1 ? std::min(s.find(','), s.size()) : at;
        std::string pred = at == n + 1 ? "split_i == #split_str" : "split_i == " + std::to_string(at);
        if (at == n + 1 && pos < s.size()) pred = "split_str#split_i == {,}";
        try {inter->exec("split_str = {" + s + "}; split_at = {" + pred + "}; $split; tr = split_first + {|} + split_rest");} catch (const std::exception& e) {vx::fail(kase, e.what()); continue;}
        std::string want = s.substr(0, pos) + "|" + s.substr(pos);
        if (inter->variables->lookup<std::string>("tr").value() != want) vx::fail(kase, "splitting {" + s + "} at {" + pred + "} gives " + inter->variables->lookup<std::string>("tr").value() + " instead of " + want);
      }
      int k = n - 1; while (k >= 0 && ++c[k] == int(alpha.size())) c[k--] = 0;
      if (k < 0) break;
    }
  }
  // sequences of splits in the same interpreter, also inside a loop
  {
    struct Use {std::string s, pred; size_t pos;}; std::vector<Use> uses;
    for (std::string t : {"", "a", "ab", ",", "a,", ",a", "a,b", "aa,bb", "a,b,c"}) {
      for (size_t at = 0; at <= t.size(); ++at) uses.push_back({t, "split_i == " + std::to_string(at), at});
      if (t.find(',') != std::string::npos) uses.push_back({t, "split_str#split_i == {,}", t.find(',')});
    }
    int64_t U = uses.size(), len = T ? 3 : 2, N = 1; for (int i = 0; i < len; ++i) N *= U;
    for (int64_t k = 0; k < N; ++k) for (int looped : {0, 1}) if (vx::mine(idx++)) {
      if (T && looped && k%5) continue;
      std::string kase = "splits " + std::to_string(k) + (looped ? " looped" : ""); if (vx::replaying && kase != vx::replay_case) continue;
      vx::begin_case(kase); ++vx::transitions; fresh();
      std::string prog = "tr = {}", want; int64_t q = k;
      for (int i = 0; i < len; ++i, q /= U) {
        auto& u = uses[q%U]; std::string one = "split_str = {" + u.s + "}; split_at = {" + u.pred + "}; $split; tr = tr + split_first + {|} + split_rest + {;}";
        if (looped) prog += "; n = 0; while = {n < 2}; do = {n = n + 1; " + one + "}; $loop"; else prog += "; " + one;
        std::string w = u.s.substr(0, u.pos) + "|" + u.s.substr(u.pos) + ";"; want += looped ? w + w : w;
      }
      try {inter->exec(prog);} catch (const std::exception& e) {vx::fail(kase, prog + "\nfails with " + e.what()); continue;}
      std::string got = inter->variables->lookup<std::string>("tr").value();
      if (got != want) vx::fail(kase, prog + "\ngives " + got + " instead of " + want);
    }
  }
  // interactive sessions: line, what it prints ("E" = an error report), effect on x
  struct Line {std::string text; std::function<std::string(int&)> out; int end;}; // end: 1 quits the session, 2 the interpreter
  std::vector<Line> lines {
    {"1 + 2", [](int&) {return "3\n";}, 0}, {"x = x + 5", [](int& x) {x += 5; return std::to_string(x) + "\n";}, 0}, {"x", [](int& x) {return std::to_string(x) + "\n";}, 0},
    {"", [](int&) {return "";}, 0}, {"{}", [](int&) {return "";}, 0}, {"undefined", [](int&) {return "E\n";}, 0}, {"x = {a}", [](int&) {return "E\n";}, 0}, {"1/0", [](int&) {return "E\n";}, 0},
    {"{a} + x", [](int& x) {return "a" + std::to_string(x) + "\n";}, 0}, {"println {hi}", [](int&) {return "hi\n";}, 0},
    {"j = 0; while = {j < 3}; do = {j = j + 1; x = x + 1}; $loop; {}", [](int& x) {x += 3; return "";}, 0},
    {"case0 = {0}; case1 = {1}; $$({case} + (x > 6))", [](int& x) {return std::to_string(x > 6) + "\n";}, 0},
    {"$quit", [](int&) {return "";}, 1}, {"exit", [](int&) {return "";}, 2}};
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    std::vector<int> c(n, 0);
    while (true) {
      bool early = false; for (int i = 0; i + 1 < n; ++i) early = early || lines[c[i]].end;
      if (!early && vx::mine(idx++)) {
        std::string kase = "repl"; for (int k : c) kase += " " + std::to_string(k);
        if (!vx::replaying || kase == vx::replay_case) {
          vx::begin_case(kase); ++vx::transitions; vx::state(kase); fresh();
          std::string input, want; int x = 0, end = 0;
          for (int k : c) {input += lines[k].text + "\n"; want += "#+^$ " + lines[k].out(x); end = lines[k].end;}
          if (!end) {input += "$quit\n"; want += "#+^$ "; end = 1;}
          std::istringstream is(input); auto old = std::cin.rdbuf(is.rdbuf());
          try {inter->exec("hexed_quit_repl = 0; x = 0; $repl\ntr = {after}");} catch (const std::exception& e) {vx::fail(kase, "session\n" + input + "raised " + e.what());}
          std::cin.rdbuf(old); std::cin.clear();
          // replace each error report by "E"
          std::string got; size_t p = 0, q;
          while ((q = cap->out.find("Hexed Interface Language exception", p)) != std::string::npos) {
            got += cap->out.substr(p, q - p) + "E\n"; p = cap->out.find("#+^$ ", q); if (p == std::string::npos) p = cap->out.size();
          }
          got += cap->out.substr(p);
          if (got != want) vx::fail(kase, "session\n" + input + "prints\n" + got + "\ninstead of\n" + want);
          if (inter->variables->lookup<std::string>("tr").value() != (end == 1 ? "after" : "")) vx::fail(kase, "session\n" + input + "does not " + (end == 1 ? "return to" : "end") + " the program");
          if (inter->variables->lookup<int>("x").value() != x) vx::fail(kase, "session\n" + input + "leaves x at " + std::to_string(inter->variables->lookup<int>("x").value()));
          if (end == 1 && inter->variables->lookup<int>("hexed_loop_depth").value() != 0) vx::fail(kase, "session\n" + input + "leaves the loop depth modified");
          vx::outcome(want);
        }
      }
      int k = n - 1; while (k >= 0 && ++c[k] == int(lines.size())) c[k--] = 0;
      if (k < 0) break;
    }
  }
  // reading code from a file, and the rest of a command line after a handled error
  if (vx::shard == 0) {
    vx::begin_case("read"); ++vx::transitions; fresh();
    {std::ofstream f("code.hil"); f << "y1 = 3\n$(read {inner.hil})\ny3 = y2 + 1"; std::ofstream g("inner.hil"); g << "y2 = y1*2; {comment}\n";}
    std::string err;
    try {inter->exec("y0 = 1; $read {code.hil}\ny4 = y3 + 1; s = {$read {code.hil}}; n = #s; q = #(read {code.hil})");} catch (const std::exception& e) {err = e.what();}
    auto& v = *inter->variables;
    if (v.lookup<int>("y4").value_or(0) != 8 || v.lookup<int>("n").value_or(0) != 16 || v.lookup<int>("q").value_or(0) != 38) vx::fail("read", "executing code read from files is wrong " + err);
    vx::begin_case("repl-rest-of-line"); ++vx::transitions; fresh();
    std::istringstream is("undefined; x = 3\n1 + 1\n$quit\n"); auto old = std::cin.rdbuf(is.rdbuf());
    try {inter->exec("hexed_quit_repl = 0; x = 0; $repl\ntr = {after}");} catch (const std::exception& e) {vx::fail("repl-rest-of-line", "an error followed by `;` in one command line terminates the session");}
    std::cin.rdbuf(old); std::cin.clear();
  }
  vx::validated = vx::evals;
  return vx::finish();
}
