// Every text up to a length bound (over characters and over tokens) is executed by the real interpreter, compiled with
// address and undefined-behaviour sanitizers: it must complete or raise a HIL error, and leave a usable interpreter.
#include <vx.hpp>
#include <Interpreter.hpp>
#include <memory>
#include <sys/resource.h>
using hexed::Interpreter; using hexed::Namespace;
struct Cap : hexed::Printer {void print(std::string s) override {}};
static std::unique_ptr<Interpreter> inter; static std::shared_ptr<Namespace> base;

static void fresh()
{
  auto child = std::make_shared<Namespace>(); child->supers.push_back(base);
  child->assign<std::string>("except", ""); child->assign<std::string>("exception", ""); child->assign<std::string>("format_double", "%g");
  inter->variables = child;
}
// returns 0: completed, 1: HIL error, 2: other exception
static int run(const std::string& t, std::string* what = nullptr)
{
  try {inter->exec(t); return 0;}
  catch (const Interpreter::Hil_unhandled_exception& e) {return 1;}
  catch (const Interpreter::Hil_exception& e) {if (what) *what = "escaped the handler: " + std::string(e.what()); return 2;}
  catch (const std::exception& e) {if (what) *what = e.what(); return 2;}
}
static std::string hex(const std::string& s) {std::string r; char b[4]; for (unsigned char c : s) {snprintf(b, 4, "%02x", c); r += b;} return r;}
static std::string unhex(const std::string& s) {std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(strtol(s.substr(i, 2).c_str(), nullptr, 16)); return r;}

static void judge(const std::string& t, bool may_throw)
{
  std::string kase = hex(t); vx::begin_case(kase); ++vx::transitions; vx::state(t);
  std::string what;
  bool plain = t.find_first_of("{}()\\$") == std::string::npos && t.find(std::string(1, '\0')) == std::string::npos && t.find("exit") == std::string::npos
               && t.find("except") == std::string::npos && t.find("format") == std::string::npos && !may_throw;
  for (int handler = 0; handler < 2; ++handler) {
    fresh();
    std::string show = "`" + t.substr(0, 100) + "` " + (handler ? "(with a handler) " : "");
    int r = run((handler ? "except={h0=1};p=5;" : "p=5;") + t + (handler && plain ? "\nz0\nq0=6\n" : ""), &what);
    vx::outcome(std::to_string(r) + (handler && inter->variables->exists("h0") ? "h" : ""));
    if (r == 2 && !may_throw) {vx::fail(kase, show + "raised something other than a HIL error: " + what); return;}
    if (inter->variables->lookup<int>("p").value_or(-1) != 5 && t.find('p') == std::string::npos) {vx::fail(kase, show + "lost a variable"); return;}
    if (handler && plain && r == 0 && inter->variables->lookup<int>("q0").value_or(-1) != 6) {vx::fail(kase, show + "execution did not resume after the handled error"); return;}
    if (handler && plain && r == 1 && t.find_first_of("\n;") == std::string::npos) {vx::fail(kase, show + "error was not handled"); return;}
    r = run("zz = 1 + 2*(p - 2); sz = {a} + {b}", &what);
    if (t.find('p') == std::string::npos && (r || inter->variables->lookup<int>("zz").value_or(-1) != 7 || inter->variables->lookup<std::string>("sz").value_or("") != "ab")) {vx::fail(kase, "interpreter is unusable after " + show + what); return;}
  }
}

int main(int argc, char** argv)
{
  // sanitized stack frames are an order of magnitude larger than real ones. (The nesting cases also run unsanitized on a stack of 8 MB)
  rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t want = getenv("VERIF_NESTING_ONLY") ? 8 << 20 : 256 << 20;
  if (rl.rlim_cur != want && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want)) {rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); execv("/proc/self/exe", argv);}
  bool nesting_only = getenv("VERIF_NESTING_ONLY");
  vx::init(argc, argv); vx::case_limit_s = 60;
  bool T = vx::thorough();
  inter.reset(new Interpreter(std::vector<std::string>{})); inter->printer.reset(new Cap);
  base = inter->variables;
  base->assign<int>("z0", 0);
  std::istringstream empty; std::cin.rdbuf(empty.rdbuf());
  base->assign<int>("e", 2); base->assign<std::string>("a", "1+"); base->assign<int>("i", 3); base->assign<double>("d", -.5); base->assign<std::string>("s", "x2");
  base->assign<int>("q", -2147483647 - 1); base->assign<std::string>("m", "("); base->assign<std::string>("n", ")"); base->assign<std::string>("k", "{"); base->assign<std::string>("u", ""); base->assign<double>("nan", NAN); base->assign<double>("w", 1e300);
  if (vx::replaying) {std::string t = unhex(vx::replay_case); judge(t, t.find("throw") != std::string::npos); return vx::finish();}
  int64_t idx = 0;
  // characters
  std::string alpha = std::string(" \n;$()=+-/%^#!<&{}\\.1ea,\x80", 26) + std::string(1, '\0');
  int len = nesting_only ? 2 : T ? 5 : 4;
  for (int n = 0; n <= len; ++n) {
    std::vector<int> c(n, 0);
    while (true) {
      if (vx::mine(idx++)) {std::string t; for (int k : c) t += alpha[k]; if (idx%100003 == 1) vx::sample(t); judge(t, false);}
      int k = n - 1; while (k >= 0 && ++c[k] == int(alpha.size())) c[k--] = 0;
      if (k < 0) break;
    }
  }
  // tokens
  std::vector<std::string> tok {"i", "d", "s", "m", "n", "k", "u", "q", "w", "0", "1", "1.5", "99999999999", "1e999", "1..2", "{x}", "{1/0}", "{%s}", "{$i}", "{$u;i}", "sqrt ", "round ", "abs ", "print ", "read ", "#", "$", "=", "==", "+", "-", "*", "/", "%", "^", "&", "(", ")", "\n", ";", " ", "exit", "throw ", "except", "exception", "format_double", "ask", "huge", "nan", "undefined"};
  int tl = nesting_only ? 2 : T ? 4 : 3;
  for (int n = 1; n <= tl; ++n) {
    std::vector<int> c(n, 0);
    while (true) {
      if (vx::mine(idx++)) {
        std::string t; bool thr = false, pw = false, big = false;
        for (int k : c) {t += tok[k]; thr = thr || tok[k] == "throw "; pw = pw || tok[k] == "^"; big = big || tok[k] == "q" || tok[k] == "99999999999";}
        if (!(pw && big)) judge(t, thr); // (an integer power takes time proportional to the exponent)
      }
      int k = n - 1; while (k >= 0 && ++c[k] == int(tok.size())) c[k--] = 0;
      if (k < 0) break;
    }
  }
  // all pairs of operators and operands (value combinations that the token bound does not reach)
  for (std::string a : {"i", "d", "s", "q", "0", "1", "w", "nan", "u", "(0-1)", "(0.-1.)", "huge", "()"}) for (std::string b : {"i", "d", "s", "q", "0", "1", "w", "nan", "u", "(0-1)", "(0.-1.)", "huge", "()"})
    for (std::string o : {"^", "#", "%", "/", "*", "-", "+", "==", "!=", ">=", "<=", ">", "<", "&", "|"}) for (std::string f : {"", "-", "!", "#", "round ", "floor ", "ceil ", "abs ", "sqrt ", "print ", "println ", "r="})
      if (vx::mine(idx++) && !(o == "^" && b == "q")) {judge(f + a + o + b, false); judge(f + "(" + a + o + b + ")", false);}
  // deep nesting, long tokens, recursive macros
  std::vector<int> reps {1, 2, 10, 100, 999, 1000, 1001, 1200, 5000, 100000};
  for (std::string unit : {"(", "$(", "-", "!", "#", "{", "}", "\\", "$", "a0=", "1+(", "1+", "i^", "sqrt ", "x", "9", ".", "1e", " ", "\n", ";", "i ", "(i;", "{x}#", "$u", "${", "print ", ")"}) for (int n : reps) for (std::string end : {"", "i", "{x}", ")"})
    if (vx::mine(idx++)) {std::string t; for (int k = 0; k < n; ++k) t += unit; judge(t + end, false);}
  for (std::string open : {"(", "{", "1+("}) for (int n : reps) if (vx::mine(idx++)) {
    std::string t; for (int k = 0; k < n; ++k) t += open; t += "i"; for (int k = 0; k < n; ++k) t += open[0] == '{' ? "}" : ")"; judge(t, false); judge("r=" + t, false);
  }
  for (std::string rec : {"g={1+($g)};$g", "g={($g)};$g", "g={-$g};$g", "g={x=$g};$g", "g={$($g)};$g", "g={$$g};$g", "g={print $g};r=1+$g", "g={(i;$g};$g", "except={$except};undefined", "except={undefined};undefined", "except={1/0};1/0", "except={except={undefined};undefined};undefined"})
    if (vx::mine(idx++)) {judge(rec, false); judge("x1=(" + rec + ")", false);}
  // conversion formats: every one up to 3 characters after the percent sign
  std::string fc = "%.-+ #0159*lLhjztdisfgGeaAnpcxXqyu";
  for (int n = 0; n <= 3; ++n) {
    std::vector<int> c(n, 0);
    while (true) {
      if (vx::mine(idx++)) {std::string t = "%"; for (int k : c) t += fc[k]; judge("format_double={" + t + "};print 1.5;print {}+huge+d", false);}
      int k = n - 1; while (k >= 0 && ++c[k] == int(fc.size())) c[k--] = 0;
      if (k < 0) break;
    }
  }
  for (std::string t : {"%400g", "%.400f", "%99999999999g", "%.2147483647f", "%g%g", "%g%s", "%%%g%%", "%%%%", "a%gb", "%\\", ""}) if (vx::mine(idx++)) judge("format_double={" + t + "};print 1.5", false);
  vx::validated = vx::evals;
  return vx::finish();
}
