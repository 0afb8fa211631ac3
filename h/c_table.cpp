// C22: tables of numbers and the standard atmosphere
#include "vx.hpp"
#include <read_csv.hpp>
#include <standard_atmosphere.hpp>
#include <constants.hpp>
#include <charconv>
#include <cmath>
#include <fstream>
#include <filesystem>
#include <unistd.h>
using namespace hexed;
static std::string cs, file;
#define BAD(msg) do {std::ostringstream _o; _o.precision(17); _o << msg; vx::fail(cs, _o.str());} while (0)

// the documented format: rows of the same number of entries; an entry is one numeric literal with spaces and tabs around it
enum Verdict {good, bad, either};
static Verdict parse(const std::string& text, std::vector<std::vector<double>>& rows)
{
  std::vector<std::string> lines; std::string l;
  for (char c : text) {if (c == '\n') {lines.push_back(l); l.clear();} else l += c;}
  if (!l.empty()) lines.push_back(l);
  bool trailing = false; while (lines.size() && lines.back().empty()) {lines.pop_back(); trailing = true;}
  if (lines.empty()) return either;
  for (auto& line : lines) {
    rows.emplace_back(); size_t at = 0;
    while (true) {
      size_t comma = line.find(',', at); std::string e = line.substr(at, comma == line.npos ? line.npos : comma - at);
      size_t b = e.find_first_not_of(" \t"), t = e.find_last_not_of(" \t");
      if (b == e.npos) return bad;
      e = e.substr(b, t - b + 1); if (e[0] == '+') {e = e.substr(1); if (e.size() && (e[0] == '-' || e[0] == '+')) return bad;}
      double x; auto r = std::from_chars(e.data(), e.data() + e.size(), x);
      if (r.ec == std::errc::result_out_of_range || (r.ec == std::errc() && x != 0 && std::abs(x) < 2.3e-308)) return either;
      if (r.ec != std::errc() || r.ptr != e.data() + e.size()) return bad;
      rows.back().push_back(x);
      if (comma == line.npos) break; at = comma + 1;
    }
    if (rows.back().size() != rows[0].size()) return bad;
  }
  return trailing ? either : good;
}
static void write(const std::string& text) {std::ofstream f(file, std::ios::binary); f << text;}
static void check(const std::string& text, bool allow_either = true)
{
  ++vx::evals; ++vx::transitions;
  std::vector<std::vector<double>> rows; Verdict v = parse(text, rows);
  write(text); bool threw = false; Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> m;
  try {m = read_csv(file);} catch (std::exception&) {threw = true;}
  if (v == bad && !threw) BAD("malformed table is accepted as a " << m.rows() << " x " << m.cols() << " matrix");
  if (v == good && threw) BAD("valid table is rejected");
  if (!threw && v != bad && rows.size()) {
    if (m.rows() != int(rows.size()) || m.cols() != int(rows[0].size())) {BAD("read as " << m.rows() << " x " << m.cols()); return;}
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) if (!(m(i, j) == rows[i][j])) {BAD("entry " << i << " " << j << " is " << m(i, j) << " instead of " << rows[i][j]); return;}
  }
  ++vx::validated;
  vx::outcome(v == bad ? "rejected" : v == good ? "read" : "either");
}
static std::string show(const std::string& s) {std::string o; for (char c : s) {if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else o += c;} return o;}

static void tables()
{
  // every text over a small alphabet
  const std::vector<std::string> alpha {"1", ",", "\n", "-", ".", "e", " ", "x", "2", "\t"};
  int lim = vx::thorough() ? 7 : 6; int idx = 0;
  for (int len = 1; len <= lim; ++len) {
    long n = 1; for (int i = 0; i < len; ++i) n *= alpha.size();
    for (long code = 0; code < n; ++code) {
      if (!vx::replaying && !vx::mine(idx++)) continue;
      cs = "text " + std::to_string(len) + " " + std::to_string(code);
      if (vx::replaying && vx::replay_case.compare(0, 4, "text")) return;
      if (vx::replaying && cs != vx::replay_case) continue;
      std::string t; long c = code; for (int i = 0; i < len; ++i) {t += alpha[c%alpha.size()]; c /= alpha.size();}
      cs = "text " + std::to_string(len) + " " + std::to_string(code); vx::begin_case(cs);
      if (code%9973 == 0) {vx::sample(show(t)); vx::new_state(t);}
      check(t);
    }
  }
}
static void shapes()
{
  int idx = 0;
  // spellings of numbers at every position of tables of every shape, with every kind of padding
  const std::vector<std::string> spell {"0", "-0.5", "+3", "1e3", "1.25E-7", ".75", "6.", "123456789.123456789", "-1e-300", "0.1", "4.9406564584124654e-320", "1.7976931348623157e308", "2e", "e5", "1.5.2", "--3", "0x1p3z", "1 2", "", "1e", "nan?", "3;", "1_000", "-", "."};
  for (int r = 1; r <= 3; ++r) for (int c = 1; c <= 3; ++c) for (int at = 0; at < r*c; ++at) for (size_t s = 0; s < spell.size(); ++s) for (int pad = 0; pad < 5; ++pad) for (int end = 0; end < 3; ++end) {
    std::ostringstream o; o << "shape " << r << c << " at " << at << " spelling " << s << " pad " << pad << " end " << end; cs = o.str();
    if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    std::string t; const char* pads [] {"", " ", "\t", "  \t", " "};
    for (int i = 0; i < r*c; ++i) {
      t += (pad == 4 ? "" : pads[pad]) + (i == at ? spell[s] : std::to_string(i + 1) + ".5") + pads[pad];
      t += i%c < c - 1 ? "," : "\n";
    }
    if (end == 1) t.pop_back(); if (end == 2) t += "\n";
    vx::begin_case(cs); vx::new_state(cs); check(t);
  }
  // rows of every combination of lengths, 0 to 4 entries in up to 4 rows
  for (int n = 1; n <= 4; ++n) for (int code = 0; code < (n == 4 ? 625 : n == 3 ? 125 : n == 2 ? 25 : 5); ++code) {
    cs = "lengths " + std::to_string(n) + " " + std::to_string(code);
    if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    std::string t; int k = code; for (int i = 0; i < n; ++i, k /= 5) {for (int j = 0; j < k%5; ++j) t += (j ? ", " : "") + std::to_string(10*i + j); t += "\n";}
    vx::begin_case(cs); vx::new_state(cs); check(t);
  }
  // a large table comes back exactly
  cs = "large"; if (vx::replaying ? cs == vx::replay_case : vx::mine(0)) {
    vx::begin_case(cs); std::ostringstream o; o.precision(17); for (int i = 0; i < 3000; ++i) {for (int j = 0; j < 7; ++j) o << (j ? "," : "") << std::sin(i*7 + j)*std::pow(10., j - 3); o << "\n";} check(o.str());
  }
  cs = "missing file"; if (vx::replaying ? cs == vx::replay_case : vx::mine(1)) {
    vx::begin_case(cs); std::filesystem::remove(file); bool threw = false; try {read_csv(file);} catch (std::exception&) {threw = true;} if (!threw) BAD("a missing file is accepted");
  }
}

// ICAO 7488: layers of constant lapse rate; integrated here in extended precision
struct Layer {long double h, t;};
static const Layer icao [] {{0, 288.15L}, {11000, 216.65L}, {20000, 216.65L}, {32000, 228.65L}, {47000, 270.65L}, {51000, 270.65L}, {71000, 214.65L}, {80000, 196.65L}};
static long double temp(long double h) {for (int i = 0; i < 7; ++i) if (h <= icao[i + 1].h || i == 6) return icao[i].t + (icao[i + 1].t - icao[i].t)*(h - icao[i].h)/(icao[i + 1].h - icao[i].h); return 0;}
static long double hydro(long double h)
{
  const long double g = 9.80665L, r = 287.05287L; long double integral = 0;
  for (int i = 0; i < 7; ++i) {
    long double a = icao[i].h, b = std::min(h, icao[i + 1].h); if (i == 6) b = h; if (b <= a && i) break;
    int n = 200; long double d = (b - a)/n, s = 0; // Simpson
    for (int k = 0; k <= n; ++k) s += (k == 0 || k == n ? 1 : k%2 ? 4 : 2)/temp(a + k*d + (k == 0 ? 0 : 0));
    integral += s*d/3;
  }
  return 101325.L*std::exp(-g/r*integral);
}
static void atmosphere()
{
  std::vector<double> alts; double step = vx::thorough() ? 5 : 40; for (double h = 0; h <= 80000; h += step) alts.push_back(h);
  for (auto& l : icao) for (double d : {-1000., -1., -1e-3, -1e-6, -1e-9, -1e-10, -1e-11, 1e-11, 1e-10, 1e-9, 1e-6, 1e-3, 1., 1000.}) {double h = double(l.h) + d; if (h >= 0 && h <= 80000) alts.push_back(h);}
  int idx = 0; const double earth = 6356766;
  for (double h : alts) {
    std::ostringstream o; o.precision(17); o << "altitude " << h; cs = o.str();
    if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    vx::begin_case(cs); vx::new_state(cs);
    double p = hydro(h);
    for (double off : {0., -40., -.5, 7., 35.}) {
      ++vx::evals; ++vx::transitions;
      auto s = standard_atmosphere_geopot(h, off); double t = double(temp(h)) + off;
      if (!(std::abs(s[1]/p - 1) < 1e-8)) {BAD("pressure " << s[1] << " instead of " << p << " (offset " << off << ")"); break;}
      if (!(std::abs(s[0]*287.05287*t/s[1] - 1) < 1e-9)) {BAD("density " << s[0] << " at pressure " << s[1] << " and temperature " << t); break;}
      double z = earth*h/(earth - h); auto g = standard_atmosphere(z, off);
      if (!(std::abs(g[0]/s[0] - 1) < 1e-9) || !(std::abs(g[1]/s[1] - 1) < 1e-9)) {
        if (h < 80000 - 1e-6 || std::abs(g[0]/s[0] - 1) > 1e-6) {BAD("geometric altitude " << z << " gives density " << g[0] << " instead of " << s[0]); break;}
      }
      if (off == 0) {auto d = standard_atmosphere_geopot(h); if (d != s) {BAD("default temperature offset"); break;}}
      ++vx::validated;
    }
  }
  for (double h : {-1e-3, -1., -1e4, -HUGE_VAL, 80000.001, 80001., 1e6, HUGE_VAL, double(NAN)}) for (int geom : {0, 1}) {
    std::ostringstream o; o << "outside " << h << " " << geom; cs = o.str(); if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    if (geom && h > 8e4 && h < 81100) continue;
    vx::begin_case(cs); ++vx::evals; bool threw = false; std::array<double, 2> s; try {s = geom ? standard_atmosphere(h) : standard_atmosphere_geopot(h);} catch (std::exception&) {threw = true;}
    if (!threw) BAD("an altitude outside the model is accepted with density " << s[0]);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char t [] = "/tmp/c22_XXXXXX"; std::string dir = mkdtemp(t); file = dir + "/table.csv";
  atmosphere(); shapes(); tables();
  std::filesystem::remove_all(dir);
  return vx::finish();
}
