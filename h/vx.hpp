// Shared plumbing of the exhaustive harnesses: sharding, current-case recording (so that a crash or a hang is
// attributable to the case being run), violation artefacts, coverage counts.
#ifndef VX_HPP_
#define VX_HPP_
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <functional>
#include <iostream>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace vx
{
inline std::string tier = "quick";
inline int shard = 0, nshards = 1;
inline std::string out_path, case_path, replay_case;
inline bool replaying = false;
inline int64_t evals = 0, transitions = 0, validated = 0;
inline std::unordered_set<uint64_t> states, outcomes;
inline std::vector<std::string> samples;
inline std::vector<std::pair<std::string, std::string>> violations; // (case, message)
inline std::vector<std::pair<std::string, int64_t>> extras;
inline char* case_buf = nullptr;
constexpr int case_cap = 1 << 16;
inline int case_limit_s = 100;

inline bool thorough() {return tier == "thorough";}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
  auto c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) {h ^= c[i]; h *= 1099511628211ull;}
  return h;
}
inline uint64_t hash(const std::string& s) {return fnv(s.data(), s.size());}
inline void state(const std::string& s) {states.insert(hash(s));}
inline bool new_state(const std::string& s) {return states.insert(hash(s)).second;}
inline void outcome(const std::string& s) {outcomes.insert(hash(s));}
inline void sample(const std::string& s, size_t max = 4) {if (samples.size() < max) samples.push_back(s.substr(0, 600));}
inline void extra(const std::string& k, int64_t v) {for (auto& e : extras) if (e.first == k) {e.second += v; return;} extras.push_back({k, v});}
inline bool mine(int64_t i) {return replaying || i%nshards == shard;}

inline void set_timer(int s)
{
  itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr);
}
inline void begin_case(const std::string& c)
{
  ++evals;
  if (case_buf) {
    size_t n = std::min<size_t>(c.size(), case_cap - 1);
    memcpy(case_buf, c.data(), n); case_buf[n] = 0;
  }
  if (case_limit_s) set_timer(case_limit_s);
}
inline void fail(const std::string& c, const std::string& msg)
{
  if (violations.size() < (getenv("VERIF_FNS") ? 2500 : 25)) violations.push_back({c, msg});
  else extra("further_violations", 1);
}
inline std::string esc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {r += '\\'; r += c;}
    else if (c < 32 || c >= 127) {char b[8]; snprintf(b, 8, "\\u%04x", c); r += b;}
    else r += c;
  }
  return r;
}
inline void write_out()
{
  if (out_path.empty()) return;
  std::ofstream f(out_path);
  f << "{\"evals\":" << evals << ",\"transitions\":" << transitions << ",\"validated\":" << validated;
  f << ",\"states\":" << states.size() << ",\"outcomes\":" << outcomes.size();
  f << ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << '"' << esc(samples[i]) << '"';
  f << "],\"extras\":{";
  for (size_t i = 0; i < extras.size(); ++i) f << (i ? "," : "") << '"' << extras[i].first << "\":" << extras[i].second;
  f << "},\"violations\":[";
  for (size_t i = 0; i < violations.size(); ++i)
    f << (i ? "," : "") << "{\"case\":\"" << esc(violations[i].first) << "\",\"msg\":\"" << esc(violations[i].second) << "\"}";
  f << "]}\n";
  f.close();
  auto dump = [](std::string p, const std::unordered_set<uint64_t>& s) {
    std::vector<uint64_t> v(s.begin(), s.end());
    FILE* fp = fopen(p.c_str(), "wb"); if (fp) {fwrite(v.data(), 8, v.size(), fp); fclose(fp);}
  };
  dump(out_path + ".states", states);
  dump(out_path + ".outcomes", outcomes);
}
inline void on_prof(int) {_exit(124);}

inline void init(int argc, char** argv)
{
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() {return std::string(argv[++i]);};
    if (a == "--tier") tier = next();
    else if (a == "--shard") shard = atoi(next().c_str());
    else if (a == "--nshards") nshards = atoi(next().c_str());
    else if (a == "--out") out_path = next();
    else if (a == "--casefile") case_path = next();
    else if (a == "--replay") {
      std::ifstream f(next()); std::stringstream ss; ss << f.rdbuf(); replay_case = ss.str(); replaying = true;
    }
  }
  if (!case_path.empty()) {
    int fd = open(case_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, case_cap)) {}
    case_buf = (char*)mmap(nullptr, case_cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  signal(SIGPROF, on_prof);
}
inline int finish()
{
  set_timer(0);
  write_out();
  if (replaying) for (auto& v : violations) printf("case: %s\nmsg: %s\n", v.first.c_str(), v.second.c_str());
  return violations.empty() ? 0 : 1;
}
// token helpers for case strings
inline std::vector<std::string> split(const std::string& s, char d = ' ')
{
  std::vector<std::string> r; std::string cur;
  for (char c : s) {if (c == d) {r.push_back(cur); cur.clear();} else cur += c;}
  r.push_back(cur);
  return r;
}
}
#endif
