// C25: a crash while writing output never destroys the previous checkpoint.  The mutating system calls of the output commands
// of the real driver are interposed; for every history of outputs and restarts below, every such call is made the point at
// which the process dies (before the call, or with the data torn), or from which on the disk is full; then the directory is
// examined, the run restarted in it and the output repeated.
#include <vx.hpp>
#include <Case.hpp>
#include <Accessible_mesh.hpp>
#include <H5Cpp.h>
#include <filesystem>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <signal.h>
#include <errno.h>
#include <map>
#include <algorithm>
using namespace hexed;

// ---- interposed system calls ----
namespace fault
{
bool armed = false;
enum Kind {count_only, die_before, tear_half, tear_last, full}; Kind kind = count_only;
long at = -1;
long* n = nullptr; // shared with the parent
bool is_full = false;
struct Off {bool was = armed; Off() {armed = false;} ~Off() {armed = was;} };
// true if the call shall fail for lack of space
bool hit(int fd, const void* data, size_t size, long off)
{
  if (!armed) return false;
  if (is_full) return data != nullptr;
  long i = (*n)++;
  if (kind == count_only || i != at) return false;
  if (kind == full) {is_full = true; return data != nullptr;}
  if (data && kind != die_before) {
    size_t part = kind == tear_half ? size/2 : size - (size > 0); armed = false;
    if (off >= 0) {if (pwrite(fd, data, part, off) < 0) _exit(98);} else if (write(fd, data, part) < 0) _exit(98);
  }
  _exit(97);
}
template <typename F> F real(const char* name) {return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));}
}
#define REAL(ret, name, ...) static auto f = fault::real<ret (*)(__VA_ARGS__)>(#name)
extern "C" {
ssize_t write(int fd, const void* b, size_t s) {REAL(ssize_t, write, int, const void*, size_t); if (fd > 2 && fault::hit(fd, b, s, -1)) {errno = ENOSPC; return -1;} return f(fd, b, s);}
ssize_t writev(int fd, const struct iovec* v, int c) {REAL(ssize_t, writev, int, const struct iovec*, int); if (fd > 2 && c > 0 && fault::hit(fd, v[0].iov_base, v[0].iov_len, -1)) {errno = ENOSPC; return -1;} return f(fd, v, c);}
ssize_t pwrite(int fd, const void* b, size_t s, off_t o) {REAL(ssize_t, pwrite, int, const void*, size_t, off_t); if (fault::hit(fd, b, s, o)) {errno = ENOSPC; return -1;} return f(fd, b, s, o);}
ssize_t pwrite64(int fd, const void* b, size_t s, off64_t o) {REAL(ssize_t, pwrite64, int, const void*, size_t, off64_t); if (fault::hit(fd, b, s, o)) {errno = ENOSPC; return -1;} return f(fd, b, s, o);}
int ftruncate(int fd, off_t l) {REAL(int, ftruncate, int, off_t); fault::hit(fd, nullptr, 0, 0); return f(fd, l);}
int ftruncate64(int fd, off64_t l) {REAL(int, ftruncate64, int, off64_t); fault::hit(fd, nullptr, 0, 0); return f(fd, l);}
int unlink(const char* p) {REAL(int, unlink, const char*); fault::hit(-1, nullptr, 0, 0); return f(p);}
int unlinkat(int d, const char* p, int g) {REAL(int, unlinkat, int, const char*, int); fault::hit(-1, nullptr, 0, 0); return f(d, p, g);}
int remove(const char* p) {REAL(int, remove, const char*); fault::hit(-1, nullptr, 0, 0); return f(p);}
int rename(const char* a, const char* b) {REAL(int, rename, const char*, const char*); fault::hit(-1, nullptr, 0, 0); return f(a, b);}
int symlink(const char* a, const char* b) {REAL(int, symlink, const char*, const char*); fault::hit(-1, nullptr, 0, 0); return f(a, b);}
int link(const char* a, const char* b) {REAL(int, link, const char*, const char*); fault::hit(-1, nullptr, 0, 0); return f(a, b);}
int mkdir(const char* p, mode_t m) {REAL(int, mkdir, const char*, mode_t); fault::hit(-1, nullptr, 0, 0); return f(p, m);}
int rmdir(const char* p) {REAL(int, rmdir, const char*); fault::hit(-1, nullptr, 0, 0); return f(p);}
static bool mutating(int flags) {return (flags & O_TRUNC) || (flags & O_CREAT);}
int open(const char* p, int flags, ...) {REAL(int, open, const char*, int, ...); va_list v; va_start(v, flags); int m = flags & O_CREAT ? va_arg(v, int) : 0; va_end(v); if (mutating(flags)) fault::hit(-1, nullptr, 0, 0); return f(p, flags, m);}
int open64(const char* p, int flags, ...) {REAL(int, open64, const char*, int, ...); va_list v; va_start(v, flags); int m = flags & O_CREAT ? va_arg(v, int) : 0; va_end(v); if (mutating(flags)) fault::hit(-1, nullptr, 0, 0); return f(p, flags, m);}
FILE* fopen(const char* p, const char* m) {REAL(FILE*, fopen, const char*, const char*); if (m[0] != 'r') fault::hit(-1, nullptr, 0, 0); return f(p, m);}
FILE* fopen64(const char* p, const char* m) {REAL(FILE*, fopen64, const char*, const char*); if (m[0] != 'r') fault::hit(-1, nullptr, 0, 0); return f(p, m);}
}

// ---- access to the driver ----
template <auto S, auto I> struct Case_door
{
  friend Solver* case_solver(Case& c) {return (c.*S).get();}
  friend Interpreter* case_inter(Case& c) {return &(c.*I);}
};
template struct Case_door<&Case::_solver_ptr, &Case::_inter>;
Solver* case_solver(Case& c); Interpreter* case_inter(Case& c);

static std::string cs, top, dir, snap;
#define BAD(msg) do {std::ostringstream _o; _o << msg; vx::fail(cs, _o.str());} while (0)
namespace fs = std::filesystem;
static void copy_dir(std::string from, std::string to)
{
  fs::remove_all(to); fs::create_directory(to);
  for (auto& e : fs::directory_iterator(from)) fs::copy(e.path(), to + e.path().filename().string(), fs::copy_options::recursive | fs::copy_options::copy_symlinks);
}
struct Setup {int nd; bool body; bool csv;};
static std::string script(const Setup& su, std::string mesh)
{
  std::string t = "n_dim = " + std::to_string(su.nd) + "\nrow_size = 2\nworking_dir = {" + dir + "}\nfreestream_density = 1.1\nfreestream_pressure = 9e4\nfreestream_mach = .3\nsurface_bc = {nonpenetration}\ninit_ref_level = " + (su.nd == 1 ? "3" : su.nd == 2 ? "2" : "1") + "\nprint_freq = 1\nvis_n_sample = 2\n";
  for (int d = 0; d < 3; ++d) t += "mesh_extreme" + std::to_string(d) + "0 = 0.\nmesh_extreme" + std::to_string(d) + "1 = 1.\n";
  std::string n = std::to_string(su.nd); t += "init_cond = init_cond + {state" + n + " = freestream" + n + "*(1 + 0.1*(pos0 > 0.4))} + newline\n";
  if (su.body) t += "geom0 = {" + top + "g.csv}\nflood_fill_start0 = .05\nflood_fill_start1 = .05\nn_smooth = 2\n"; else t += "vis_surface = 0\n";
  t += "create_solver\n" + mesh;
  return t;
}
static std::unique_ptr<Case> start(const Setup& su, std::string mesh)
{
  std::string file = top + "run.hil"; {std::ofstream o(file); o << script(su, mesh);}
  return std::make_unique<Case>(file);
}
static std::string first(const Setup& su) {return std::string("init_refinement\n") + (su.body ? "add_geom\n" : "") + "init_state\n";}
static std::string again(std::string base) {return "input_data = {" + base + "}\nread_mesh\nread_state\n";}
static uint64_t digest(Case& c)
{
  auto& el = dynamic_cast<Accessible_mesh&>(case_solver(c)->mesh()).elements(); int nd = case_solver(c)->storage_params().n_dim; uint64_t sum = 17*el.size() + 1;
  for (int i = 0; i < el.size(); ++i) {
    uint64_t h = vx::fnv(el[i].state(), 8*case_solver(c)->storage_params().n_dof());
    for (int v = 0; v < (1 << nd); ++v) for (int d = 0; d < nd; ++d) {int64_t q = llround(el[i].vertex(v).pos(d)*1e9); h = vx::fnv(&q, 8, h);}
    sum += h*(2*h + 1);
  }
  return sum;
}
// what other processes report
struct Shared {long n; uint64_t digest; int done; char text [400];}; static Shared* shm = nullptr;
// run something in a process of its own; returns its exit status
static int apart(std::function<void()> f)
{
  fault::n = &shm->n; shm->n = 0; shm->done = 0; shm->digest = 0; shm->text[0] = 0;
  pid_t p = fork();
  if (!p) {
    vx::set_timer(0); alarm(60);
    int null; {fault::Off o; null = open("/dev/null", O_WRONLY);} dup2(null, 2); dup2(null, 1);
    auto note = [](const char* t) {strncpy(shm->text, t, sizeof(shm->text) - 1);};
    try {f(); fault::armed = false; shm->done = 1; _exit(0);} catch (H5::Exception& e) {note(e.getCDetailMsg()); _exit(4);} catch (std::exception& e) {note(e.what()); _exit(3);} catch (...) {_exit(5);}
  }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static uint64_t read_checkpoint(const Setup& su, std::string base) // 0: not readable
{
  if (!fs::exists(dir + base + ".mesh.h5") || !fs::exists(dir + base + ".state.h5")) return 0;
  static std::string aside = top + "read/"; std::string keep = dir, from = dir + base; fs::create_directory(aside);
  int st = apart([&]() {dir = aside; auto c = start(su, again(from)); shm->digest = digest(*c);}); dir = keep;
  return st == 0 ? shm->digest : 0;
}

struct Step {std::string name, cmd; bool output;}; // "restart" has no command
static void history(const Setup& su, std::string name, std::vector<Step> steps, int stride)
{
  fs::remove_all(dir); fs::create_directory(dir);
  auto c = start(su, first(su)); uint64_t prev = 0; // the last complete checkpoint
  std::string so_far;
  auto complete = [](const Step& s) {return s.cmd.find("write_state") != std::string::npos;};
  for (auto& s : steps) {
    so_far += (so_far.empty() ? "" : ", ") + s.name;
    if (s.name == "restart") {c = start(su, again(dir + "latest")); continue;}
    if (s.name == "clean up") {for (auto& e : fs::directory_iterator(dir)) if (e.path().filename().string().compare(0, 4, "iter") == 0 && !fs::is_symlink(e.path())) fs::remove(e.path()); prev = 0; continue;}
    if (!s.output) {case_inter(*c)->exec(s.cmd); continue;}
    copy_dir(dir, snap);
    uint64_t cur = complete(s) ? digest(*c) : prev;
    auto run = [&](fault::Kind k, long at) {return apart([&]() {fault::kind = k; fault::at = at; fault::armed = true; case_inter(*c)->exec(s.cmd); fault::armed = false;});};
    int st = run(fault::count_only, -1); long n = shm->n;
    if (st) {BAD(so_far << ": the output fails: " << shm->text); return;}
    if (n < 2) {BAD("harness: " << so_far << ": only " << n << " system calls"); return;}
    vx::extra("system calls", n);
    int nbad = 0;
    for (long k = 0; k < n && nbad < 3; ++k) for (auto kind : {fault::die_before, fault::tear_half, fault::tear_last, fault::full}) {
      if (kind != fault::die_before && (k + kind)%stride && !vx::thorough()) continue;
      if (!complete(s) && n > 100 && (k + kind)%3 && !vx::thorough()) continue; // exports and visualizations make hundreds of similar calls
      copy_dir(snap, dir); ++vx::evals; ++vx::transitions;
      static const char* kinds [] {"", "killed before", "killed in the middle of", "killed near the end of", "disk full from"};
      std::ostringstream h; h << so_far << " " << kinds[kind] << " system call " << k << " of " << n;
      st = run(kind, k);
      if (kind != fault::full && st != 97) {if (kind == fault::die_before) {BAD("harness: " << h.str() << ": status " << st); return;} continue;} // nothing to tear
      if (kind == fault::full && st == 0 && shm->done) ; // the failure may be reported or not: judged by what is left
      // what is left
      bool intact = !prev; uint64_t last = read_checkpoint(su, "latest"); std::string names;
      if (prev && (last == prev || last == cur)) intact = true;
      std::set<std::string> bases; for (auto& e : fs::directory_iterator(dir)) {std::string f = e.path().filename().string(); size_t p = f.find(".state.h5"); if (p != std::string::npos && f.compare(0, 6, "latest")) bases.insert(f.substr(0, p));}
      if (!intact) for (auto& b : bases) {uint64_t d = read_checkpoint(su, b); if (d && (d == prev || d == cur)) intact = true;}
      if (!intact) {BAD(h.str() << ": neither the previous nor the new checkpoint can be read"); ++nbad; break;}
      if (prev && last != prev && last != cur) {BAD(h.str() << ": `latest` " << (last ? "is neither the previous nor the new checkpoint" : "is not a readable checkpoint")); ++nbad; break;}
      if (!prev && last && last != cur) {BAD(h.str() << ": `latest` is a checkpoint that was never written"); ++nbad; break;}
      // restart in the same directory and repeat the output, twice
      if (kind == fault::full || (k + kind)%(vx::thorough() ? 1 : 3)) {++vx::validated; continue;}
      uint64_t expect = 0;
      st = apart([&]() {
        auto d = start(su, last ? again(dir + "latest") : first(su)); case_inter(*d)->exec("write_mesh\nwrite_state\nwrite_mesh\nwrite_state\nupdate\nwrite_mesh\nwrite_state\n" + s.cmd); shm->digest = digest(*d);
      });
      expect = shm->digest;
      if (st) {BAD(h.str() << ": output after restarting fails (" << st << "): " << shm->text); ++nbad; break;}
      if (read_checkpoint(su, "latest") != expect) {BAD(h.str() << ": the output after restarting is not what was written"); ++nbad; break;}
      ++vx::validated;
    }
    copy_dir(snap, dir);
    try {case_inter(*c)->exec(s.cmd);} catch (std::exception& e) {BAD(so_far << ": the output fails: " << std::string(e.what()).substr(0, 200)); return;}
    if (complete(s)) {prev = cur; uint64_t l = read_checkpoint(su, "latest"); if (l != cur) {BAD(so_far << ": the checkpoint just written cannot be read"); return;}}
    else if (prev && read_checkpoint(su, "latest") != prev) {BAD(so_far << ": the checkpoint has gone"); return;}
    vx::state(name + so_far);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv); vx::case_limit_s = 600;
  char t [] = "/tmp/c25_XXXXXX"; top = std::string(mkdtemp(t)) + "/"; dir = top + "out/"; snap = top + "snap/"; fs::create_directory(snap);
  {std::ofstream g(top + "g.csv"); g << "1.1, -.1\n.7, .5\n1.1, 1.1\n";}
  shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  H5::Exception::dontPrint(); std::cout.rdbuf(nullptr);
  std::string wm = "write_mesh", both = "write_mesh\nwrite_state", rev = "write_state\nwrite_mesh";
  Step init {"initial mesh", wm, true}, up {"update", "update", false}, out {"checkpoint", both, true}, state {"state", "write_state", true}, mesh {"mesh", wm, true}, restart {"restart", "", false}, clean {"clean up", "", false}, vis {"visualize", "visualize", true}, poly {"export", "export_polymesh", true}, other {"reversed checkpoint", rev, true};
  std::vector<std::pair<std::string, std::vector<Step>>> hs {
    {"final output", {init, up, out, up, out, out}},
    {"repeated", {out, out, out}},
    {"restart", {out, restart, out}},
    {"restart later", {init, up, out, restart, up, out, up, out}},
    {"restart of a single checkpoint", {up, up, out, restart, init, up, up, out}},
    {"restart twice", {init, up, out, restart, init, up, out, restart, init, up, out}},
    {"reversed", {other, up, other, restart, other}},
    {"parts", {init, out, state, mesh, state, up, out, mesh}},
    {"files removed", {init, up, out, clean, out, up, out}},
    {"files removed before restarting elsewhere", {out, up, out, clean, init, up, out, restart, out}},
    {"other output", {out, vis, vis, up, vis, out, vis}},
  };
  std::vector<Setup> setups {{1, false, false}, {2, false, false}, {2, true, false}, {3, false, false}};
  int idx = 0;
  for (size_t i = 0; i < setups.size(); ++i) for (auto& h : hs) {
    auto su = setups[i]; cs = std::to_string(su.nd) + "D" + (su.body ? " body " : " ") + h.first; auto steps = h.second;
    if (su.nd == 3 && h.first == "other output") steps.insert(steps.begin() + 1, {poly, poly});
    if (su.nd == 1 && h.first == "other output") continue;
    if (vx::replaying ? cs != vx::replay_case : !vx::mine(idx++)) continue;
    vx::begin_case(cs); history(su, cs, steps, 4);
  }
  fs::remove_all(top);
  return vx::finish();
}
