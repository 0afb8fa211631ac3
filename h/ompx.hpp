// A controlled OpenMP runtime (C12).  The code under test is compiled with -fopenmp -fsanitize=thread but linked to neither
// libgomp nor libtsan: every GOMP_*/omp_* and __tsan_* entry point is defined here.  A parallel region is executed by as many
// logical threads as the plan says, each a coroutine on its own stack; the plan decides the order in which they run and where
// they are preempted (only before synchronising operations, which suffices once plain accesses are shown not to conflict).
// In detect mode every access made by a logical thread to memory other than coroutine stacks is recorded byte by byte and
// checked against the accesses of all other logical threads of the region.  Include in exactly one translation unit.
#ifndef OMPX_HPP_
#define OMPX_HPP_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <sys/mman.h>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <unistd.h>
#include <omp.h>
extern "C" char __libc_single_threaded;
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);
extern "C" int __real___cxa_guard_acquire(int64_t*);
extern "C" void __real___cxa_guard_release(int64_t*);
extern "C" void __real___cxa_guard_abort(int64_t*);

#define NOTS __attribute__((no_sanitize("thread")))
namespace ox
{
enum Kind {plain_read, plain_write, atomic_read, atomic_write};
struct Event {int tid, k; int kind; uintptr_t addr;}; // kind: 0 load, 1 store, 2 read-modify-write, 3 lock
struct Preempt {int64_t region; int tid1, k1, tid2, k2;};
struct Plan
{
  int n_threads = 512; // if at least the number of iterations, every iteration is its own thread
  int order = 0; // 0 ascending, 1 descending, 2 even then odd, 3 from the middle
  bool detect = false;
  std::vector<Preempt> preempts;
};
struct Race {std::string what; uintptr_t pc[2]; int kind[2];};

// ---- state ----
static Plan plan;
static volatile bool rec = false; // inside a logical thread and detecting
static bool in_region = false;
static int cur = 0, team = 1;
static int64_t n_regions = 0, n_access = 0, n_switch = 0, n_preempted = 0;
static std::vector<std::vector<Event>> log_; // per region, in detect mode
static std::vector<uintptr_t> region_fn;
static std::map<std::pair<uintptr_t, uintptr_t>, Race> races;
static std::map<uintptr_t, int> region_count; // outlined function -> number of executions
static bool failed_exc = false;
static const char* main_lo; static uintptr_t image_base;

// ---- coroutines ----
extern "C" void ox_switch(void** save, void* to);
asm(R"(
.text
.globl ox_switch
.type ox_switch,@function
ox_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size ox_switch,.-ox_switch
)");
enum St {fresh, ready, barrier, blocked, done};
struct Co {void* sp = nullptr; char* stack = nullptr; St st = fresh; int n_sync = 0; int limit = -1; int owner = -1; uint16_t lockset = 0; int64_t dyn = 0;};
static const size_t stack_size = 512*1024; static char* arena = nullptr; static const size_t n_stacks = 600;
static std::vector<char*> free_stacks;
static std::vector<Co> cos;
static void* main_sp; static void (*fn_)(void*); static void* data_;
static int preempt_to = -1;

struct Guard {bool s; NOTS Guard() {s = rec; rec = false;} NOTS ~Guard() {rec = s;}};

// ---- locksets: small sets of locks, numbered ----
static std::vector<std::set<uintptr_t>> sets {{}}; static std::map<std::set<uintptr_t>, int> set_id {{{}, 0}};
static std::vector<std::vector<char>> meet;
static int intern(const std::set<uintptr_t>& s)
{
  auto it = set_id.find(s); if (it != set_id.end()) return it->second;
  if (sets.size() > 65000) {fprintf(stderr, "ompx: too many locksets\n"); abort();}
  int id = sets.size(); sets.push_back(s); set_id[s] = id; return id;
}
static bool disjoint(int a, int b) {if (!a || !b) return true; for (auto x : sets[a]) if (sets[b].count(x)) return false; return true;}

// ---- shadow memory ----
struct Ent {int16_t tid; uint16_t ls; uint32_t used;};  // `used`: program counter, 0 if empty
struct Cell {Ent e[4][2];};
struct Line {Cell c[64];};
static std::vector<Line*> pool; static size_t pool_used = 0;
struct Slot {uintptr_t key; uint32_t epoch, line;};
static const size_t n_slots = 1 << 20; static Slot* slots = nullptr; static uint32_t epoch = 0;
static uintptr_t last_key = 0; static Line* last_line = nullptr;
NOTS static Line* line_of(uintptr_t key)
{
  if (key == last_key && last_line) return last_line;
  size_t h = (key*0x9E3779B97F4A7C15ull) >> 44;
  while (slots[h].epoch == epoch && slots[h].key != key) h = (h + 1)%n_slots;
  if (slots[h].epoch != epoch) {
    if (pool_used == pool.size()) {Line* l = (Line*) mmap(nullptr, sizeof(Line), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); pool.push_back(l);}
    else __real_memset(pool[pool_used], 0, sizeof(Line));
    slots[h] = Slot{key, epoch, uint32_t(pool_used++)};
    if (pool_used > n_slots/2) {fprintf(stderr, "ompx: region %#lx touches too much memory\n", (unsigned long) region_fn.back()); abort();}
  }
  last_key = key; return last_line = pool[slots[h].line];
}
NOTS static void clear_shadow() {++epoch; pool_used = 0; last_line = nullptr; last_key = 0;}
static void report(uintptr_t addr, int kind, uintptr_t pc, int okind, const Ent& o)
{
  uintptr_t p = pc - image_base, q = o.used; auto k = std::make_pair(std::min(p, q), std::max(p, q));
  if (races.size() < 100 && !races.count(k)) races[k] = Race{"", {p, q}, {kind, okind}};
}
NOTS static void access(uintptr_t a, size_t n, int kind, uintptr_t pc)
{
  if (!rec) return;
  if (a - (uintptr_t) arena < stack_size*n_stacks) return;
  rec = false; ++n_access;
  uint16_t ls = cos[cur].lockset; bool wr = kind == plain_write || kind == atomic_write, at = kind >= atomic_read;
  for (size_t i = 0; i < n; ++i) {
    uintptr_t x = a + i; Cell& c = line_of(x >> 6)->c[x & 63];
    Ent* mine = c.e[kind];
    if ((mine[0].used && mine[0].tid == cur && mine[0].ls == ls) || (mine[1].used && mine[1].tid == cur && mine[1].ls == ls)) continue;
    for (int k = 0; k < 4; ++k) {
      bool owr = k == plain_write || k == atomic_write; if (!wr && !owr) continue;
      if (at && k >= atomic_read) continue;
      for (int j = 0; j < 2; ++j) if (c.e[k][j].used && c.e[k][j].tid != cur && disjoint(c.e[k][j].ls, ls)) report(x, kind, pc, k, c.e[k][j]);
    }
    // keep two entries with different threads; prefer entries without locks
    int j = !mine[0].used ? 0 : !mine[1].used ? 1 : mine[0].tid == cur ? 0 : 1;
    if (mine[j].used && mine[j].tid == cur && mine[j].ls == 0) continue;
    mine[j] = Ent{int16_t(cur), ls, uint32_t(pc - image_base)};
  }
  rec = true;
}

// a block that only this logical thread has touched may be recycled at once
NOTS static Line* find_line(uintptr_t key)
{
  size_t h = (key*0x9E3779B97F4A7C15ull) >> 44;
  while (slots[h].epoch == epoch && slots[h].key != key) h = (h + 1)%n_slots;
  return slots[h].epoch == epoch ? pool[slots[h].line] : nullptr;
}
NOTS static bool purge(void* p)
{
  if (!plan.detect) return false;
  bool s = rec; rec = false;
  size_t n = malloc_usable_size(p); uintptr_t a = (uintptr_t) p;
  for (int pass : {0, 1}) for (uintptr_t x = a; x < a + n;) {
    uintptr_t end = std::min(a + n, ((x >> 6) + 1) << 6); Line* l = find_line(x >> 6);
    if (l) {
      if (pass) __real_memset(&l->c[x & 63], 0, sizeof(Cell)*(end - x));
      else for (; x < end; ++x) for (int k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) {auto& e = l->c[x & 63].e[k][j]; if (e.used && e.tid != cur) {rec = s; return false;}}
    }
    x = end;
  }
  rec = s; return true;
}

// ---- scheduling ----
NOTS static void yield_main() {void** s = &cos[cur].sp; ++n_switch; ox_switch(s, main_sp);}
NOTS static void sync_point(int kind, uintptr_t addr)
{
  if (!in_region) return;
  bool s = rec; rec = false;
  Co& c = cos[cur];
  // the plan may end this thread's turn here or hand over to another one
  if (c.limit >= 0 && c.n_sync > c.limit) {c.limit = -1; yield_main();}
  for (auto& p : plan.preempts) if (p.region == n_regions - 1 && p.tid1 == cur && p.k1 == c.n_sync && cos[p.tid2].st != done) {preempt_to = p.tid2; cos[p.tid2].limit = p.k2; ++n_preempted; yield_main();}
  if (plan.detect && log_.size()) log_.back().push_back(Event{cur, c.n_sync, kind, addr});
  ++c.n_sync;
  rec = s;
}
static std::map<uintptr_t, int> owner; static std::vector<std::set<uintptr_t>> held;
static void acquire(uintptr_t l)
{
  if (!in_region) return;
  sync_point(3, l);
  Guard g;
  while (true) {
    auto it = owner.find(l); if (it == owner.end()) break;
    if (it->second == cur) {fprintf(stderr, "ompx: a thread waits for a lock it holds\n"); abort();}
    cos[cur].st = blocked; cos[cur].owner = it->second; yield_main(); cos[cur].st = ready;
  }
  owner[l] = cur; held[cur].insert(l); cos[cur].lockset = intern(held[cur]);
}
static void release(uintptr_t l)
{
  if (!in_region) return;
  Guard g; owner.erase(l); held[cur].erase(l); cos[cur].lockset = intern(held[cur]);
}
extern "C" NOTS void ox_entry()
{
  bool d = plan.detect;
  try {rec = d; fn_(data_);} catch (...) {rec = false; failed_exc = true;}
  rec = false; cos[cur].st = done; free_stacks.push_back(cos[cur].stack);
  void* dummy; ox_switch(&dummy, main_sp); abort();
}
NOTS static void resume(int t)
{
  Co& c = cos[t]; cur = t;
  if (c.st == fresh) {
    if (free_stacks.empty()) {fprintf(stderr, "ompx: out of stacks\n"); abort();}
    c.stack = free_stacks.back(); free_stacks.pop_back(); c.st = ready;
    uintptr_t* sp = (uintptr_t*) (c.stack + stack_size - 64); sp = (uintptr_t*) ((uintptr_t) sp & ~uintptr_t(15));
    *--sp = 0; *--sp = (uintptr_t) &ox_entry; for (int i = 0; i < 6; ++i) *--sp = 0;
    c.sp = sp;
    rec = false; ox_switch(&main_sp, c.sp);
  } else {rec = false; ++n_switch; bool d = c.st == ready; (void) d; ox_switch(&main_sp, c.sp);}
  rec = false;
}
NOTS static void run_team(void (*fn)(void*), void* data, int n)
{
  if (!arena) {
    arena = (char*) mmap(nullptr, stack_size*n_stacks, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    for (size_t i = n_stacks; i-- > 0;) free_stacks.push_back(arena + i*stack_size);
    slots = (Slot*) mmap(nullptr, n_slots*sizeof(Slot), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {image_base = i->dlpi_addr; return 1;}, nullptr);
    __libc_single_threaded = 0;
  }
  fn_ = fn; data_ = data; team = n; cos.assign(n, Co()); held.assign(n, {}); owner.clear(); sets.resize(1); set_id.clear(); set_id[{}] = 0;
  ++n_regions; ++region_count[(uintptr_t) fn - image_base];
  if (plan.detect) {clear_shadow(); log_.emplace_back(); region_fn.push_back((uintptr_t) fn - image_base);}
  std::vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i);
  if (plan.order == 1) for (int i = 0; i < n; ++i) ord[i] = n - 1 - i;
  if (plan.order == 2) {ord.clear(); for (int s : {0, 1}) for (int i = s; i < n; i += 2) ord.push_back(i);}
  if (plan.order == 3) for (int i = 0; i < n; ++i) ord[i] = (i + n/2)%n;
  std::vector<int> stk; size_t first = 0;
  in_region = true;
  while (true) {
    while (first < ord.size() && cos[ord[first]].st == done) ++first;
    if (first == ord.size()) break;
    while (stk.size() && (cos[stk.back()].st == done || cos[stk.back()].st == barrier)) stk.pop_back();
    int t = -1;
    if (stk.size()) t = stk.back();
    else for (size_t i = first; i < ord.size(); ++i) if (cos[ord[i]].st != done && cos[ord[i]].st != barrier) {t = ord[i]; break;}
    if (t < 0) { // everybody is at the barrier
      for (auto& c : cos) if (c.st == barrier) c.st = ready;
      if (plan.detect) clear_shadow();
      continue;
    }
    preempt_to = -1; bool top = stk.size(); int lim = cos[t].limit;
    resume(t);
    if (cos[t].st == blocked) {if (stk.size() > 64) {fprintf(stderr, "ompx: deadlock\n"); abort();} stk.push_back(cos[t].owner); continue;}
    if (preempt_to >= 0) stk.push_back(preempt_to);
    else if (top && lim >= 0 && cos[t].limit < 0) stk.pop_back(); // its part of the plan is over
  }
  in_region = false; rec = false; cur = 0; team = 1;
}
// memory released by a logical thread is only recycled after the region
static void* deferred = nullptr; // linked through the blocks themselves
NOTS static void parallel(void (*fn)(void*), void* data, unsigned n)
{
  if (in_region) {fn(data); return;}
  run_team(fn, data, n ? n : plan.n_threads);
  while (deferred) {void* n = *(void**) deferred; __real_free(deferred); deferred = n;}
}
// schedule(dynamic) and the like: the k-th logical thread takes the k-th iteration
struct Dyn {long next, end, incr, chunk;}; static Dyn dyn; static bool dyn_started = false;
static std::map<uintptr_t, std::string> where_cache;
static void resolve(const std::set<uintptr_t>& pcs) // one call of addr2line for all of them
{
  char exe [500]; ssize_t l = readlink("/proc/self/exe", exe, 499); exe[l > 0 ? l : 0] = 0;
  std::vector<uintptr_t> todo; for (auto p : pcs) if (!where_cache.count(p)) todo.push_back(p);
  if (todo.empty()) return;
  std::string cmd = std::string("addr2line -Cfse ") + exe; char b [2000];
  for (auto p : todo) {snprintf(b, 100, " %#lx", (unsigned long) p - 1); cmd += b;}
  cmd += " 2>/dev/null";
  if (FILE* f = popen(cmd.c_str(), "r")) {
    for (auto p : todo) {
      std::string r;
      for (int k = 0; k < 2; ++k) if (fgets(b, 2000, f)) {
        std::string s = b; while (s.size() && s.back() == '\n') s.pop_back();
        size_t d = s.find(" (discriminator"); if (d != std::string::npos) s = s.substr(0, d);
        if (s.size() > 160) s = s.substr(0, 160);
        r += (r.size() ? " at " : "") + s;
      }
      where_cache[p] = r;
    }
    pclose(f);
  }
}
static std::string where(uintptr_t pc) {resolve({pc}); return where_cache[pc];}
static void begin(const Plan& p) {plan = p; n_regions = 0; log_.clear(); region_fn.clear(); races.clear(); failed_exc = false;}
}

extern "C" {
NOTS void* __wrap_memcpy(void* d, const void* s, size_t n) {if (ox::rec) {uintptr_t pc = (uintptr_t) __builtin_return_address(0); ox::access((uintptr_t) s, n, ox::plain_read, pc); ox::access((uintptr_t) d, n, ox::plain_write, pc);} return __real_memcpy(d, s, n);}
NOTS void* __wrap_memmove(void* d, const void* s, size_t n) {if (ox::rec) {uintptr_t pc = (uintptr_t) __builtin_return_address(0); ox::access((uintptr_t) s, n, ox::plain_read, pc); ox::access((uintptr_t) d, n, ox::plain_write, pc);} return __real_memmove(d, s, n);}
NOTS void* __wrap_memset(void* d, int c, size_t n) {if (ox::rec) ox::access((uintptr_t) d, n, ox::plain_write, (uintptr_t) __builtin_return_address(0)); return __real_memset(d, c, n);}
NOTS void __wrap_free(void* p) {if (ox::in_region && p && !ox::purge(p)) {*(void**) p = ox::deferred; ox::deferred = p;} else __real_free(p);}
NOTS void* __wrap_realloc(void* p, size_t n) {return __real_realloc(p, n);}
NOTS int __wrap___cxa_guard_acquire(int64_t* g) {int r = __real___cxa_guard_acquire(g); if (r && ox::in_region) ox::rec = false; return r;}
NOTS void __wrap___cxa_guard_release(int64_t* g) {__real___cxa_guard_release(g); if (ox::in_region) ox::rec = ox::plan.detect;}
NOTS void __wrap___cxa_guard_abort(int64_t* g) {__real___cxa_guard_abort(g); if (ox::in_region) ox::rec = ox::plan.detect;}

#define OX_RW(n) \
NOTS void __tsan_read##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_read, (uintptr_t) __builtin_return_address(0));} \
NOTS void __tsan_write##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_write, (uintptr_t) __builtin_return_address(0));} \
NOTS void __tsan_unaligned_read##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_read, (uintptr_t) __builtin_return_address(0));} \
NOTS void __tsan_unaligned_write##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_write, (uintptr_t) __builtin_return_address(0));} \
NOTS void __tsan_volatile_read##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_read, (uintptr_t) __builtin_return_address(0));} \
NOTS void __tsan_volatile_write##n(void* a) {ox::access((uintptr_t) a, n, ox::plain_write, (uintptr_t) __builtin_return_address(0));}
OX_RW(1) OX_RW(2) OX_RW(4) OX_RW(8) OX_RW(16)
NOTS void __tsan_read_range(void* a, size_t n) {ox::access((uintptr_t) a, n, ox::plain_read, (uintptr_t) __builtin_return_address(0));}
NOTS void __tsan_write_range(void* a, size_t n) {ox::access((uintptr_t) a, n, ox::plain_write, (uintptr_t) __builtin_return_address(0));}
NOTS void __tsan_vptr_read(void** a) {ox::access((uintptr_t) a, 8, ox::plain_read, (uintptr_t) __builtin_return_address(0));}
NOTS void __tsan_vptr_update(void** a, void* v) {if (*a != v) ox::access((uintptr_t) a, 8, ox::plain_write, (uintptr_t) __builtin_return_address(0));}
NOTS void __tsan_init() {}
NOTS void __tsan_func_entry(void*) {}
NOTS void __tsan_func_exit() {}
NOTS void __tsan_atomic_thread_fence(int) {}
NOTS void __tsan_atomic_signal_fence(int) {}

#define OX_PC (uintptr_t) __builtin_return_address(0)
#define OX_AT(bits, T) \
NOTS T __tsan_atomic##bits##_load(const volatile T* a, int) {ox::sync_point(0, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_read, OX_PC); return *a;} \
NOTS void __tsan_atomic##bits##_store(volatile T* a, T v, int) {ox::sync_point(1, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); *a = v;} \
NOTS T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {ox::sync_point(1, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = v; return o;} \
NOTS T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = o + v; return o;} \
NOTS T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = o - v; return o;} \
NOTS T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = o & v; return o;} \
NOTS T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = o | v; return o;} \
NOTS T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; *a = o ^ v; return o;} \
NOTS int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); if (*a == *c) {*a = v; return 1;} *c = *a; return 0;} \
NOTS int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); if (*a == *c) {*a = v; return 1;} *c = *a; return 0;} \
NOTS T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {ox::sync_point(2, (uintptr_t) a); ox::access((uintptr_t) a, sizeof(T), ox::atomic_write, OX_PC); T o = *a; if (o == c) *a = v; return o;}
OX_AT(8, unsigned char) OX_AT(16, unsigned short) OX_AT(32, unsigned) OX_AT(64, unsigned long)

int omp_get_thread_num() noexcept {return ox::in_region ? ox::cur : 0;}
int omp_get_num_threads() noexcept {return ox::in_region ? ox::team : 1;}
int omp_get_max_threads() noexcept {return 1;}
int omp_get_num_procs() noexcept {return 1;}
void omp_set_num_threads(int) noexcept {}
int omp_get_level() noexcept {return ox::in_region;}
int omp_in_parallel() noexcept {return ox::in_region;}
int omp_get_nested() noexcept {return 0;}
void omp_set_nested(int) noexcept {}
void omp_set_dynamic(int) noexcept {}
int omp_get_dynamic() noexcept {return 0;}
double omp_get_wtime() noexcept {return 0;}
void omp_init_lock(omp_lock_t*) noexcept {}
void omp_destroy_lock(omp_lock_t*) noexcept {}
void omp_set_lock(omp_lock_t* l) noexcept {ox::acquire((uintptr_t) l);}
void omp_unset_lock(omp_lock_t* l) noexcept {ox::release((uintptr_t) l);}
int omp_test_lock(omp_lock_t* l) noexcept {ox::acquire((uintptr_t) l); return 1;}
void omp_init_nest_lock(omp_nest_lock_t*) noexcept {}
void omp_destroy_nest_lock(omp_nest_lock_t*) noexcept {}
void omp_set_nest_lock(omp_nest_lock_t* l) noexcept {ox::acquire((uintptr_t) l);}
void omp_unset_nest_lock(omp_nest_lock_t* l) noexcept {ox::release((uintptr_t) l);}
void GOMP_critical_start() {ox::acquire(1);}
void GOMP_critical_end() {ox::release(1);}
void GOMP_critical_name_start(void** n) {ox::acquire((uintptr_t) n);}
void GOMP_critical_name_end(void** n) {ox::release((uintptr_t) n);}
void GOMP_atomic_start() {ox::acquire(2);}
void GOMP_atomic_end() {ox::release(2);}
NOTS void GOMP_barrier() {if (!ox::in_region || ox::team == 1) return; ox::rec = false; ox::cos[ox::cur].st = ox::barrier; ox::yield_main(); ox::rec = ox::plan.detect;}
bool GOMP_single_start() {return ox::cur == 0;}
NOTS void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {ox::parallel(fn, data, n);}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {ox::parallel(fn, data, n); return n;}
NOTS static bool ox_next(long* s, long* e)
{
  auto& d = ox::dyn; if (d.incr > 0 ? d.next >= d.end : d.next <= d.end) return false;
  *s = d.next; d.next += d.incr; *e = d.incr > 0 ? std::min(d.next, d.end) : std::max(d.next, d.end); return true;
}
// one iteration per thread, except that the last thread finishes whatever is left
NOTS static bool ox_take(long* s, long* e)
{
  auto& c = ox::cos[ox::cur]; if (c.dyn++ && ox::cur != ox::team - 1 && ox::team > 64) return false;
  return ox_next(s, e);
}
#define OX_DYN(kind) \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long, unsigned) {if (!ox::in_region) ox::dyn = {s, e, i, 1}; ox::parallel(fn, data, n);} \
bool GOMP_loop_##kind##_start(long s, long e, long i, long, long* a, long* b) {if (!ox::dyn_started) {ox::dyn = {s, e, i, 1}; ox::dyn_started = true;} return ox_take(a, b);} \
bool GOMP_loop_##kind##_next(long* a, long* b) {return ox_take(a, b);}
OX_DYN(dynamic) OX_DYN(guided) OX_DYN(nonmonotonic_dynamic) OX_DYN(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) {if (!ox::in_region) ox::dyn = {s, e, i, 1}; ox::parallel(fn, data, n);}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) {if (!ox::in_region) ox::dyn = {s, e, i, 1}; ox::parallel(fn, data, n);}
bool GOMP_loop_runtime_next(long* a, long* b) {return ox_take(a, b);}
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) {return ox_take(a, b);}
void GOMP_loop_end() {GOMP_barrier();}
void GOMP_loop_end_nowait() {}
}
void operator delete(void* p) noexcept {free(p);}
void operator delete(void* p, size_t) noexcept {free(p);}
void operator delete[](void* p) noexcept {free(p);}
void operator delete[](void* p, size_t) noexcept {free(p);}
void* operator new(size_t n) {void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;}
void* operator new[](size_t n) {void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;}
#endif
