// simrt: simulation runtime linked into the instrumented build of philtorch's
// native kernels.  Compiled WITHOUT -fsanitize=thread.
//
//  * stands in for the tsan runtime: every load/store of the kernels calls us;
//  * stands in for libgomp: workers are real pthreads, parked and released one
//    at a time; a seeded (or explicit) scheduler chooses who runs at each access;
//  * vector-clock race detector over the accesses of a parallel region;
//  * CPU allocator for torch: red zones, seeded contents of fresh memory, k-th
//    allocation failure, accounting, ownership and read-only marks.
//
// Nothing here reads a clock or a source of randomness other than the seed.
#include <c10/core/Allocator.h>
#include <c10/core/CPUAllocator.h>
#include <c10/util/Exception.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <new>
#include <thread>
#include <unordered_map>
#include <vector>

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define HIDDEN extern "C"

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ------------------------------------------------------------------ RNG/hash
static inline u64 splitmix(u64 &s) {
  u64 z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 fnv(u64 h, u64 v) {
  h ^= v;
  h *= 0x100000001b3ull;
  return h ^ (h >> 29);
}

// ---------------------------------------------------------------- violations
static char g_viol[1024];
static int g_viol_count;
static void violation(const char *fmt, ...) {
  if (g_viol_count++ == 0) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_viol, sizeof g_viol, fmt, ap);
    va_end(ap);
  }
}
EXPORT const char *sim_violation() { return g_viol_count ? g_viol : ""; }
EXPORT int sim_violation_count() { return g_viol_count; }
EXPORT void sim_violation_clear() {
  g_viol_count = 0;
  g_viol[0] = 0;
}

// ----------------------------------------------------------------- allocator
static const size_t GR = 64;                       // granule
static const size_t RED = 64;                      // red zone on each side
static const size_t ARENA = (size_t)24 << 30;      // virtual
static const size_t CHECKED = ARENA;
static u8 *g_base;
static size_t g_top;                               // bump offset
static u32 *g_owner;                               // granule -> chunk id (0 none)
static bool g_alloc_on;

struct Chunk {
  u32 id;
  size_t off;    // of user data
  size_t size;   // user bytes
  size_t total;  // including red zones, multiple of GR
  bool live;
  bool in_call;  // accessible to the current kernel call
  bool readonly;
};
static std::vector<Chunk *> g_chunks{nullptr};
static std::unordered_map<size_t, std::vector<size_t>> g_free;  // total -> offs
static std::deque<Chunk *> g_quarantine;
static size_t g_quar_bytes;
// recycling: memory freed since it was switched on is handed out again at once,
// last freed first, as ordinary allocators do
static bool g_recycle;
static std::unordered_map<size_t, std::vector<size_t>> g_recycled;
static u64 g_recycle_hits;
static const size_t QUAR_MAX = (size_t)48 << 20;
static u64 g_live_bytes, g_live_count, g_allocs, g_peak;
static int g_fill_mode = 1;
static u64 g_fill_seed = 1;
static int64_t g_fail_at = -1;     // allocations until failure; -1 = never
static u64 g_failed;
static bool g_call_active;         // ownership checks on
static std::recursive_mutex g_amu;

static void fill(u8 *p, size_t n) {
  switch (g_fill_mode) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xff, n); break;  // NaN / -1
  case 2: {                           // pseudo-random bytes
    u64 s = g_fill_seed ^ (g_allocs * 0x9e37ull);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      u64 v = splitmix(s);
      memcpy(p + i, &v, 8);
    }
    if (i < n) {
      u64 v = splitmix(s);
      memcpy(p + i, &v, n - i);
    }
    break;
  }
  case 3: memset(p, 0x41, n); break;  // finite: 2.26e6 (double), 12.08 (float)
  case 4: break;                      // leave whatever was there
  default: {                          // finite doubles around 1
    u64 s = g_fill_seed ^ (g_allocs * 0x9e37ull);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      double d = 1.0 + (double)(splitmix(s) % 1000) / 100.0;
      memcpy(p + i, &d, 8);
    }
    if (i < n) memset(p + i, 0x3f, n - i);
  }
  }
}

static Chunk *chunk_of_off(size_t off) {
  u32 id = g_owner[off / GR];
  return id ? g_chunks[id] : nullptr;
}

static void arena_free(void *p) {
  if (!p) return;
  std::lock_guard<std::recursive_mutex> l(g_amu);
  size_t off = (u8 *)p - g_base;
  Chunk *c = chunk_of_off(off);
  if (!c || c->off != off || !c->live) {
    violation("allocator: invalid or double free");
    return;
  }
  c->live = false;
  g_live_bytes -= c->size;
  g_live_count--;
  if (g_fill_mode != 4) memset(p, 0xfd, c->size);
  if (g_recycle) {
    g_recycled[c->total].push_back(c->off - RED);
    return;
  }
  g_quarantine.push_back(c);
  g_quar_bytes += c->total;
  while (g_quar_bytes > QUAR_MAX || g_quarantine.size() > 4096) {
    Chunk *q = g_quarantine.front();
    g_quarantine.pop_front();
    g_quar_bytes -= q->total;
    g_free[q->total].push_back(q->off - RED);
    // owner entries stay until reused; mark chunk dead
  }
}

static void shadow_forget(uintptr_t a, size_t n);
static void *arena_alloc(size_t n) {
  std::lock_guard<std::recursive_mutex> l(g_amu);
  g_allocs++;
  if (g_fail_at >= 0) {
    if (g_fail_at == 0) {
      g_fail_at = -1;
      g_failed++;
      return nullptr;
    }
    g_fail_at--;
  }
  size_t body = (n + GR - 1) / GR * GR;
  size_t total = body + 2 * RED;
  size_t start;
  Chunk *c = nullptr;
  auto &rl = g_recycled[total];
  auto &fl = g_recycle && !rl.empty() ? rl : g_free[total];
  if (!fl.empty()) {
    if (&fl == &rl) g_recycle_hits++;
    start = fl.back();
    fl.pop_back();
    c = chunk_of_off(start + RED);
  }
  if (!c) {
    start = g_top;
    if (g_top + total > ARENA) {
      fprintf(stderr, "simrt: arena exhausted\n");
      abort();
    }
    g_top += total;
    c = new Chunk;
    c->id = (u32)g_chunks.size();
    g_chunks.push_back(c);
    for (size_t g = start / GR; g < (start + total) / GR; ++g) g_owner[g] = c->id;
  }
  c->off = start + RED;
  c->size = n;
  c->total = total;
  c->live = true;
  c->in_call = g_call_active;
  c->readonly = false;
  g_live_bytes += n;
  g_live_count++;
  if (g_live_bytes > g_peak) g_peak = g_live_bytes;
  u8 *p = g_base + c->off;
  fill(p, body);
  shadow_forget((uintptr_t)p, body);
  return p;
}

struct SimAllocator final : public c10::Allocator {
  c10::DataPtr allocate(size_t n) override {
    void *p = arena_alloc(n ? n : 0);
    if (!p)
      TORCH_CHECK(false, "[enforce fail at alloc_cpu.cpp] data. DefaultCPUAllocator: not enough memory: you tried to allocate ", n, " bytes. (simulated)");
    return {p, p, &SimAllocator::del, at::Device(at::DeviceType::CPU)};
  }
  static void del(void *p) { arena_free(p); }
  at::DeleterFnPtr raw_deleter() const override { return &SimAllocator::del; }
  void copy_data(void *dest, const void *src, std::size_t count) const override {
    memcpy(dest, src, count);
  }
};

EXPORT int sim_install_allocator() {
  if (g_alloc_on) return 0;
  g_base = (u8 *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_owner = (u32 *)mmap(nullptr, ARENA / GR * 4, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_base == MAP_FAILED || g_owner == MAP_FAILED) return -1;
  static SimAllocator *a = new SimAllocator;
  c10::SetCPUAllocator(a, 200);
  g_alloc_on = true;
  return 0;
}
EXPORT void sim_alloc_fill(int mode, u64 seed) {
  g_fill_mode = mode;
  g_fill_seed = seed;
}
EXPORT void sim_alloc_recycle(int on) {
  std::lock_guard<std::recursive_mutex> l(g_amu);
  g_recycle = on;
  for (auto &kv : g_recycled) {
    auto &f = g_free[kv.first];
    f.insert(f.end(), kv.second.begin(), kv.second.end());
  }
  g_recycled.clear();
  g_recycle_hits = 0;
}
EXPORT u64 sim_alloc_recycled() { return g_recycle_hits; }
EXPORT void sim_alloc_fail_at(int64_t k) { g_fail_at = k; }
EXPORT u64 sim_alloc_failed() { return g_failed; }
EXPORT u64 sim_alloc_count() { return g_allocs; }
EXPORT u64 sim_alloc_live_bytes() { return g_live_bytes; }
EXPORT u64 sim_alloc_live_count() { return g_live_count; }
EXPORT int sim_in_arena(void *p) {
  return g_base && (u8 *)p >= g_base && (u8 *)p < g_base + ARENA;
}

// ------------------------------------------------------------ memory checking
static std::atomic<int> g_mode{0};  // bit0: region/alloc checks, bit1: caller mode
static u64 g_accesses;

static void sim_arg_mark(void *p, bool in_call, bool ro) {
  if (!sim_in_arena(p)) return;
  Chunk *c = chunk_of_off((u8 *)p - g_base);
  if (c) {
    c->in_call = in_call;
    c->readonly = ro;
  }
}
// declare the buffers the next kernel call may read
EXPORT void sim_call_begin(void **args, int n) {
  for (size_t i = 1; i < g_chunks.size(); ++i) {
    g_chunks[i]->in_call = false;
    g_chunks[i]->readonly = false;
  }
  for (int i = 0; i < n; ++i) sim_arg_mark(args[i], true, true);
  g_call_active = true;
  g_mode |= 1;
}
EXPORT void sim_call_end() {
  g_call_active = false;
  g_mode &= ~1;
}

static __thread int tl_tid = -1;  // worker id within the current team

static void check_mem(uintptr_t a, size_t n, bool write) {
  if (!g_base || a < (uintptr_t)g_base || a >= (uintptr_t)g_base + ARENA) return;
  size_t off = a - (uintptr_t)g_base;
  Chunk *c = chunk_of_off(off);
  const char *k = write ? "write" : "read";
  if (!c) {
    violation("memory: %s of %zu bytes outside any buffer", k, n);
    return;
  }
  int64_t rel = (int64_t)off - (int64_t)c->off;
  if (rel < 0 || (size_t)rel + n > c->size) {
    violation("memory: %s of %zu bytes at offset %lld of a buffer of %zu bytes (out of bounds)", k, n,
              (long long)rel, c->size);
    return;
  }
  if (!c->live) {
    violation("memory: %s of %zu bytes at offset %lld of a freed buffer", k, n, (long long)rel);
    return;
  }
  if (g_call_active) {
    if (!c->in_call)
      violation("memory: %s at offset %lld of a buffer (%zu bytes) that is neither an argument nor a result of the call", k,
                (long long)rel, c->size);
    else if (write && c->readonly)
      violation("memory: write at offset %lld of an argument buffer (%zu bytes)", (long long)rel, c->size);
  }
}

// ------------------------------------------------------------- OpenMP sim
enum { MAXT = 32 };
enum Strat { S_SEQ = 0, S_RANDOM = 1, S_PCT = 2, S_RR = 3, S_EXPLICIT = 4, S_REVERSE = 5, S_BURST = 6 };

struct Worker {
  pthread_t th;
  sem_t go;
  bool started = false;
};
static Worker g_workers[MAXT];

enum TState : int { T_DONE = 0, T_RUN, T_BLOCK };

struct WorkShare {  // per construct instance
  bool init = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool taken = false;       // single
  void *copy = nullptr;     // single copyprivate
  bool copy_ready = false;
  int arrived = 0;
};

struct Team {
  int n = 1;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  TState st[MAXT];
  int barrier_waiting = 0;
  u32 vc[MAXT][MAXT];
  int wsi[MAXT];  // work-share index per thread
  std::map<int, WorkShare> ws;
  std::map<const void *, int> lock_owner;           // -1 free
  std::map<const void *, std::vector<u32>> lock_vc;  // sync object clocks
  const void *waiting_lock[MAXT];
};

static int g_nthreads = 1;
static int g_strat = S_SEQ;
static u64 g_seed = 1, g_rng = 1;
static double g_prob = 0.1;
static int g_pct_depth = 2;
static u64 g_pct_len = 1000;
static std::vector<std::pair<u64, int>> g_explicit;  // (step, tid)
static size_t g_expl_pos;
static std::vector<std::pair<u64, int>> g_trace;     // switches taken
static u64 g_step, g_hash, g_regions, g_switches, g_step_cap = 40000000ull;
static std::vector<int> g_prio;
static std::vector<u64> g_chg;
static Team *g_team;
static int g_cur;
static bool g_overrun;
static u64 g_race_checks;
static sem_t g_done_sem;

// race shadow: per byte, open addressing with generations
struct Shadow {
  u64 addr;
  u32 gen;
  u32 w_clk;
  u8 w_tid;
  bool w;
  u32 r[MAXT];  // clock of last read per tid (0 = none)
};
static Shadow *g_sh;
static u32 g_gen = 1;
static size_t g_sh_used;
static const size_t SHN = 1 << 18;
static bool g_sh_full;

static Shadow *shadow(u64 addr) {
  if (!g_sh) {
    g_sh = (Shadow *)mmap(nullptr, SHN * sizeof(Shadow), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  u64 h = (addr * 0x9e3779b97f4a7c15ull) >> 46;
  for (size_t i = 0; i < 64; ++i) {
    Shadow &s = g_sh[(h + i) & (SHN - 1)];
    if (s.gen == g_gen && s.addr == addr) return &s;
    if (s.gen != g_gen) {
      s.gen = g_gen;
      s.addr = addr;
      s.w = false;
      memset(s.r, 0, sizeof s.r);
      g_sh_used++;
      return &s;
    }
  }
  g_sh_full = true;
  return nullptr;
}

// memory handed out afresh: earlier accesses by its previous owner are ordered
// before (the heap synchronises), so forget them
static void shadow_forget(uintptr_t a, size_t n) {
  if (!g_sh || !g_team) return;
  if (n > (1u << 16)) n = 1u << 16;
  for (size_t i = 0; i < n; ++i) {
    u64 h = ((u64)(a + i) * 0x9e3779b97f4a7c15ull) >> 46;
    for (size_t k = 0; k < 64; ++k) {
      Shadow &s = g_sh[(h + k) & (SHN - 1)];
      if (s.gen != g_gen) break;
      if (s.addr == a + i) {
        s.w = false;
        memset(s.r, 0, sizeof s.r);
        break;
      }
    }
  }
}

static void describe(uintptr_t a, char *buf, size_t n) {
  if (g_base && a >= (uintptr_t)g_base && a < (uintptr_t)g_base + ARENA) {
    Chunk *c = chunk_of_off(a - (uintptr_t)g_base);
    if (c) {
      snprintf(buf, n, "offset %lld of a %zu-byte tensor buffer", (long long)(a - (uintptr_t)g_base) - (long long)c->off,
               c->size);
      return;
    }
  }
  snprintf(buf, n, "memory outside tensors");
}

static void race_check(uintptr_t a, size_t n, bool write, int t, Team *tm) {
  g_race_checks++;
  for (size_t i = 0; i < n; ++i) {
    Shadow *s = shadow(a + i);
    if (!s) return;
    u32 *vc = tm->vc[t];
    if (s->w && s->w_tid != t && s->w_clk > vc[s->w_tid]) {
      char b[128];
      describe(a + i, b, sizeof b);
      violation("race: worker %d %s %s, unordered with a write by worker %d", t, write ? "writes" : "reads", b, s->w_tid);
      return;
    }
    if (write) {
      for (int o = 0; o < tm->n; ++o)
        if (o != t && s->r[o] && s->r[o] > vc[o]) {
          char b[128];
          describe(a + i, b, sizeof b);
          violation("race: worker %d writes %s, unordered with a read by worker %d", t, b, o);
          return;
        }
      s->w = true;
      s->w_tid = (u8)t;
      s->w_clk = vc[t];
      memset(s->r, 0, sizeof(u32) * tm->n);
    } else {
      s->r[t] = vc[t];
    }
  }
}

static void vc_join(u32 *a, const u32 *b, int n) {
  for (int i = 0; i < n; ++i)
    if (b[i] > a[i]) a[i] = b[i];
}
static void sync_acquire(const void *o) {
  if (!g_team || tl_tid < 0) return;
  auto it = g_team->lock_vc.find(o);
  if (it != g_team->lock_vc.end()) vc_join(g_team->vc[tl_tid], it->second.data(), g_team->n);
}
static void sync_release(const void *o) {
  if (!g_team || tl_tid < 0) return;
  auto &v = g_team->lock_vc[o];
  if (v.empty()) v.assign(MAXT, 0);
  vc_join(v.data(), g_team->vc[tl_tid], g_team->n);
  g_team->vc[tl_tid][tl_tid]++;
}

static void handoff(int to) {  // called by the running worker; parks unless to==self
  int me = tl_tid;
  if (to == me) return;
  g_switches++;
  g_trace.emplace_back(g_step, to);
  g_hash = fnv(g_hash, (g_step << 8) ^ (u64)to ^ 0x5151);
  g_cur = to;
  sem_post(&g_workers[to].go);
  while (sem_wait(&g_workers[me].go) != 0) {
  }
}

static int pick_runnable(Team *t, bool may_stay) {
  int list[MAXT], k = 0;
  for (int i = 0; i < t->n; ++i)
    if (t->st[i] == T_RUN && (may_stay || i != tl_tid)) list[k++] = i;
  if (!k) return -1;
  switch (g_strat) {
  case S_REVERSE: return list[k - 1];
  case S_RR: {
    for (int d = 1; d <= t->n; ++d) {
      int c = (tl_tid + d) % t->n;
      if (t->st[c] == T_RUN && (may_stay || c != tl_tid)) return c;
    }
    return list[0];
  }
  case S_PCT: {
    int best = list[0];
    for (int i = 1; i < k; ++i)
      if (g_prio[list[i]] > g_prio[best]) best = list[i];
    return best;
  }
  case S_RANDOM:
  case S_BURST: return list[splitmix(g_rng) % k];
  default: return list[0];
  }
}

static void preempt_point() {
  Team *t = g_team;
  if (!t || t->n <= 1 || tl_tid < 0) return;
  g_step++;
  if (g_step > g_step_cap) {
    g_overrun = true;
    return;
  }
  int to = tl_tid;
  switch (g_strat) {
  case S_EXPLICIT:
    while (g_expl_pos < g_explicit.size() && g_explicit[g_expl_pos].first < g_step) g_expl_pos++;
    if (g_expl_pos < g_explicit.size() && g_explicit[g_expl_pos].first == g_step) {
      int c = g_explicit[g_expl_pos++].second;
      if (c >= 0 && c < t->n && t->st[c] == T_RUN) to = c;
    }
    break;
  case S_RANDOM:
    if ((splitmix(g_rng) >> 11) * (1.0 / 9007199254740992.0) < g_prob) to = pick_runnable(t, true);
    break;
  case S_BURST:
    if (splitmix(g_rng) % 64 == 0) to = pick_runnable(t, true);
    break;
  case S_RR: to = pick_runnable(t, true); break;
  case S_PCT:
    for (size_t i = 0; i < g_chg.size(); ++i)
      if (g_chg[i] == g_step) g_prio[tl_tid] = -(int)i - 1;
    to = pick_runnable(t, true);
    break;
  default: break;
  }
  if (to != tl_tid) handoff(to);
}

// the running worker cannot continue: give the turn to someone else and wait
static void block_until(Team *t) {
  int to = pick_runnable(t, false);
  if (to < 0) {
    fprintf(stderr, "simrt: deadlock between workers\n");
    violation("deadlock: every worker of the parallel region waits");
    abort();
  }
  handoff(to);
}

static void *worker_main(void *arg) {
  int id = (int)(intptr_t)arg;
  tl_tid = id;
  for (;;) {
    while (sem_wait(&g_workers[id].go) != 0) {
    }
    Team *t = g_team;
    t->fn(t->data);
    // finished: hand the turn on
    t->st[id] = T_DONE;
    int to = pick_runnable(t, false);
    g_step++;
    if (to >= 0) {
      g_switches++;
      g_trace.emplace_back(g_step, to);
      g_hash = fnv(g_hash, (g_step << 8) ^ (u64)to ^ 0x7171);
      g_cur = to;
      sem_post(&g_workers[to].go);
    } else {
      sem_post(&g_done_sem);
    }
  }
  return nullptr;
}

static __thread int tl_caller = -1;
// work share outside of any team: of this thread alone
static thread_local WorkShare g_solo;
static thread_local int tl_team_req;  // from omp_set_num_threads
static void run_solo(void (*fn)(void *), void *data, WorkShare *preset) {
  WorkShare old = g_solo;
  int tid = tl_tid;
  if (preset) {
    tl_tid = -1;
    g_solo = *preset;
  }
  fn(data);
  tl_tid = tid;
  g_solo = old;
}

static void run_team(void (*fn)(void *), void *data, int n, WorkShare *preset) {
  if (tl_tid >= 0 && g_team) {  // nested region: serialised team of one
    run_solo(fn, data, preset);
    return;
  }
  if (g_mode & 2) {  // overlapping callers: each gets a team of one
    g_regions++;
    run_solo(fn, data, preset);
    return;
  }
  if (n <= 0) n = g_nthreads;
  if (n > MAXT) n = MAXT;
  g_regions++;
  if (n == 1 && !preset) {
    // a team of one needs no scheduling; keep hooks counting
    fn(data);
    return;
  }
  Team t;
  memset(t.vc, 0, sizeof t.vc);
  t.n = n;
  t.fn = fn;
  t.data = data;
  for (int i = 0; i < n; ++i) {
    t.st[i] = T_RUN;
    t.vc[i][i] = 1;
    t.wsi[i] = 0;
    t.waiting_lock[i] = nullptr;
    if (i && !g_workers[i].started) {
      sem_init(&g_workers[i].go, 0, 0);
      g_workers[i].started = true;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 1 << 20);
      pthread_create(&g_workers[i].th, &at, worker_main, (void *)(intptr_t)i);
      pthread_attr_destroy(&at);
    }
  }
  if (!g_workers[0].started) {
    sem_init(&g_workers[0].go, 0, 0);
    sem_init(&g_done_sem, 0, 0);
    g_workers[0].started = true;
  }
  if (preset) t.ws[0] = *preset;
  g_gen++;
  g_sh_used = 0;
  g_prio.assign(n, 0);
  g_chg.clear();
  if (g_strat == S_PCT) {
    for (int i = 0; i < n; ++i) g_prio[i] = i + 1;
    for (int i = n - 1; i > 0; --i) std::swap(g_prio[i], g_prio[splitmix(g_rng) % (i + 1)]);
    for (int i = 0; i < g_pct_depth; ++i) g_chg.push_back(g_step + 1 + splitmix(g_rng) % g_pct_len);
  }
  g_team = &t;
  tl_tid = 0;
  g_cur = 0;
  g_mode |= 4;
  // who starts?
  g_step++;
  {
    int to = 0;
    if (g_strat == S_EXPLICIT) {
      while (g_expl_pos < g_explicit.size() && g_explicit[g_expl_pos].first < g_step) g_expl_pos++;
      if (g_expl_pos < g_explicit.size() && g_explicit[g_expl_pos].first == g_step) {
        int c = g_explicit[g_expl_pos++].second;
        if (c >= 0 && c < n) to = c;
      }
    } else
      to = pick_runnable(&t, true);
    if (to != 0) handoff(to);
  }
  fn(data);
  t.st[0] = T_DONE;
  g_step++;
  int to = pick_runnable(&t, false);
  if (to >= 0) {
    g_switches++;
    g_trace.emplace_back(g_step, to);
    g_hash = fnv(g_hash, (g_step << 8) ^ (u64)to ^ 0x7171);
    g_cur = to;
    sem_post(&g_workers[to].go);
    while (sem_wait(&g_done_sem) != 0) {
    }
  }
  g_mode &= ~4;
  tl_tid = -1;
  g_team = nullptr;
}

EXPORT void sim_omp_config(int nthreads, int strat, u64 seed, double prob, int depth, u64 pct_len) {
  g_nthreads = nthreads < 1 ? 1 : nthreads > MAXT ? MAXT : nthreads;
  g_strat = strat;
  g_seed = seed;
  g_rng = seed * 0x2545f4914f6cdd1dull + 7;
  g_prob = prob;
  g_pct_depth = depth;
  g_pct_len = pct_len ? pct_len : 1;
  g_explicit.clear();
  g_expl_pos = 0;
  g_trace.clear();
  g_step = 0;
  g_hash = 0xcbf29ce484222325ull;
  g_regions = g_switches = g_accesses = g_race_checks = 0;
  g_overrun = false;
  g_sh_full = false;
  tl_team_req = 0;
}
EXPORT void sim_omp_explicit(const int64_t *steps, const int64_t *tids, int n) {
  g_explicit.clear();
  for (int i = 0; i < n; ++i) g_explicit.emplace_back((u64)steps[i], (int)tids[i]);
}
EXPORT int sim_omp_trace(int64_t *steps, int64_t *tids, int max) {
  int n = (int)std::min<size_t>(g_trace.size(), (size_t)max);
  for (int i = 0; i < n; ++i) {
    steps[i] = (int64_t)g_trace[i].first;
    tids[i] = g_trace[i].second;
  }
  return (int)g_trace.size();
}
EXPORT void sim_omp_stats(u64 *out) {
  out[0] = g_step;
  out[1] = g_hash;
  out[2] = g_regions;
  out[3] = g_switches;
  out[4] = g_accesses;
  out[5] = g_race_checks;
  out[6] = g_overrun;
  out[7] = g_sh_full;
}

// ------------------------------------------------------------- caller mode
// Each registered caller thread counts its own kernel accesses; when the count
// reaches its target, control goes to the Python scheduler.
typedef int64_t (*caller_cb)(int id, int64_t count);
static caller_cb g_ccb;
static __thread int64_t tl_count, tl_target = -1;
static __thread int tl_hold;  // locks held: the thread is not preempted meanwhile
EXPORT void sim_caller_register(int id, int64_t target) {
  tl_caller = id;
  tl_count = 0;
  tl_hold = 0;
  tl_team_req = 0;
  tl_target = target;
}
EXPORT void sim_caller_mode(caller_cb cb) {
  g_ccb = cb;
  if (cb)
    g_mode |= 2;
  else
    g_mode &= ~2;
}
EXPORT int64_t sim_caller_count() { return tl_count; }

// ------------------------------------------------------------------- hooks
static inline void on_access(uintptr_t a, size_t n, bool write) {
  int m = g_mode.load(std::memory_order_relaxed);
  if (__builtin_expect(m == 0, 1)) return;
  if (m & 2) {
    if (tl_caller >= 0) {
      ++tl_count;
      if (tl_target >= 0 && tl_count >= tl_target && g_ccb && tl_hold == 0) {
        tl_target = -1;
        tl_target = g_ccb(tl_caller, tl_count);
      }
    }
  }
  if (m & (1 | 4)) {
    g_accesses++;
    check_mem(a, n, write);
    Team *t = g_team;
    if (t && tl_tid >= 0 && t->n > 1) {
      if (sim_in_arena((void *)a))
        g_hash = fnv(g_hash, ((u64)(a - (uintptr_t)g_base) << 6) ^ ((u64)tl_tid << 1) ^ (u64)write);
      preempt_point();
      race_check(a, n, write, tl_tid, t);
    }
  }
}

#define TS(n)                                                                   \
  HIDDEN void __tsan_read##n(void *p) { on_access((uintptr_t)p, n, false); }     \
  HIDDEN void __tsan_write##n(void *p) { on_access((uintptr_t)p, n, true); }     \
  HIDDEN void __tsan_unaligned_read##n(void *p) { on_access((uintptr_t)p, n, false); } \
  HIDDEN void __tsan_unaligned_write##n(void *p) { on_access((uintptr_t)p, n, true); } \
  HIDDEN void __tsan_volatile_read##n(void *p) { on_access((uintptr_t)p, n, false); }  \
  HIDDEN void __tsan_volatile_write##n(void *p) { on_access((uintptr_t)p, n, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
HIDDEN void __tsan_read_range(void *p, size_t n) { if (n) on_access((uintptr_t)p, n, false); }
HIDDEN void __tsan_write_range(void *p, size_t n) { if (n) on_access((uintptr_t)p, n, true); }
HIDDEN void __tsan_func_entry(void *) {}
HIDDEN void __tsan_func_exit(void) {}
HIDDEN void __tsan_init(void) {}
HIDDEN void __tsan_vptr_update(void **, void *) {}
HIDDEN void __tsan_vptr_read(void **) {}

static void atomic_point(const void *p) {
  if (g_mode.load(std::memory_order_relaxed) & 4) preempt_point();
  (void)p;
}
#define AT(n, T)                                                                                    \
  HIDDEN T __tsan_atomic##n##_load(const volatile T *p, int) {                                      \
    atomic_point((const void *)p);                                                                  \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                     \
    sync_acquire((const void *)p);                                                                  \
    return v;                                                                                       \
  }                                                                                                 \
  HIDDEN void __tsan_atomic##n##_store(volatile T *p, T v, int) {                                   \
    atomic_point((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_exchange(volatile T *p, T v, int) {                                   \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) {                                  \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) {                                  \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) {                                  \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) {                                   \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                 \
  HIDDEN int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) {       \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
  }                                                                                                 \
  HIDDEN int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) {         \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
  }                                                                                                 \
  HIDDEN T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) {             \
    atomic_point((const void *)p);                                                                  \
    sync_acquire((const void *)p);                                                                  \
    sync_release((const void *)p);                                                                  \
    __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
    return c;                                                                                       \
  }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
HIDDEN void __tsan_atomic_thread_fence(int) {}
HIDDEN void __tsan_atomic_signal_fence(int) {}

// bulk memory functions of the kernels (redirected with objcopy)
HIDDEN void *simrt_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    on_access((uintptr_t)s, n, false);
    on_access((uintptr_t)d, n, true);
  }
  return memcpy(d, s, n);
}
HIDDEN void *simrt_memmove(void *d, const void *s, size_t n) {
  if (n) {
    on_access((uintptr_t)s, n, false);
    on_access((uintptr_t)d, n, true);
  }
  return memmove(d, s, n);
}
HIDDEN void *simrt_memset(void *d, int c, size_t n) {
  if (n) on_access((uintptr_t)d, n, true);
  return memset(d, c, n);
}
// scratch memory the kernels take from the C/C++ heap
static int64_t g_heap_fail = -1;
EXPORT void sim_heap_fail_at(int64_t k) { g_heap_fail = k; }
static u64 g_heap_allocs;
EXPORT u64 sim_heap_count() { return g_heap_allocs; }
static void *heap_alloc(size_t n) {
  g_heap_allocs++;
  if (g_heap_fail >= 0 && g_heap_fail-- == 0) return nullptr;
  void *p = malloc(n ? n : 1);
  if (p && g_fill_mode != 4) fill((u8 *)p, n);
  if (p) shadow_forget((uintptr_t)p, n);
  return p;
}
HIDDEN void *simrt_new(size_t n) {
  void *p = heap_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
HIDDEN void *simrt_new_arr(size_t n) { return simrt_new(n); }
HIDDEN void *simrt_malloc(size_t n) { return heap_alloc(n); }
HIDDEN void *simrt_aligned_alloc(size_t a, size_t n) {
  void *p = aligned_alloc(a, n);
  if (p && g_fill_mode != 4) fill((u8 *)p, n);
  if (p) shadow_forget((uintptr_t)p, n);
  return p;
}
HIDDEN void *simrt_calloc(size_t a, size_t n) {
  void *p = heap_alloc(a * n);
  if (p) memset(p, 0, a * n);
  return p;
}
HIDDEN void *simrt_new_al(size_t n, size_t a) {
  if (g_heap_fail >= 0 && g_heap_fail-- == 0) throw std::bad_alloc();
  g_heap_allocs++;
  void *p = simrt_aligned_alloc(a, (n + a - 1) / a * a);
  if (!p) throw std::bad_alloc();
  return p;
}
HIDDEN void *simrt_new_arr_al(size_t n, size_t a) { return simrt_new_al(n, a); }
HIDDEN int simrt_at_get_num_threads() { return g_nthreads; }
HIDDEN bool simrt_at_in_parallel_region() { return tl_tid >= 0 && g_team != nullptr; }

// ------------------------------------------------------------------ libgomp
static int g_cap;  // the runtime grants at most this many workers (dynamic adjustment, thread limit); 0 = as asked
EXPORT void sim_omp_cap(int n) { g_cap = n; }
static int asked(unsigned num_threads);
static int team_n(unsigned num_threads) {
  int n = asked(num_threads);
  return g_cap && n > g_cap ? g_cap : n;
}
static int asked(unsigned num_threads) {
  if (tl_tid >= 0 && g_team) return 1;
  if (num_threads) return (int)num_threads;
  if (tl_team_req) return tl_team_req;
  return g_nthreads;
}
static Team *T() { return tl_tid >= 0 ? g_team : nullptr; }

HIDDEN void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, team_n(n), nullptr); }

static WorkShare mkws(long start, long end, long incr, long chunk) {
  WorkShare w;
  w.init = true;
  w.next = start;
  w.end = end;
  w.incr = incr;
  w.chunk = chunk > 0 ? chunk : 1;
  return w;
}
static bool ws_next(WorkShare &w, long *is, long *ie) {
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *is = w.next;
  long e = w.next + w.incr * w.chunk;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *ie = e;
  w.next = e;
  return true;
}
static bool loop_start(long s, long e, long inc, long ch, long *is, long *ie) {
  Team *t = T();
  if (!t) {
    g_solo = mkws(s, e, inc, ch);
    return ws_next(g_solo, is, ie);
  }
  preempt_point();
  int i = ++t->wsi[tl_tid];
  WorkShare &w = t->ws[i];
  if (!w.init) w = mkws(s, e, inc, ch);
  return ws_next(w, is, ie);
}
static bool loop_next(long *is, long *ie) {
  Team *t = T();
  if (!t) return ws_next(g_solo, is, ie);
  preempt_point();
  return ws_next(t->ws[t->wsi[tl_tid]], is, ie);
}
static void barrier() {
  Team *t = T();
  if (!t || t->n == 1) return;
  t->barrier_waiting++;
  int alive = 0;
  for (int i = 0; i < t->n; ++i) alive += t->st[i] != T_DONE;
  if (t->barrier_waiting == alive) {
    t->barrier_waiting = 0;
    u32 m[MAXT] = {0};
    for (int i = 0; i < t->n; ++i) vc_join(m, t->vc[i], t->n);
    for (int i = 0; i < t->n; ++i) {
      memcpy(t->vc[i], m, sizeof m);
      t->vc[i][i]++;
      if (t->st[i] == T_BLOCK && !t->waiting_lock[i]) t->st[i] = T_RUN;
    }
    preempt_point();
    return;
  }
  t->st[tl_tid] = T_BLOCK;
  block_until(t);
}
#define LOOPS(kind)                                                                                          \
  HIDDEN bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) {                   \
    return loop_start(s, e, i, c, a, b);                                                                     \
  }                                                                                                          \
  HIDDEN bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }                          \
  HIDDEN void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,     \
                                        long c, unsigned) {                                                  \
    WorkShare w = mkws(s, e, i, c);                                                                          \
    run_team(fn, d, team_n(n), &w);                                                                          \
  }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(kind)                                                                                          \
  HIDDEN bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) {                           \
    return loop_start(s, e, i, 1, a, b);                                                                     \
  }                                                                                                          \
  HIDDEN bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }                          \
  HIDDEN void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,     \
                                        unsigned) {                                                          \
    WorkShare w = mkws(s, e, i, 1);                                                                          \
    run_team(fn, d, team_n(n), &w);                                                                          \
  }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
HIDDEN void GOMP_loop_end() { barrier(); }
HIDDEN void GOMP_loop_end_nowait() {}
HIDDEN bool GOMP_loop_end_cancel() { barrier(); return false; }

// unsigned long long loops
typedef unsigned long long ull;
#define LOOPU(kind)                                                                                          \
  HIDDEN bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) {            \
    (void)up;                                                                                                \
    return loop_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b);                             \
  }                                                                                                          \
  HIDDEN bool GOMP_loop_ull_##kind##_next(ull *a, ull *b) { return loop_next((long *)a, (long *)b); }
LOOPU(static) LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
#define LOOPUR(kind)                                                                                         \
  HIDDEN bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) {                   \
    (void)up;                                                                                                \
    return loop_start((long)s, (long)e, (long)i, 1, (long *)a, (long *)b);                                   \
  }                                                                                                          \
  HIDDEN bool GOMP_loop_ull_##kind##_next(ull *a, ull *b) { return loop_next((long *)a, (long *)b); }
LOOPUR(runtime) LOOPUR(nonmonotonic_runtime) LOOPUR(maybe_nonmonotonic_runtime)

HIDDEN void GOMP_barrier() { barrier(); }
HIDDEN bool GOMP_barrier_cancel() { barrier(); return false; }

static void lock_acquire(const void *o) {
  Team *t = T();
  if (!t) {
    if (tl_caller >= 0) tl_hold++;
    return;
  }
  preempt_point();
  for (;;) {
    auto it = t->lock_owner.find(o);
    if (it == t->lock_owner.end() || it->second < 0) break;
    t->st[tl_tid] = T_BLOCK;
    t->waiting_lock[tl_tid] = o;
    block_until(t);
  }
  t->lock_owner[o] = tl_tid;
  t->waiting_lock[tl_tid] = nullptr;
  sync_acquire(o);
}
static void lock_release(const void *o) {
  Team *t = T();
  if (!t) {
    if (tl_caller >= 0 && tl_hold > 0) tl_hold--;
    return;
  }
  sync_release(o);
  t->lock_owner[o] = -1;
  for (int i = 0; i < t->n; ++i)
    if (t->st[i] == T_BLOCK && t->waiting_lock[i] == o) t->st[i] = T_RUN;
  preempt_point();
}
// C++ locks and guarded initialisation
extern "C" int __cxa_guard_acquire(long long *);
extern "C" void __cxa_guard_release(long long *);
extern "C" void __cxa_guard_abort(long long *);
HIDDEN int simrt_mutex_lock(pthread_mutex_t *m) {
  bool team = T() != nullptr;
  lock_acquire(m);
  return team ? 0 : pthread_mutex_lock(m);
}
HIDDEN int simrt_mutex_trylock(pthread_mutex_t *m) {
  Team *t = T();
  if (!t) {
    int r = pthread_mutex_trylock(m);
    if (r == 0) lock_acquire(m);
    return r;
  }
  auto it = t->lock_owner.find(m);
  if (it != t->lock_owner.end() && it->second >= 0) return EBUSY;
  lock_acquire(m);
  return 0;
}
HIDDEN int simrt_mutex_unlock(pthread_mutex_t *m) {
  bool team = T() != nullptr;
  int r = team ? 0 : pthread_mutex_unlock(m);
  lock_release(m);
  return r;
}
HIDDEN int simrt_guard_acquire(long long *g) {
  lock_acquire(g);
  int r = __cxa_guard_acquire(g);
  if (!r) lock_release(g);
  return r;
}
HIDDEN void simrt_guard_release(long long *g) {
  __cxa_guard_release(g);
  lock_release(g);
}
HIDDEN void simrt_guard_abort(long long *g) {
  __cxa_guard_abort(g);
  lock_release(g);
}
static char g_crit, g_atom;
HIDDEN void GOMP_critical_start() { lock_acquire(&g_crit); }
HIDDEN void GOMP_critical_end() { lock_release(&g_crit); }
HIDDEN void GOMP_critical_name_start(void **p) { lock_acquire(p); }
HIDDEN void GOMP_critical_name_end(void **p) { lock_release(p); }
HIDDEN void GOMP_atomic_start() { lock_acquire(&g_atom); }
HIDDEN void GOMP_atomic_end() { lock_release(&g_atom); }
HIDDEN bool GOMP_single_start() {
  Team *t = T();
  if (!t) return true;
  preempt_point();
  WorkShare &w = t->ws[++t->wsi[tl_tid]];
  if (w.taken) return false;
  w.taken = true;
  return true;
}
HIDDEN void *GOMP_single_copy_start() {
  Team *t = T();
  if (!t) return nullptr;
  preempt_point();
  int i = ++t->wsi[tl_tid];
  WorkShare &w = t->ws[i];
  if (!w.taken) {
    w.taken = true;
    return nullptr;
  }
  barrier();
  return t->ws[i].copy;
}
HIDDEN void GOMP_single_copy_end(void *d) {
  Team *t = T();
  if (!t) return;
  t->ws[t->wsi[tl_tid]].copy = d;
  barrier();
}
HIDDEN unsigned GOMP_sections_next() {
  long a, b;
  return loop_next(&a, &b) ? (unsigned)a : 0;
}
HIDDEN unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
HIDDEN void GOMP_sections_end() { barrier(); }
HIDDEN void GOMP_sections_end_nowait() {}
HIDDEN void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) {
  WorkShare w = mkws(1, (long)cnt + 1, 1, 1);
  run_team(fn, d, team_n(n), &w);
}
HIDDEN void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned,
                      void **, int, void *) {
  if (cpy) {
    std::vector<char> buf(sz + al);
    char *p = (char *)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, data);
    fn(p);
  } else
    fn(data);
}
HIDDEN void GOMP_taskwait() {}
HIDDEN void GOMP_taskyield() {}
HIDDEN void GOMP_taskgroup_start() {}
HIDDEN void GOMP_taskgroup_end() {}
HIDDEN void GOMP_ordered_start() { lock_acquire(&g_crit); }
HIDDEN void GOMP_ordered_end() { lock_release(&g_crit); }
HIDDEN bool GOMP_cancel(int, bool) { return false; }
HIDDEN bool GOMP_cancellation_point(int) { return false; }

HIDDEN int omp_get_thread_num() { return tl_tid >= 0 && g_team ? tl_tid : 0; }
HIDDEN int omp_get_num_threads() { return tl_tid >= 0 && g_team ? g_team->n : 1; }
HIDDEN int omp_get_max_threads() { return tl_team_req ? tl_team_req : g_nthreads; }
HIDDEN int omp_get_num_procs() { return g_nthreads; }
HIDDEN int omp_in_parallel() { return tl_tid >= 0 && g_team && g_team->n > 1; }
HIDDEN void omp_set_num_threads(int n) { tl_team_req = n; }
HIDDEN int omp_get_level() { return tl_tid >= 0 && g_team; }
HIDDEN int omp_get_active_level() { return tl_tid >= 0 && g_team; }
HIDDEN void omp_set_dynamic(int) {}
HIDDEN int omp_get_dynamic() { return g_cap != 0; }
HIDDEN void omp_set_nested(int) {}
HIDDEN int omp_get_nested() { return 0; }
HIDDEN int omp_get_thread_limit() { return MAXT; }
HIDDEN double omp_get_wtime() { return (double)g_step * 1e-9; }
HIDDEN double omp_get_wtick() { return 1e-9; }
HIDDEN void omp_init_lock(void *) {}
HIDDEN void omp_destroy_lock(void *) {}
HIDDEN void omp_set_lock(void *p) { lock_acquire(p); }
HIDDEN void omp_unset_lock(void *p) { lock_release(p); }
HIDDEN int omp_test_lock(void *p) {
  Team *t = T();
  if (!t) {
    lock_acquire(p);
    return 1;
  }
  auto it = t->lock_owner.find(p);
  if (it != t->lock_owner.end() && it->second >= 0) return 0;
  lock_acquire(p);
  return 1;
}
