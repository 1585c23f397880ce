#include "sched.hpp"
#include "env.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <threads.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t); int __real_memcmp(const void*, const void*, size_t); int __real_atexit(void (*)(void)); extern char __executable_start; extern char end; }
namespace sched {
std::string error;
typedef uint32_t Clk;
struct VC { Clk c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Mutex { int owner = -1, depth = 0; bool recursive = false, destroyed = false; uint32_t gen = 0; VC vc; uint64_t id = 0; int by = 0; Clk at = 0; };
struct Once { int state = 0, owner = -1; uint32_t gen = 0; VC vc; };
struct Sync { uint32_t gen = 0; VC vc; };
enum St { READY, YIELDED, WAIT_MUTEX, WAIT_ONCE, DONE };
struct Thread { ucontext_t ctx; St st = DONE; void* on = nullptr; VC vc; const std::function<void()>* body = nullptr; char* stack = nullptr; uint64_t rng = 0; bool in_call = false; };
static Thread T[MAXT];
static int cur = 0, nthreads = 0; static bool running = false, aborting = false;
static uint32_t gen = 1; static uint64_t ticks = 0; static Explorer* ex = nullptr;
static uint64_t born[MAXT]; // locks made by each thread
void label(uint64_t base) { born[0] = base; }
static int idle = 0; static bool sequential = false; static int seq_spins = 0;
template <class V> using Map = std::unordered_map<void*, V>;
static Map<Mutex>& mtxs() { static Map<Mutex>* m = new Map<Mutex>; return *m; }
static Map<Once>& onces() { static Map<Once>* m = new Map<Once>; return *m; }
static Map<Sync>& syncs() { static Map<Sync>* m = new Map<Sync>; return *m; }
bool in_thread() { return running && cur > 0; }
int self() { return cur; }
uint64_t tick() { return ++ticks; }
void clear() { error.clear(); seq_spins = 0; }
bool stuck() { return !error.empty(); }
static std::string where(void* pc) {
    if (!pc) return "the crypto library";
    char cmd[300]; snprintf(cmd, sizeof cmd, "addr2line -s -f -e /proc/%d/exe 0x%lx 2>/dev/null", (int) getpid(), (unsigned long) ((char*) pc - &__executable_start - 1));
    std::string o; FILE* p = popen(cmd, "r"); if (!p) return "?"; char b[256]; while (fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; o += o.empty() ? b : std::string(" ") + b; } pclose(p); return o;
}
static void to_main() { swapcontext(&T[cur].ctx, &T[0].ctx); }
static void fail(const char* fmt, ...) {
    if (error.empty()) { char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); error = b; }
}
[[noreturn]] static void die() { aborting = true; if (cur > 0) { T[cur].st = DONE; for (;;) to_main(); } fprintf(stderr, "ERROR: %s\n", error.c_str()); if (getenv("MC_ABORT")) abort(); _exit(98); }
static void yield_();
void begin_sequential() { sequential = true; seq_spins = 0; env::on_spin = yield_; }
// ---- memory
struct Acc { Clk clk; uint8_t tid, mask; bool write; };
struct Cell { uintptr_t key; uint32_t gen; uint8_t n, freed; Acc a[6]; void* pc; };
constexpr size_t NC = 1 << 20;
static Cell* cells;
static Cell* cell(uintptr_t g, bool only_known = false) {
    if (!cells) { cells = (Cell*) mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    size_t h = (((g >> 6) * 0x9E3779B97F4A7C15ULL) >> 50) << 6 | (g & 63); for (size_t k = 0; k < 512; k++, h = (h + 64) & (NC - 1)) /* neighbours stay neighbours */ { Cell& c = cells[h]; if (c.gen != gen) { if (only_known) return nullptr; c.gen = gen; c.key = g; c.n = 0; c.freed = 0; c.pc = nullptr; return &c; } if (c.key == g) return &c; }
    fprintf(stderr, "ERROR: race detector table is full\n"); _exit(97);
}
static void access(uintptr_t a, size_t n, bool write, void* pc, bool freeing = false) {
    if (!running || cur == 0 || !n || aborting) return;
    if ((char*) a >= T[cur].stack && (char*) a < T[cur].stack + (1 << 20)) return; // its own stack
    Thread& t = T[cur];
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        uint8_t m = 0xff; if (g == a >> 3) m &= (uint8_t) (0xff << (a & 7)); if (g == (a + n - 1) >> 3) m &= (uint8_t) (0xff >> (7 - ((a + n - 1) & 7)));
        Cell& c = *cell(g);
        if (c.freed & m) { fail("thread %d %s freed memory in %s (freed by %s)", cur, freeing ? "frees" : write ? "writes" : "reads", where(pc).c_str(), where(c.pc).c_str()); die(); }
        int same = -1;
        for (int i = 0; i < c.n; i++) { Acc& x = c.a[i]; if (x.tid == cur) { if (x.write == write && (x.mask & ~m) == 0) same = i; continue; }
            if ((x.mask & m) && (write || x.write) && x.clk > t.vc.c[x.tid]) { fail("data race: thread %d %s in %s what thread %d %s without synchronisation (last in %s)", cur, write ? "writes" : "reads", where(pc).c_str(), x.tid, x.write ? "wrote" : "read", where(c.pc).c_str()); die(); } }
        Acc n2 = {t.vc.c[cur], (uint8_t) cur, m, write};
        if (same >= 0) { if (c.a[same].clk == n2.clk && c.a[same].mask == m) continue; c.a[same] = n2; } else if (c.n < 6) c.a[c.n++] = n2; else { for (int i = 0; i < 5; i++) c.a[i] = c.a[i + 1]; c.a[5] = n2; }
        c.pc = pc; if (freeing) c.freed |= m;
    }
}
static struct Q { void** v = nullptr; size_t n = 0, cap = 0; void push_back(void* p) { if (n == cap) v = (void**) __real_realloc(v, (cap = cap ? 2 * cap : 4096) * sizeof(void*)); v[n++] = p; } void clear() { n = 0; } void** begin() { return v; } void** end() { return v + n; } } quarantine_;
static Q& quarantine() { return quarantine_; }
static bool free_hook(void* p, void* pc) {
    if (!running || cur == 0 || aborting) return false;
    size_t n = malloc_usable_size(p); access((uintptr_t) p, n, true, pc, true); __real_memset(p, 0xdd, n); quarantine().push_back(p); return true;
}
// memory of the crypto library, which synchronises on its own
static bool crypto_free(void* p) {
    if (!running || cur == 0 || aborting) return false;
    // a block that the code never used is of no interest: nothing of the code's points to it
    size_t n = malloc_usable_size(p); bool known = false; for (uintptr_t g = (uintptr_t) p >> 3; g < ((uintptr_t) p + n) >> 3; g++) { Cell* k = cell(g, true); if (!k) continue; Cell& c = *k; known = true; c.n = 0; c.freed = 0xff; c.pc = nullptr; }
    if (!known) return false; __real_memset(p, 0xdd, n); quarantine().push_back(p); return true;
}
void use(const void* p, size_t n, bool write) { access((uintptr_t) p, n, write, __builtin_return_address(0)); }
// ---- scheduling
static bool enabled(int i) {
    Thread& t = T[i]; switch (t.st) { case READY: case YIELDED: return true; case DONE: return false;
        case WAIT_MUTEX: { Mutex& m = mtxs()[t.on]; return m.owner < 0 || (m.owner == i && m.recursive); } case WAIT_ONCE: return onces()[t.on].state != 1; } return false;
}
static void point() { to_main(); } // back to the scheduler, which decides who runs next
static void yield_() {
    if (running && cur > 0) { T[cur].st = YIELDED; point(); return; }
    if (++seq_spins > 60) { fail("a call never returns though no other call is in flight"); fprintf(stderr, "ERROR: %s\n", error.c_str()); if (getenv("MC_ABORT")) abort(); _exit(98); }
}
static void entry() { (*T[cur].body)(); T[cur].st = DONE; for (;;) to_main(); }
std::string Explorer::run(const std::vector<std::function<void()>>& bodies) {
    env::on_spin = yield_; env::free_hook = free_hook; env::crypto_free_hook = crypto_free; ex = this; at = 0; steps = 0; preempted = 0; nthreads = (int) bodies.size() + 1; gen++; error.clear(); aborting = false; idle = 0; for (int i = 1; i < MAXT; i++) born[i] = (uint64_t) i << 48; grown.clear();
    VC base; base.c[0] = 1; T[0].vc = base;
    // fair scheduling of polling loops (Musuvathi and Qadeer, PLDI 2008): prio[i] holds the threads that i has to let go first
    uint32_t prio[MAXT] = {0}, E[MAXT], D[MAXT], S[MAXT]; for (int i = 0; i < MAXT; i++) { E[i] = 0; D[i] = 0; S[i] = ~0u; }
    for (int i = 1; i < nthreads; i++) { Thread& t = T[i]; if (!t.stack) t.stack = (char*) mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t.st = READY; t.vc = base; t.vc.c[i] = 1; t.body = &bodies[i - 1]; t.rng = 1000 + i; t.in_call = false; getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = 1 << 20; t.ctx.uc_link = nullptr; makecontext(&t.ctx, entry, 0); }
    int last = 0; bool yielded = false; running = true; uint64_t mrng = env::rand_state;
    while (error.empty()) {
        uint32_t en = 0, alive = 0; for (int i = 1; i < nthreads; i++) { if (T[i].st != DONE) alive |= 1u << i; if (enabled(i)) en |= 1u << i; }
        if (!alive) break;
        if (!en) { std::string w; for (int i = 1; i < nthreads; i++) if (T[i].st == WAIT_MUTEX) { char b[80]; snprintf(b, sizeof b, " thread %d waits for a lock of thread %d;", i, mtxs()[T[i].on].owner); w += b; } fail("deadlock:%s", w.c_str()); break; }
        uint32_t ok = 0; for (int i = 1; i < nthreads; i++) if ((en >> i & 1) && !(prio[i] & en)) ok |= 1u << i;
        if (yielded && (ok & ~(1u << last))) ok &= ~(1u << last);
        uint8_t alt[MAXT]; uint8_t n = 0; bool cont = last > 0 && !yielded && (en >> last & 1) && (ok >> last & 1);
        if (cont) alt[n++] = (uint8_t) last;
        if (!cont || preempted < bound) for (int i = 1; i < nthreads; i++) if (!(cont && i == last) && (ok >> i & 1)) alt[n++] = (uint8_t) i;
        if (yielded && en == 1u << last) { if (++idle > 12) { fail("livelock: thread %d polls for ever while %s", last, alive == en ? "no other call is in flight" : "the others are blocked"); break; } } else if (!yielded) idle = 0;
        if (++steps > 6000) { fail("livelock: no end after %lu steps", (unsigned long) steps); break; }
        int pick;
        if (n == 1) pick = alt[0];
        else if (at < path.size()) { Choice& c = path[at++]; if (c.n != n || memcmp(c.alt, alt, n)) { fail("HARNESS: the execution is not deterministic"); break; } pick = c.alt[c.idx]; }
        else { Choice c; c.n = n; c.idx = 0; memcpy(c.alt, alt, n); path.push_back(c); at++; pick = alt[0]; }
        if (cont && pick != last) preempted++;
        Thread& t = T[pick]; if (t.st == YIELDED) t.st = READY;
        cur = pick; env::rand_state = t.rng; env::in_call = t.in_call; swapcontext(&T[0].ctx, &t.ctx); t.rng = env::rand_state; t.in_call = env::in_call; cur = 0; last = pick;
        if (!error.empty()) break;
        uint32_t now = 0; for (int i = 1; i < nthreads; i++) if (enabled(i)) now |= 1u << i;
        for (int i = 1; i < nthreads; i++) { prio[i] &= ~(1u << pick); E[i] &= now; S[i] |= 1u << pick; } D[pick] |= en & ~now;
        yielded = t.st == YIELDED; if (yielded) { uint32_t h = (E[pick] | D[pick]) & ~S[pick]; prio[pick] |= h; E[pick] = now; D[pick] = 0; S[pick] = 0; }
    }
    running = false; env::rand_state = mrng; env::in_call = false; env::free_hook = nullptr; env::crypto_free_hook = nullptr;
    for (void* p : quarantine()) __real_free(p); quarantine().clear();
    gen++; seq_spins = 0;
    if (!error.empty()) { for (auto& m : mtxs()) { m.second.owner = -1; m.second.depth = 0; } for (auto& o : onces()) if (o.second.state == 1) o.second.state = 0; aborting = false; }
    return error;
}
bool Explorer::next() {
    // a lock that two threads turned out to contend for: switching at it matters, so start over with it
    if (!grown.empty()) { for (uint64_t x : grown) contended.insert(x); grown.clear(); path.clear(); at = 0; return true; }
    while (!path.empty()) { Choice& c = path.back(); if (c.idx + 1 < c.n) { c.idx++; return true; } path.pop_back(); } return false;
}
std::string Explorer::schedule() const { std::string s; for (auto& c : path) { char b[8]; snprintf(b, sizeof b, "%d", c.alt[c.idx]); s += b; } return s; }
static void release_vc(VC* v, uint32_t* g) { if (*g != gen) { *v = VC(); *g = gen; } v->join(T[cur].vc); T[cur].vc.c[cur]++; }
static void acquire_vc(VC* v, uint32_t* g) { if (*g != gen) { *v = VC(); *g = gen; } T[cur].vc.join(*v); }
static int lock(void* p, bool try_only) {
    if (aborting) return 0;
    if (running && cur > 0 && !try_only) { T[cur].st = READY; bool wait = true; { Mutex& m = mtxs()[p]; if (m.destroyed) { fail("thread %d locks a destroyed mutex", cur); die(); } if (!m.id) m.id = (uint64_t) p; // made before the harness looked, or static
            bool held = m.owner >= 0 && !(m.owner == cur && m.recursive); bool race = held || (m.gen == gen && m.by && m.by != cur && T[cur].vc.c[m.by] < m.at);
            if (!ex->contended.count(m.id)) { if (race) ex->grown.insert(m.id); wait = held; } }
        if (wait) { T[cur].st = WAIT_MUTEX; T[cur].on = p; point(); T[cur].st = READY; } }
    else if (running && cur > 0) { T[cur].st = READY; point(); }
    Mutex& m = mtxs()[p];
    if (m.destroyed) { fail("thread %d locks a destroyed mutex", cur); die(); }
    if (m.owner >= 0 && !(m.owner == cur && m.recursive)) { if (try_only) return 1; fail("deadlock: the thread waits for a lock that nobody will give back"); die(); }
    m.owner = cur; m.depth++; acquire_vc(&m.vc, &m.gen); return 0;
}
static int unlock(void* p) {
    if (aborting) return 0;
    Mutex& m = mtxs()[p]; if (m.owner != cur) { fail("thread %d unlocks a mutex it does not own", cur); if (running && cur > 0) die(); return 1; }
    if (--m.depth == 0) { m.owner = -1; m.by = cur; m.at = T[cur].vc.c[cur]; release_vc(&m.vc, &m.gen); } return 0;
}
static int minit(void* p, bool rec, void* pc) { Mutex m; m.recursive = rec; m.id = (char*) p >= &__executable_start && (char*) p < &end ? (uint64_t) p : ++born[cur]; mtxs()[p] = m; access((uintptr_t) p, 1, true, pc); return 0; }
static void mdestroy(void* p, void* pc) { if (aborting) return; Mutex& m = mtxs()[p]; if (m.owner >= 0) { fail("thread %d destroys a locked mutex", cur); if (running && cur > 0) die(); } for (int i = 1; running && i < nthreads; i++) if (T[i].st == WAIT_MUTEX && T[i].on == p) { fail("thread %d destroys a mutex that thread %d waits for", cur, i); if (cur > 0) die(); } m.destroyed = true; access((uintptr_t) p, 1, true, pc); }
static void once(void* p, void (*f)(void)) {
    if (aborting) return;
    if (running && cur > 0) { T[cur].st = WAIT_ONCE; T[cur].on = p; point(); T[cur].st = READY; }
    { Once& o = onces()[p]; if (o.state == 2) { acquire_vc(&o.vc, &o.gen); return; } o.state = 1; o.owner = cur; }
    f(); Once& o = onces()[p]; o.state = 2; release_vc(&o.vc, &o.gen);
}
static void atomic(void* p) { if (running && cur > 0 && !aborting) { T[cur].st = READY; point(); Sync& s = syncs()[p]; acquire_vc(&s.vc, &s.gen); release_vc(&s.vc, &s.gen); } }
}
using namespace sched;
#define RA __builtin_return_address(0)
extern "C" {
static uint64_t settings; // the crypto library's allocator, which every call into it relies on
void sched_touch(void* ctx) { access((uintptr_t) &settings, 8, false, RA); if (ctx) access((uintptr_t) ctx, 1, true, RA); }
int __wrap_CRYPTO_set_mem_functions(void*, void*, void*) { access((uintptr_t) &settings, 8, true, RA); return 0; } // keeps the allocator of the check
int __wrap_mtx_init(mtx_t* m, int type) { return minit(m, type & mtx_recursive, RA) ? thrd_error : thrd_success; }
int __wrap_mtx_lock(mtx_t* m) { return lock(m, false) ? thrd_error : thrd_success; }
int __wrap_mtx_timedlock(mtx_t* m, const struct timespec*) { return lock(m, false) ? thrd_error : thrd_success; }
int __wrap_mtx_trylock(mtx_t* m) { return lock(m, true) ? thrd_busy : thrd_success; }
int __wrap_mtx_unlock(mtx_t* m) { return unlock(m) ? thrd_error : thrd_success; }
void __wrap_mtx_destroy(mtx_t* m) { mdestroy(m, RA); }
void __wrap_call_once(once_flag* f, void (*fn)(void)) { once(f, fn); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int t = 0; if (a) pthread_mutexattr_gettype(a, &t); return minit(m, t == PTHREAD_MUTEX_RECURSIVE, RA); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return lock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, true) ? 16 : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { mdestroy(m, RA); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { once(o, f); return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!running && !sequential) return __real_nanosleep(a, b); env::on_spin(); return 0; }
int __wrap_atexit(void (*)(void)) { return 0; } // no execution ends the process
void* __wrap_memcpy(void* d, const void* s, size_t n) { access((uintptr_t) s, n, false, RA); access((uintptr_t) d, n, true, RA); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access((uintptr_t) s, n, false, RA); access((uintptr_t) d, n, true, RA); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access((uintptr_t) d, n, true, RA); return __real_memset(d, c, n); }
void* __wrap_memory_memset_unoptimizable(void* d, uint8_t c, size_t n) { if (d) { access((uintptr_t) d, n, true, RA); __real_memset(d, c, n); } return d; } // the byte loop of the code, made fast
int __wrap_memcmp(const void* a, const void* b, size_t n) { access((uintptr_t) a, n, false, RA); access((uintptr_t) b, n, false, RA); return __real_memcmp(a, b, n); }
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access((uintptr_t) p, 8, true, RA); } void __tsan_vptr_read(void** p) { access((uintptr_t) p, 8, false, RA); }
#define RW(N) void __tsan_read##N(void* p) { access((uintptr_t) p, N, false, RA); } void __tsan_write##N(void* p) { access((uintptr_t) p, N, true, RA); } \
    void __tsan_unaligned_read##N(void* p) { access((uintptr_t) p, N, false, RA); } void __tsan_unaligned_write##N(void* p) { access((uintptr_t) p, N, true, RA); } \
    void __tsan_volatile_read##N(void* p) { access((uintptr_t) p, N, false, RA); } void __tsan_volatile_write##N(void* p) { access((uintptr_t) p, N, true, RA); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access((uintptr_t) p, N, false, RA); } void __tsan_unaligned_volatile_write##N(void* p) { access((uintptr_t) p, N, true, RA); } \
    void __tsan_read_write##N(void* p) { access((uintptr_t) p, N, true, RA); } void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t) p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t) p, n, false, RA); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t) p, n, true, RA); }
#define AT(N, Ty) Ty __tsan_atomic##N##_load(const volatile Ty* p, int) { atomic((void*) p); return *p; } void __tsan_atomic##N##_store(volatile Ty* p, Ty v, int) { atomic((void*) p); *p = v; } \
    Ty __tsan_atomic##N##_exchange(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = v; return o; } Ty __tsan_atomic##N##_fetch_add(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = (Ty) (o + v); return o; } \
    Ty __tsan_atomic##N##_fetch_sub(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = (Ty) (o - v); return o; } Ty __tsan_atomic##N##_fetch_and(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = o & v; return o; } \
    Ty __tsan_atomic##N##_fetch_or(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = o | v; return o; } Ty __tsan_atomic##N##_fetch_xor(volatile Ty* p, Ty v, int) { atomic((void*) p); Ty o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile Ty* p, Ty* e, Ty v, int, int) { atomic((void*) p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##N##_compare_exchange_weak(volatile Ty* p, Ty* e, Ty v, int, int) { atomic((void*) p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    Ty __tsan_atomic##N##_compare_exchange_val(volatile Ty* p, Ty e, Ty v, int, int) { atomic((void*) p); Ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { } void __tsan_atomic_signal_fence(int) { }
}
// calls into the crypto library that change the object of their first argument
#define TOUCH(N) asm(".text\n.globl __wrap_" #N "\n.type __wrap_" #N ",@function\n__wrap_" #N ":\n push %rdi\n push %rsi\n push %rdx\n push %rcx\n push %r8\n push %r9\n sub $8,%rsp\n call sched_touch@PLT\n add $8,%rsp\n pop %r9\n pop %r8\n pop %rcx\n pop %rdx\n pop %rsi\n pop %rdi\n jmp __real_" #N "@PLT\n");
#define DATA(N)
#include "sched_touch.inc"
// calls into the crypto library that also read and write buffers of the code
extern "C" {
#define UPD(N) int __real_##N(void*, unsigned char*, int*, const unsigned char*, int); int __wrap_##N(void* c, unsigned char* o, int* l, const unsigned char* in, int n) { if (c) access((uintptr_t) c, 1, true, RA); if (in && n > 0) access((uintptr_t) in, (size_t) n, false, RA); int r = __real_##N(c, o, l, in, n); if (r == 1 && o && l && *l > 0) access((uintptr_t) o, (size_t) *l, true, RA); return r; }
UPD(EVP_EncryptUpdate) UPD(EVP_DecryptUpdate)
#define FIN(N) int __real_##N(void*, unsigned char*, int*); int __wrap_##N(void* c, unsigned char* o, int* l) { if (c) access((uintptr_t) c, 1, true, RA); int r = __real_##N(c, o, l); if (r == 1 && o && l && *l > 0) access((uintptr_t) o, (size_t) *l, true, RA); return r; }
FIN(EVP_EncryptFinal) FIN(EVP_DecryptFinal) FIN(EVP_EncryptFinal_ex) FIN(EVP_DecryptFinal_ex)
int __real_EVP_DigestUpdate(void*, const void*, size_t); int __wrap_EVP_DigestUpdate(void* c, const void* d, size_t n) { if (c) access((uintptr_t) c, 1, true, RA); if (d && n) access((uintptr_t) d, n, false, RA); return __real_EVP_DigestUpdate(c, d, n); }
}
// memory of the harness is not used again within an execution either
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && !(sched::in_thread() && sched::crypto_free(p))) __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
