#include <dlfcn.h>
#include "env.hpp"
#include "porting/video_output.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include <openssl/crypto.h>
extern "C" { void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
namespace env {
time_t now; Video video; bool video_fails; sa_uuid caller; uint64_t rand_state, rand_calls, rand_drawn, rand_fail_at, rand_flip; bool rand_const; int rand_fail_value; std::vector<std::pair<unsigned char*, size_t>> rand_spans; bool rand_huge;
bool alloc_armed, alloc_failed, alloc_fail_all; uint64_t alloc_count, alloc_fail_at;
bool in_call;
int64_t live_allocs; bool live_track, crypto_track;
bool restrict_svp; uintptr_t svp_lo, svp_hi;
bool crypto_armed, crypto_failed; uint64_t crypto_count, crypto_fail_at;
static int spins;
static void default_spin() {
    // single-threaded harness: nobody else can change the awaited condition
    if (++spins > 50) { fprintf(stderr, "ERROR: the call waits forever (polling loop, single thread)\n"); _exit(99); }
}
void (*on_spin)(void) = default_spin;
sa_status (*on_command)(void*, uint32_t, const uint32_t*, void*) = nullptr;
bool (*free_hook)(void*, void*) = nullptr; bool (*crypto_free_hook)(void*) = nullptr;
static struct { void* p[65536]; } tab; // open addressing set of live pointers
static size_t slot(void* p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ULL >> 48; }
static void live_add(void* p) { size_t i = slot(p); for (size_t k = 0; k < 65536; k++, i = (i + 1) & 65535) if (!tab.p[i] || tab.p[i] == (void*) 1) { tab.p[i] = p; live_allocs++; return; } }
static void live_del(void* p) { size_t i = slot(p); for (size_t k = 0; k < 65536 && tab.p[i]; k++, i = (i + 1) & 65535) if (tab.p[i] == p) { tab.p[i] = (void*) 1; live_allocs--; return; } }
void live_reset() { memset(&tab, 0, sizeof tab); live_allocs = 0; }
void reset() {
    now = 1700000000;
    video = {0, 0, 0, 0, 1, true};
    video_fails = false;
    memset(&caller, 0, sizeof caller); caller.id[15] = 1;
    alloc_armed = alloc_failed = alloc_fail_all = false; alloc_count = alloc_fail_at = 0;
    crypto_armed = crypto_failed = false; crypto_count = crypto_fail_at = 0;
    restrict_svp = false;
    rand_calls = rand_drawn = rand_fail_at = rand_flip = 0; rand_const = false; rand_fail_value = 0; rand_huge = false; rand_spans.clear();
    spins = 0;
    on_spin = default_spin;
}
static struct Init { Init() { rand_state = 88172645463325252ULL; reset(); } } init_;
static bool inject_crypto() {
    if (!crypto_armed || !in_call) return false;
    crypto_count++;
    if (crypto_count == crypto_fail_at) { crypto_failed = true; return true; }
    return false;
}
static void* cr_malloc(size_t n, const char*, int) { if (inject_crypto()) return nullptr; void* p = __real_malloc(n); if (crypto_track && p) live_add(p); return p; }
static void* cr_realloc(void* p, size_t n, const char*, int) { if (p && crypto_free_hook) { void* q = __real_malloc(n); size_t m = malloc_usable_size(p); memcpy(q, p, n < m ? n : m); if (!crypto_free_hook(p)) __real_free(p); return q; } if (inject_crypto()) return nullptr; if (crypto_track && p) live_del(p); void* q = __real_realloc(p, n); if (crypto_track && q) live_add(q); return q; }
static void cr_free(void* p, const char*, int) { if (crypto_track && p) live_del(p); if (p && crypto_free_hook && crypto_free_hook(p)) return; __real_free(p); }
bool crypto_alloc_hook() { auto f = (decltype(&CRYPTO_set_mem_functions)) dlsym(RTLD_DEFAULT, "CRYPTO_set_mem_functions"); return f && f(cr_malloc, cr_realloc, cr_free) == 1; } // the library's own, also where the code's calls to it are wrapped
static bool inject() {
    if (!alloc_armed || !in_call) return false;
    alloc_count++;
    if (alloc_count == alloc_fail_at || (alloc_fail_all && alloc_count >= alloc_fail_at)) { alloc_failed = true; return true; }
    return false;
}
}
using namespace env;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void __wrap_free(void* p);
void* __wrap_malloc(size_t n) { if (inject()) return nullptr; void* p = __real_malloc(n); if (live_track && p) live_add(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (inject()) return nullptr; void* p = __real_calloc(a, b); if (live_track && p) live_add(p); return p; }
void* __wrap_realloc(void* o, size_t n) { if (inject()) return nullptr; if (o && env::free_hook) { void* p = __real_malloc(n); size_t m = malloc_usable_size(o); memcpy(p, o, n < m ? n : m); __wrap_free(o); if (live_track && p) live_add(p); return p; } void* p = __real_realloc(o, n); if (live_track && p) { if (o) live_del(o); live_add(p); } return p; }
void __wrap_free(void* p) { if (live_track && p) live_del(p); if (p && env::free_hook && env::free_hook(p, __builtin_return_address(0))) return; __real_free(p); }

time_t __wrap_time(time_t* t) { if (t) *t = env::now; return env::now; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = env::now; ts->tv_nsec = 0; return 0; }
    return __real_clock_gettime(c, ts);
}
int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = env::now; tv->tv_usec = 0; return 0; }
int __wrap_timespec_get(struct timespec* ts, int base) { ts->tv_sec = env::now; ts->tv_nsec = 0; return base; }

unsigned __wrap_sleep(unsigned) { on_spin(); return 0; }
int __wrap_usleep(useconds_t) { on_spin(); return 0; }
int __wrap_thrd_sleep(const struct timespec*, struct timespec*) { on_spin(); return 0; }
void __wrap_thrd_yield(void) { on_spin(); }
int __wrap_sched_yield(void) { on_spin(); return 0; }

bool __wrap_video_output_poll(video_output_state_t* s) {
    if (video_fails || !s) return false;
    memset(s, 0, sizeof *s);
    s->analog_unprotected_count = video.analog_unprotected;
    s->analog_cgmsa_count = video.analog_cgmsa;
    s->digital_unprotected_count = video.digital_unprotected;
    s->digital_hdcp14_count = video.digital_hdcp14;
    s->digital_hdcp22_count = video.digital_hdcp22;
    s->svp_enabled = video.svp;
    return true;
}
sa_status __wrap_transport_authenticate_caller(sa_uuid* u) { if (!u) return SA_STATUS_NULL_PARAMETER; *u = env::caller; return SA_STATUS_OK; }

static bool rand_fails() { return ++rand_calls == rand_fail_at; }
static void fill(unsigned char* b, int n) {
    if (rand_huge) { rand_spans.push_back({b, (size_t) n}); rand_drawn += (uint64_t) n; for (long i = 0; i < n; i += 1 << 20) b[i] = 0x77; if (n) b[n - 1] = 0x77; return; }
    for (int i = 0; i < n; i++) {
        rand_state ^= rand_state << 13; rand_state ^= rand_state >> 7; rand_state ^= rand_state << 17;
        b[i] = rand_const ? 0x5a : (unsigned char) (rand_state >> 24);
        if (++rand_drawn == rand_flip) b[i] ^= 0x10;
    }
}
int __wrap_RAND_bytes(unsigned char* b, int n) { if (n < 0) return 0; if (rand_fails()) return rand_fail_value; fill(b, n); return 1; }
int __wrap_RAND_priv_bytes(unsigned char* b, int n) { if (n < 0) return 0; if (rand_fails()) return rand_fail_value; fill(b, n); return 1; }

sa_status __real_ta_invoke_command_handler(void*, int, const uint32_t*, void*);
sa_status __wrap_ta_invoke_command_handler(void* s, int c, const uint32_t* t, void* p) { return on_command ? on_command(s, (uint32_t) c, t, p) : __real_ta_invoke_command_handler(s, c, t, p); }
}
sa_status env::real_command(void* s, uint32_t c, const uint32_t* t, void* p) { return __real_ta_invoke_command_handler(s, (int) c, t, p); }
extern "C" {
bool __real_memory_is_valid_svp(void*, size_t); bool __real_memory_is_valid_clear(void*, size_t);
bool __wrap_memory_is_valid_svp(void* p, size_t n) {
    if (!__real_memory_is_valid_svp(p, n)) return false;
    if (restrict_svp && ((uintptr_t) p < svp_lo || (uintptr_t) p > svp_hi || n > svp_hi - (uintptr_t) p)) return false;
    return true;
}
bool __wrap_memory_is_valid_clear(void* p, size_t n) {
    if (!__real_memory_is_valid_clear(p, n)) return false;
    if (restrict_svp && n && (uintptr_t) p < svp_hi && (uintptr_t) p + n > svp_lo) return false;
    return true;
}
}
