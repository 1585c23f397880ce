// The environment of the code under test, under the control of the harness (bound by linker --wrap).
#pragma once
#include <cstddef>
#include <cstdint>
#include <ctime>
#include <utility>
#include <vector>
extern "C" {
#include "sa_types.h"
}
namespace env {
struct Video { uint32_t analog_unprotected, analog_cgmsa, digital_unprotected, digital_hdcp14, digital_hdcp22; bool svp; };
extern time_t now;                 // what time() and friends report
extern Video video;                // what the display path reports
extern bool video_fails;
extern sa_uuid caller;             // identity reported by the transport
extern uint64_t rand_state;        // state of the deterministic RAND_bytes
extern uint64_t rand_calls, rand_drawn, rand_fail_at, rand_flip; // requests and bytes since reset(); the request that fails (1-based), the byte to change (1-based)
extern bool rand_const;            // every byte is the same
extern int rand_fail_value;        // what a failing request returns: 0 or -1
extern bool rand_huge;             // requests are recorded in rand_spans, and only some of the bytes written
extern std::vector<std::pair<unsigned char*, size_t>> rand_spans;
// allocation faults: when armed, the fail_at-th allocation (1-based) fails; all further ones too if fail_all
extern bool alloc_armed; extern uint64_t alloc_count, alloc_fail_at; extern bool alloc_failed, alloc_fail_all;
extern bool in_call;               // faults are injected only while this is set
extern int64_t live_allocs;        // live allocations made through the wrapped allocator since live_reset()
extern bool live_track, crypto_track; // crypto_track: also the blocks of the crypto library (see crypto_alloc_hook)
extern void (*on_spin)(void);      // called when the code waits in a polling loop; default: reports a hang by aborting
extern bool (*free_hook)(void*, void*); extern bool (*crypto_free_hook)(void*);    // takes over a free (the scheduler keeps the memory back)
void reset();                      // default environment
void live_reset();
// requests of the client library to the trusted side: when set, receives them; real_command passes one on
extern sa_status (*on_command)(void* session, uint32_t command, const uint32_t* types, void* params);
sa_status real_command(void* session, uint32_t command, const uint32_t* types, void* params);
// SVP memory: when restrict_svp is set only [svp_lo, svp_hi) is secure memory
extern bool restrict_svp; extern uintptr_t svp_lo, svp_hi;
// crypto library faults: when armed the n-th allocation inside the crypto library fails (see crypto_alloc_hook)
bool crypto_alloc_hook();          // takes over the allocator of the crypto library; must run before it allocates anything
extern bool crypto_armed; extern uint64_t crypto_count, crypto_fail_at; extern bool crypto_failed;
}
