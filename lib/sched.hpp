// Controlled scheduler: threads are coroutines on one OS thread, switched only at synchronisation points of the code
// under test; every schedule up to a preemption bound is enumerated. Data races are found by vector clocks on every
// memory access of the code (compiler instrumentation), so that switching at synchronisation points is enough.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>
namespace sched {
constexpr int MAXT = 6;
struct Choice { uint8_t n, idx; uint8_t alt[MAXT]; };
// One execution: runs the bodies to completion under the path of choices (extending it). Returns "" or what went wrong
// (deadlock, livelock, data race, use of freed memory, misuse of a mutex).
class Explorer {
public:
    int bound = 2;                 // preemptions
    std::vector<Choice> path;
    std::set<uint64_t> contended, grown; // locks at which a switch is considered (those two threads have contended for), and new ones
    size_t at = 0;
    uint64_t steps = 0;            // scheduling steps of the last execution
    int preempted = 0;
    std::string run(const std::vector<std::function<void()>>& bodies);
    bool next();                   // to the next path; false when all are done
    std::string schedule() const;  // readable
};
bool in_thread();                  // called from a coroutine
int self();                        // its number, from 1
uint64_t tick();                   // strictly increasing event number
void label(uint64_t base);         // names of the locks the main thread makes next start here
bool stuck();                      // main thread would wait for ever (set during sequential calls)
extern std::string error;          // first error since clear()
void use(const void* p, size_t n, bool write); // an access of the caller, for race detection
void clear();
void begin_sequential();           // main thread makes calls of its own; waiting for ever is an error
}
