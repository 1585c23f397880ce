// Bounded exhaustive exploration driver: deterministic case enumeration, sharding over worker processes,
// crash/hang capture, replay-before-report, evidence output.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct WorkerShm;

class Run {
public:
    bool thorough = false;
    uint64_t seed = 1;

    // Enumerates one case. Returns true when this worker is to execute it.
    bool take(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // As take(), but all workers can skip a whole group of cases cheaply (same sharding rule, no case recorded).
    // group(i) returns true if this worker owns the group; inside, own() cases are all executed by this worker.
    bool take_owned(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool own_group(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // Reports that the property is broken in the current case.
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool check(bool cond, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

    void transitions(uint64_t n = 1);      // calls of the system executed
    void traces(uint64_t n = 1);           // complete executions compared with the reference
    void state(uint64_t hash);             // a visited (model) state
    void state(const void* p, size_t n);
    void nontrivial(uint64_t hash);        // a distinct non-trivial case
    void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void count(const char* name, uint64_t n = 1);  // extra named counter
    bool stop() const;                     // deadline or too many violations
    void beat();                           // progress, for cases that legitimately take long
    void capped(const char* why);          // the bound was cut short
    const char* current() const;
    bool replaying() const { return replay_; }
    unsigned worker() const { return worker_; }
    uint64_t failures() const { return nfail_; }

    // internal
    WorkerShm* shm = nullptr;
    unsigned worker_ = 0, workers_ = 1;
    uint64_t idx_ = 0, start_after_ = 0, upto_ = UINT64_MAX, group_idx_ = 0;
    bool group_owned_ = false;
    bool replay_ = false;
    std::string only_;
    uint64_t nfail_ = 0;
    double deadline_ = 0;
    std::unordered_set<uint64_t> states_, distinct_;
    bool begin_case(const char* desc);
};

struct Spec {
    const char* property;
    const char* level = "model_checking";
    const char* rule;                         // how cases are made and what makes one non-trivial
    std::vector<std::string> assumptions;
    std::function<void(Run&)> explore;
    std::function<void(Run&)> setup;          // in each worker, before exploring
    double quick_cap_s = 420, thorough_cap_s = 10000;
    double hang_s = 45;
    unsigned max_workers = 8;
};

int main(int argc, char** argv, const Spec& spec);

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
std::string hex(const void* p, size_t n);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
double now();

} // namespace mc
