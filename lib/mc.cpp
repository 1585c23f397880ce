#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __real_clock_gettime(clockid_t, struct timespec*) __attribute__((weak));

namespace mc {
enum { MAXV = 8, NSAMP = 3, NCTR = 24 };
struct Viol { uint64_t idx; char desc[1024]; char msg[3000]; char known; };
struct Ctr { char name[40]; uint64_t n; };
struct WorkerShm {
    volatile uint64_t idx, beat, evals, transitions, traces;
    volatile int nviol, nknown, done, capped, nsamp;
    char desc[1024];
    char cap_why[200];
    Viol v[MAXV];
    Viol known[MAXV];
    char samp[NSAMP][700];
    Ctr ctr[NCTR];
};

double now() {
    struct timespec ts;
    if (__real_clock_gettime) __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    else clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
uint64_t hash(const void* p, size_t n, uint64_t h) {
    auto* b = (const uint8_t*) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    h ^= h >> 32;
    return h;
}
std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) { s += d[((const uint8_t*) p)[i] >> 4]; s += d[((const uint8_t*) p)[i] & 15]; }
    return s;
}
static std::string vstrf(const char* fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap); return s;
}

struct Known { std::string prop, match, text; };
static std::vector<Known> g_known;
static std::string g_prop;

static const Known* match_known(const std::string& desc, const std::string& msg) {
    for (auto& k : g_known)
        if (desc.find(k.match) != std::string::npos || msg.find(k.match) != std::string::npos) return &k;
    return nullptr;
}

bool Run::stop() const { return nfail_ >= MAXV || (deadline_ > 0 && now() > deadline_); }

bool Run::begin_case(const char* desc) {
    if (static const char* slow = getenv("MC_SLOW"); slow) { // diagnosis: append the duration of every case to a file
        static double t; static std::string prev; double n = now();
        if (t > 0) if (FILE* f = fopen(slow, "a")) { fprintf(f, "%.3f %s\n", n - t, prev.c_str()); fclose(f); }
        t = n; prev = desc;
    }
    shm->idx = idx_;
    snprintf(shm->desc, sizeof shm->desc, "%s", desc);
    shm->beat = shm->beat + 1;
    shm->evals = shm->evals + 1;
    return true;
}
bool Run::take(const char* fmt, ...) {
    idx_++;
    if (replay_ && !only_.empty()) {
        va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
        s.resize(std::min(s.size(), sizeof(shm->desc) - 1));
        if (s != only_) return false;
        return begin_case(s.c_str());
    }
    if (idx_ > upto_ || idx_ <= start_after_ || (idx_ % workers_) != worker_) return false;
    if (nfail_ >= MAXV) return false;
    if (deadline_ > 0 && (idx_ / workers_) % 16 == 0 && now() > deadline_) { capped("time cap"); }
    if (shm->capped && deadline_ > 0) return false;
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    if (static const char* f = getenv("MC_ONLY"); f && !strstr(s.c_str(), f)) return false; // diagnosis: only the cases that contain this text
    return begin_case(s.c_str());
}
bool Run::own_group(const char* fmt, ...) {
    group_idx_++;
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    (void) s;
    if (replay_ && !only_.empty()) { group_owned_ = true; return true; }
    group_owned_ = (group_idx_ % workers_) == worker_;
    return group_owned_;
}
bool Run::take_owned(const char* fmt, ...) {
    idx_++;
    if (replay_ && !only_.empty()) {
        va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
        s.resize(std::min(s.size(), sizeof(shm->desc) - 1));
        if (s != only_) return false;
        return begin_case(s.c_str());
    }
    if (!group_owned_ || idx_ > upto_ || idx_ <= start_after_) return false;
    if (nfail_ >= MAXV) return false;
    if (deadline_ > 0 && idx_ % 16 == 0 && now() > deadline_) { capped("time cap"); }
    if (shm->capped && deadline_ > 0) return false;
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    return begin_case(s.c_str());
}
void Run::capped(const char* why) {
    shm->capped = 1;
    snprintf(shm->cap_why, sizeof shm->cap_why, "%s (worker %u stopped at case %llu)", why, worker_, (unsigned long long) idx_);
}
static void record(Run& r, const std::string& m) {
    const Known* k = match_known(r.shm->desc, m);
    if (k) {
        int n = r.shm->nknown;
        for (int i = 0; i < n && i < MAXV; i++)
            if (match_known(r.shm->known[i].desc, r.shm->known[i].msg) == k) return;
        if (n >= MAXV) return;
        Viol& v = r.shm->known[n];
        v.idx = r.idx_; snprintf(v.desc, sizeof v.desc, "%s", r.shm->desc); snprintf(v.msg, sizeof v.msg, "%s", m.c_str());
        r.shm->nknown = n + 1;
        return;
    }
    int n = r.shm->nviol;
    r.nfail_++;
    if (n >= MAXV) return;
    if (n > 0 && r.shm->v[n - 1].idx == r.idx_ && !strcmp(r.shm->v[n - 1].desc, r.shm->desc)) return; // one per case
    Viol& v = r.shm->v[n];
    v.idx = r.idx_; snprintf(v.desc, sizeof v.desc, "%s", r.shm->desc); snprintf(v.msg, sizeof v.msg, "%s", m.c_str());
    r.shm->nviol = n + 1;
}
void Run::fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    record(*this, s);
}
bool Run::check(bool cond, const char* fmt, ...) {
    if (cond) return true;
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    record(*this, s);
    return false;
}
void Run::transitions(uint64_t n) { shm->transitions = shm->transitions + n; }
void Run::traces(uint64_t n) { shm->traces = shm->traces + n; }
void Run::beat() { shm->beat = shm->beat + 1; }
void Run::state(uint64_t h) { states_.insert(h); }
void Run::state(const void* p, size_t n) { states_.insert(hash(p, n)); }
void Run::nontrivial(uint64_t h) { distinct_.insert(h); }
void Run::sample(const char* fmt, ...) {
    int n = shm->nsamp;
    if (n >= NSAMP) return;
    va_list ap; va_start(ap, fmt); auto s = vstrf(fmt, ap); va_end(ap);
    snprintf(shm->samp[n], sizeof shm->samp[n], "%s", s.c_str());
    shm->nsamp = n + 1;
}
void Run::count(const char* name, uint64_t n) {
    for (auto& c : shm->ctr) {
        if (!c.name[0]) snprintf(c.name, sizeof c.name, "%s", name);
        if (!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
    }
}
const char* Run::current() const { return shm->desc; }

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string tail_file(const std::string& path, size_t n) {
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    size_t p = s.rfind("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.rfind("runtime error:");
    if (p != std::string::npos) return s.substr(p, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}

struct Child { pid_t pid = -1; uint64_t last_beat = 0; double last_t = 0; int restarts = 0; bool finished = false; };

static std::string g_scratch;

static void save_set(const std::string& path, const std::unordered_set<uint64_t>& s) {
    FILE* f = fopen(path.c_str(), "ab");
    if (!f) return;
    for (auto h : s) fwrite(&h, 8, 1, f);
    fclose(f);
}

static pid_t spawn(const Spec& spec, Run proto, WorkerShm* shm, unsigned w, uint64_t start_after, const std::string& err) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid) return pid;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && !getenv("MC_CONC")) { dup2(fd, 2); close(fd); }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); close(nul); }
    proto.shm = shm; proto.worker_ = w; proto.start_after_ = start_after;
    shm->idx = start_after;
    snprintf(shm->desc, sizeof shm->desc, "setup");
    if (spec.setup) spec.setup(proto);
    shm->beat = shm->beat + 1;
    if (!shm->nviol) spec.explore(proto);
    save_set(g_scratch + strf("/states.%u", w), proto.states_);
    save_set(g_scratch + strf("/distinct.%u", w), proto.distinct_);
    shm->done = 1;
    _exit(0);
}

// Waits for a child; returns "" on clean end, otherwise a description of how it died.
static std::string babysit(pid_t pid, WorkerShm* shm, double hang_s, const std::string& err) {
    uint64_t last = shm->beat; double t = now();
    for (;;) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
            std::string how = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
            return how + ": " + tail_file(err, 1500);
        }
        if (shm->beat != last) { last = shm->beat; t = now(); }
        if (now() - t > hang_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "the call did not return (hang)"; }
        struct timespec ts = {0, 2000000}; nanosleep(&ts, nullptr);
    }
}

static WorkerShm* new_shm() {
    auto* s = (WorkerShm*) mmap(nullptr, sizeof(WorkerShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*) s, 0, sizeof *s);
    return s;
}

static void load_known(const std::string& path) {
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        // KNOWN<TAB>property<TAB>substring<TAB>text
        if (l.rfind("KNOWN\t", 0) != 0) continue;
        std::vector<std::string> p;
        size_t a = 0;
        for (;;) { size_t b = l.find('\t', a); p.push_back(l.substr(a, b - a)); if (b == std::string::npos) break; a = b + 1; }
        if (p.size() >= 4 && p[1] == g_prop) g_known.push_back({p[1], p[2], p[3]});
    }
}

int main(int argc, char** argv, const Spec& spec) {
    std::string tier = "quick", verif = ".", replay;
    uint64_t seed = 1; unsigned nw = std::min<unsigned>(spec.max_workers, std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)));
    double cap = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nxt();
        else if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--verif") verif = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--workers") nw = atoi(nxt().c_str());
        else if (a == "--cap") cap = atof(nxt().c_str());
    }
    g_prop = spec.property;
    load_known(verif + "/known_findings.txt");
    g_scratch = verif + "/build/scratch/" + spec.property + strf(".%d", (int) getpid());
    (void) !system(("mkdir -p '" + g_scratch + "' '" + verif + "/build/replay' '" + verif + "/evidence'").c_str());
    struct Clean { ~Clean() { std::string d = g_scratch; for (int w = 0; w < 64; w++) for (auto n : {"states", "distinct", "err", "rerr"}) unlink((d + "/" + n + strf(".%d", w)).c_str()); rmdir(d.c_str()); } } clean;
    double t0 = now();
    Run proto;
    proto.thorough = tier == "thorough";
    proto.seed = seed;
    proto.workers_ = nw;

    auto run_one = [&](const std::string& desc, unsigned w, uint64_t idx, bool prefix, std::string* out) -> bool {
        // true: it failed again
        WorkerShm* s = new_shm();
        Run p = proto;
        p.deadline_ = 0;
        if (prefix) { p.upto_ = idx; } else { p.replay_ = true; p.only_ = desc; }
        std::string err = g_scratch + strf("/rerr.%u", w);
        pid_t pid = spawn(spec, p, s, w, 0, err);
        std::string d = babysit(pid, s, prefix ? spec.hang_s * 2 : spec.hang_s * 2.5, err);
        bool failed = false;
        if (!d.empty() && !match_known(s->desc, d)) { failed = true; *out = std::string("[") + s->desc + "] " + d; }
        for (int i = 0; i < s->nviol && !failed; i++) { failed = true; *out = std::string("[") + s->v[i].desc + "] " + s->v[i].msg; }
        if (!failed && !prefix && !s->evals) *out = "case not found";
        munmap((void*) s, sizeof *s);
        return failed;
    };

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string l, desc; unsigned w = 0; uint64_t idx = 0; bool prefix = false;
        while (std::getline(f, l)) {
            if (l.rfind("case=", 0) == 0) desc = l.substr(5);
            if (l.rfind("mode=prefix", 0) == 0) prefix = true;
            if (l.rfind("tier=", 0) == 0) proto.thorough = l.substr(5) == "thorough";
            if (l.rfind("seed=", 0) == 0) proto.seed = strtoull(l.c_str() + 5, nullptr, 10);
            if (l.rfind("shard=", 0) == 0) { unsigned a, b; unsigned long long c; if (sscanf(l.c_str() + 6, "%u/%u/%llu", &a, &b, &c) == 3) { w = a; proto.workers_ = b; idx = c; } }
        }
        std::string out;
        bool bad = run_one(desc, w, idx, prefix, &out);
        printf("%s\n", bad ? out.c_str() : ("replay held " + out).c_str());
        if (bad) printf("VIOLATION property=%s replay=%s\n", spec.property, replay.c_str());
        return bad ? 1 : 0;
    }

    proto.deadline_ = t0 + (cap > 0 ? cap : proto.thorough ? spec.thorough_cap_s : spec.quick_cap_s);
    std::vector<WorkerShm*> shm(nw);
    std::vector<Child> ch(nw);
    struct Found { unsigned w; uint64_t idx; std::string desc, msg; };
    std::vector<Found> found, known;
    for (unsigned w = 0; w < nw; w++) {
        shm[w] = new_shm();
        ch[w].pid = spawn(spec, proto, shm[w], w, 0, g_scratch + strf("/err.%u", w));
        ch[w].last_t = now();
    }
    bool setup_died = false;
    for (;;) {
        bool any = false;
        for (unsigned w = 0; w < nw; w++) {
            if (ch[w].finished) continue;
            any = true;
            int st; pid_t r = waitpid(ch[w].pid, &st, WNOHANG);
            std::string died;
            if (r == ch[w].pid) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[w]->done) { ch[w].finished = true; continue; }
                died = (WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st))) + ": " + tail_file(g_scratch + strf("/err.%u", w), 1500);
            } else {
                if (shm[w]->beat != ch[w].last_beat) { ch[w].last_beat = shm[w]->beat; ch[w].last_t = now(); }
                else if (now() - ch[w].last_t > spec.hang_s) {
                    kill(ch[w].pid, SIGKILL); waitpid(ch[w].pid, &st, 0);
                    died = "the call did not return (hang)";
                }
            }
            if (died.empty()) continue;
            if (!strcmp(shm[w]->desc, "setup")) { found.push_back({w, 0, "setup", died}); ch[w].finished = true; setup_died = true; continue; }
            const Known* k = match_known(shm[w]->desc, died);
            (k ? known : found).push_back({w, shm[w]->idx, shm[w]->desc, died});
            if ((!k && ++ch[w].restarts >= (getenv("MC_LIST") ? 40 : 3)) || now() > proto.deadline_) { ch[w].finished = true; continue; }
            ch[w].pid = spawn(spec, proto, shm[w], w, shm[w]->idx, g_scratch + strf("/err.%u", w));
            ch[w].last_t = now(); ch[w].last_beat = shm[w]->beat;
        }
        if (!any) break;
        struct timespec ts = {0, 2000000}; nanosleep(&ts, nullptr);
    }
    uint64_t evals = 0, trans = 0, traces = 0; bool iscapped = false; std::string why;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> ctrs;
    for (unsigned w = 0; w < nw; w++) {
        evals += shm[w]->evals; trans += shm[w]->transitions; traces += shm[w]->traces;
        if (shm[w]->capped) { iscapped = true; why = shm[w]->cap_why; }
        for (int i = 0; i < shm[w]->nviol; i++) found.push_back({w, shm[w]->v[i].idx, shm[w]->v[i].desc, shm[w]->v[i].msg});
        for (int i = 0; i < shm[w]->nknown; i++) known.push_back({w, shm[w]->known[i].idx, shm[w]->known[i].desc, shm[w]->known[i].msg});
        for (int i = 0; i < shm[w]->nsamp && samples.size() < 6; i++) if (i == 0 || w == 0) samples.push_back(shm[w]->samp[i]);
        for (auto& c : shm[w]->ctr) if (c.name[0]) ctrs[c.name] += c.n;
    }
    auto merge = [&](const char* n) {
        std::unordered_set<uint64_t> u;
        for (unsigned w = 0; w < nw; w++) {
            FILE* f = fopen((g_scratch + "/" + n + strf(".%u", w)).c_str(), "rb");
            if (!f) continue;
            uint64_t h; while (fread(&h, 8, 1, f) == 1) u.insert(h);
            fclose(f);
        }
        return (uint64_t) u.size();
    };
    uint64_t nstates = merge("states"), ndist = merge("distinct");
    std::stable_sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });

    int confirmed = 0, unrepro = 0, tried = 0;
    if (getenv("MC_LIST")) { for (auto& f : found) printf("FOUND [%s] %s\n", f.desc.c_str(), f.msg.substr(0, 700).c_str()); return 1; }
    for (auto& f : found) {
        if (confirmed >= 1 || tried >= 6) break;
        tried++;
        std::string out; bool ok = false; bool prefix = false;
        for (int k = 0; k < 2 && !ok; k++) ok = run_one(f.desc, f.w, f.idx, false, &out);
        if (!ok) { prefix = true; ok = run_one(f.desc, f.w, f.idx, true, &out); }
        if (!ok) { unrepro++; fprintf(stdout, "UNREPRODUCED [%s] %s\n", f.desc.c_str(), f.msg.c_str()); continue; }
        confirmed++;
        std::string rp = verif + "/build/replay/" + spec.property + strf("-%016llx.replay", (unsigned long long) hash(f.desc));
        std::ofstream o(rp);
        o << "property=" << spec.property << "\ntier=" << tier << "\nseed=" << seed << "\nmode=" << (prefix ? "prefix" : "case")
          << "\nshard=" << f.w << "/" << nw << "/" << f.idx << "\ncase=" << f.desc << "\nmessage=" << f.msg << "\n";
        o.close();
        printf("case: %s\nobserved: %s\n", f.desc.c_str(), f.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", spec.property, rp.c_str());
    }
    std::set<const Known*> kset;
    for (auto& f : known) if (auto* k = match_known(f.desc, f.msg)) kset.insert(k);
    for (auto* k : kset) printf("KNOWN-FINDING: property=%s %s\n", spec.property, k->text.c_str());

    double wall = now() - t0;
    std::ofstream e(verif + "/evidence/" + spec.property + ".json");
    e << "{\n \"property\": " << jstr(spec.property) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << jstr(spec.level)
      << ",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << ndist << ",\n  \"rule\": " << jstr(spec.rule)
      << ",\n  \"states\": " << nstates << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << traces
      << ",\n  \"exhaustive\": " << (iscapped || !found.empty() || setup_died ? "false" : "true");
    for (auto& c : ctrs) e << ",\n  " << jstr(c.first) << ": " << c.second;
    if (iscapped) e << ",\n  \"capped\": " << jstr(why);
    e << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) e << (i ? ", " : "") << jstr(samples[i]);
    e << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < spec.assumptions.size(); i++) e << (i ? ", " : "") << jstr(spec.assumptions[i]);
    e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << found.size() << "\n}\n";
    e.close();
    printf("%s %s: evaluations=%llu distinct=%llu states=%llu transitions=%llu traces=%llu violations=%zu known=%zu%s wall=%.1fs\n", spec.property, tier.c_str(),
            (unsigned long long) evals, (unsigned long long) ndist, (unsigned long long) nstates, (unsigned long long) trans, (unsigned long long) traces,
            found.size(), kset.size(), iscapped ? (" CAPPED " + why).c_str() : "", wall);
    for (auto& c : ctrs) printf("  %s=%llu\n", c.first.c_str(), (unsigned long long) c.second);
    if (setup_died && !confirmed) return 2;
    if (confirmed) return 1;
    if (unrepro) return 2;
    if (evals == 0 && kset.empty()) return 2;
    return 0;
}
} // namespace mc
