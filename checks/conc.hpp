// Concurrent calls against the one-at-a-time oracle: every schedule of a scenario must give an outcome that the same
// calls give in some sequential order that keeps the order of calls that did not overlap.
#pragma once
#include "gates.hpp"
#include "sched.hpp"
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
struct WObj { std::string name; int owner; Kind kind; sa_handle h; bool live; };
struct World { // what a scenario's calls work on
    Api A; std::vector<WObj> objs; bool loose = false; // loose: refusals are not told apart
    std::map<std::string, Api> sess;
    WObj* find(const std::string& n) { for (auto& o : objs) if (o.name == n) return &o; fprintf(stderr, "no object %s\n", n.c_str()); abort(); }
    WObj* own(int t, Kind k) { for (size_t i = objs.size(); i-- > 0;) if (objs[i].owner == t && objs[i].kind == k) return &objs[i]; return nullptr; }
    sa_handle h(const std::string& n) { return find(n)->h; }
};
typedef std::function<void(World&, int thread, std::string& out)> Fn;
struct COp { std::string name; Fn f; };
struct Scenario {
    std::string name; std::vector<std::vector<const COp*>> prog;
    std::function<void(World&)> setup; std::function<void(World&, std::string&)> finish; // finish: probes the state that is left, and cleans up
};
static inline void put(std::string& o, World& w, sa_status s) { o += w.loose && s ? "refused" : sn(s); }
struct Conc {
    mc::Run& r; std::function<void(World&)> open; std::function<std::string(World&)> close; int bound; // close: checks the session at the end
    bool fresh = false; // every execution in a process of its own in which the code has not run yet
    struct Ev { uint64_t b, e; };
    struct Out { std::string err, fin; std::vector<std::string> out; std::vector<Ev> ev; };
    std::vector<std::vector<int>> id; std::vector<std::pair<int, int>> calls;
    Out here(const Scenario& s, const World& base, const std::vector<int>* order, sched::Explorer* ex) {
        Out q; sched::label(1ULL << 60); World w = base; if (fresh) open(w); s.setup(w); q.out.resize(calls.size()); q.ev.resize(calls.size(), Ev{0, 0});
        if (order) { sched::clear(); sched::begin_sequential(); uint64_t keep = env::rand_state; for (int c : *order) { env::rand_state = 1000 + 64 * c; s.prog[calls[c].first][calls[c].second]->f(w, calls[c].first + 1, q.out[c]); } env::rand_state = keep; }
        else {
            std::vector<std::function<void()>> bodies;
            for (int i = 0; i < (int) s.prog.size(); i++) bodies.push_back([&, i] { for (int j = 0; j < (int) s.prog[i].size(); j++) { int c = id[i][j]; env::rand_state = 1000 + 64 * c; q.ev[c].b = sched::tick(); s.prog[i][j]->f(w, i + 1, q.out[c]); q.ev[c].e = sched::tick(); } });
            q.err = ex->run(bodies); if (!q.err.empty()) return q; sched::clear(); sched::begin_sequential();
        }
        s.finish(w, q.fin); if (fresh) q.fin += close(w); return q;
    }
    static void pack(std::string& b, const std::string& s) { uint32_t n = (uint32_t) s.size(); b.append((char*) &n, 4); b += s; }
    static std::string unpack(const std::string& b, size_t& at) { uint32_t n = 0; if (at + 4 > b.size()) return ""; memcpy(&n, b.data() + at, 4); at += 4; std::string s = b.substr(at, n); at += n; return s; }
    Out away(const Scenario& s, const World& base, const std::vector<int>* order, sched::Explorer* ex) {
        int p[2]; if (pipe(p)) abort(); fflush(nullptr); pid_t pid = fork(); if (pid < 0) { fprintf(stderr, "ERROR: fork\n"); abort(); }
        if (!pid) {
            ::close(p[0]); Out q = here(s, base, order, ex); std::string b; pack(b, q.err); pack(b, q.fin); for (auto& x : q.out) pack(b, x); pack(b, std::string((char*) q.ev.data(), q.ev.size() * sizeof(Ev)));
            if (ex) { pack(b, std::string((char*) ex->path.data(), ex->path.size() * sizeof(sched::Choice))); pack(b, std::string((char*) &ex->steps, 8)); std::vector<uint64_t> g(ex->grown.begin(), ex->grown.end()); pack(b, std::string((char*) g.data(), 8 * g.size())); }
            for (size_t at = 0; at < b.size();) { ssize_t n = write(p[1], b.data() + at, b.size() - at); if (n <= 0) break; at += (size_t) n; } _exit(0);
        }
        ::close(p[1]); std::string b; char buf[4096]; for (;;) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) break; b.append(buf, (size_t) n); } ::close(p[0]); int st = 0; waitpid(pid, &st, 0);
        Out q; q.out.resize(calls.size()); q.ev.resize(calls.size(), Ev{0, 0}); if (b.empty() || st) { q.err = mc::strf("the process ends, status %x", st); return q; }
        size_t at = 0; q.err = unpack(b, at); q.fin = unpack(b, at); for (auto& x : q.out) x = unpack(b, at); std::string e = unpack(b, at); memcpy(q.ev.data(), e.data(), e.size());
        if (ex) { std::string c = unpack(b, at); ex->path.resize(c.size() / sizeof(sched::Choice)); memcpy((void*) ex->path.data(), c.data(), c.size()); c = unpack(b, at); memcpy(&ex->steps, c.data(), 8); c = unpack(b, at); ex->grown.clear(); for (size_t i = 0; i + 8 <= c.size(); i += 8) { uint64_t x; memcpy(&x, c.data() + i, 8); ex->grown.insert(x); } }
        return q;
    }
    Out exec(const Scenario& s, const World& base, const std::vector<int>* order, sched::Explorer* ex) { return fresh ? away(s, base, order, ex) : here(s, base, order, ex); }
    // runs a scenario; false when the run was cut short
    bool explore(const Scenario& s) {
        int n = (int) s.prog.size(); World base; sched::label(2ULL << 60); if (!fresh) open(base); calls.clear(); id.assign(n, {});
        for (int i = 0; i < n; i++) for (int j = 0; j < (int) s.prog[i].size(); j++) { id[i].push_back((int) calls.size()); calls.push_back({i, j}); }
        // every sequential order
        std::map<std::string, std::vector<std::vector<int>>> seq; std::vector<int> order, pos(n, 0);
        std::function<void()> gen = [&]() {
            if (order.size() == calls.size()) { Out q = exec(s, base, &order, nullptr); if (!q.err.empty()) { fprintf(stderr, "ERROR: sequential calls: %s\n", q.err.c_str()); abort(); } seq[all(q.out) + " | " + q.fin].push_back(order); r.transitions(order.size()); return; }
            for (int i = 0; i < n; i++) if (pos[i] < (int) s.prog[i].size()) { order.push_back(id[i][pos[i]]); pos[i]++; gen(); pos[i]--; order.pop_back(); }
        };
        gen();
        if (getenv("MC_CONC")) for (auto& q : seq) fprintf(stderr, "SEQ %s: %s\n", s.name.c_str(), q.first.c_str());
        sched::Explorer ex; ex.bound = bound; uint64_t k = 0; bool cut = false;
        do {
            Out q = exec(s, base, nullptr, &ex); r.transitions(ex.steps); r.traces(); k++; if (k % 256 == 0 || fresh) r.beat();
            if (!q.err.empty()) { if (q.err.compare(0, 7, "HARNESS") == 0) { fprintf(stderr, "%s\n", q.err.c_str()); abort(); } r.fail("%s: %s [schedule %s]", s.name.c_str(), q.err.c_str(), ex.schedule().c_str()); return true; }
            std::string o = all(q.out) + " | " + q.fin; r.state(mc::hash(s.name + o)); auto& ev = q.ev;
            auto it = seq.find(o); bool good = false;
            if (it != seq.end()) for (auto& ord : it->second) { bool fits = true; for (size_t a = 0; a < ord.size() && fits; a++) for (size_t b = a + 1; b < ord.size() && fits; b++) if (ev[ord[b]].e < ev[ord[a]].b) fits = false; if (fits) { good = true; break; } }
            if (!good) { std::string d; for (size_t c = 0; c < calls.size(); c++) d += mc::strf("thread %d %s -> %s; ", calls[c].first + 1, s.prog[calls[c].first][calls[c].second]->name.c_str(), q.out[c].c_str()); r.fail("%s: %sleft: %s: %s [schedule %s]", s.name.c_str(), d.c_str(), q.fin.c_str(), it == seq.end() ? "no order of the calls gives this" : "only an order that contradicts the order in time gives this", ex.schedule().c_str()); return true; }
            if (r.stop()) { cut = true; break; }
        } while (ex.next());
        if (!fresh) { std::string e = close(base); r.check(e.empty(), "%s: afterwards %s", s.name.c_str(), e.c_str()); }
        r.count("schedules", k); if (seq.size() > 1) r.count("order_matters");
        return !cut;
    }
    static std::string all(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + ";"; return o; }
};
