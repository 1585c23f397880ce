// C27: a request changed while it is served is served as it was at one moment, or refused.
#include "requests.hpp"
#include <signal.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <dlfcn.h>
// ---- shared memory of a request: every instruction that touches it is seen before it does
static unsigned copies, in_copy; // the call of memcpy that is running
typedef void* (*copy_fn)(void*, const void*, size_t); static copy_fn real_copy;
extern "C" __attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* d, const void* s, size_t n) {
    if (!real_copy) { for (size_t i = 0; i < n; i++) ((volatile uint8_t*) d)[i] = ((const volatile uint8_t*) s)[i]; return d; }
    unsigned was = in_copy; in_copy = ++copies; real_copy(d, s, n); in_copy = was; return d;
}
static const int PAGES = 4; struct Region { uint8_t *trusted, *client; size_t n; uint8_t *at, *calias; };
static Region R[4]; struct Access { int reg; size_t off, width; bool write; unsigned copy; }; static std::vector<Access> ACC; static bool armed; static int opened;
struct Change { int reg = -1; size_t off = 0; uint8_t val = 0; int before = -1; }; static Change CH; // before: index of the access it precedes
#define NOSAN __attribute__((no_sanitize("address")))
NOSAN static size_t width_of(const uint8_t* c) { // at least as much as the instruction can touch
    bool rex_w = false, p66 = false, f3 = false, f2 = false;
    for (;; c++) { if (*c == 0x66) p66 = true; else if (*c == 0xf3) f3 = true; else if (*c == 0xf2) f2 = true; else if (*c == 0x2e || *c == 0x3e || *c == 0x64 || *c == 0x65 || *c == 0x26 || *c == 0x36 || *c == 0xf0) continue; else if ((*c & 0xf0) == 0x40) { rex_w = *c & 8; } else break; }
    if (*c == 0x62) return 64; if (*c == 0xc5) return c[1] & 4 ? 32 : 16; if (*c == 0xc4) return c[2] & 4 ? 32 : 16;
    if (*c == 0xa4 || *c == 0xaa || *c == 0xac || *c == 0xa6 || *c == 0xae) return 1; // string instructions trap once per element
    if (*c == 0x88 || *c == 0x8a || *c == 0x80 || *c == 0x38 || *c == 0x3a || *c == 0x84 || *c == 0xc6 || *c == 0xf6 || *c == 0x30 || *c == 0x32 || *c == 0x02 || *c == 0x00 || *c == 0x22 || *c == 0x0a) return 1;
    if (*c == 0x0f) { uint8_t o = c[1]; if (o == 0xb6 || o == 0xbe) return 1; if (o == 0xb7 || o == 0xbf) return 2; if (o == 0x10 || o == 0x11) return f3 ? 4 : f2 ? 8 : 16; if (o == 0x6f || o == 0x7f) return p66 || f3 ? 16 : 8; if (o == 0x7e || o == 0xd6 || o == 0x13 || o == 0x12 || o == 0x16 || o == 0x17) return 8; if (o == 0x6e) return rex_w ? 8 : 4; if (o == 0xc8) return 8; return 16; }
    return rex_w ? 8 : p66 ? 2 : *c == 0x8b || *c == 0x89 || *c == 0x3b || *c == 0x39 || *c == 0x81 || *c == 0x83 || *c == 0xc7 || *c == 0x33 || *c == 0x31 || *c == 0x85 || *c == 0x0b || *c == 0x03 || *c == 0x63 ? 4 : 8;
}
static struct sigaction old_segv;
NOSAN static void protect(int i, int how) { syscall(SYS_mprotect, R[i].trusted, PAGES * 4096, how); }
NOSAN static void on_segv(int sig, siginfo_t* si, void* u) {
    ucontext_t* uc = (ucontext_t*) u; uint8_t* a = (uint8_t*) si->si_addr;
    if (armed) for (int i = 0; i < 4; i++) if (a >= R[i].trusted && a < R[i].trusted + PAGES * 4096 && !(opened & 1 << i)) {
        size_t w = width_of((const uint8_t*) uc->uc_mcontext.gregs[REG_RIP]); int idx = (int) ACC.size();
        if (CH.before == idx) R[CH.reg].calias[CH.off] = CH.val;
        if (ACC.size() < ACC.capacity()) ACC.push_back({i, (size_t) (a - R[i].at), w, (uc->uc_mcontext.gregs[REG_ERR] & 2) != 0, in_copy});
        opened |= 1 << i; protect(i, PROT_READ | PROT_WRITE); uc->uc_mcontext.gregs[REG_EFL] |= 0x100; return;
    }
    sigaction(sig, &old_segv, nullptr); // not ours: happens again and is reported
}
NOSAN static void on_trap(int, siginfo_t*, void* u) {
    ucontext_t* uc = (ucontext_t*) u; for (int i = 0; i < 4; i++) if (opened & 1 << i) protect(i, armed ? PROT_NONE : PROT_READ | PROT_WRITE);
    opened = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static bool one_copy(const std::vector<Access>& a, int from, int to) { return a[from].copy && a[from].copy == a[to].copy; } // both are of one copy, which decides nothing in between
static void regions() {
    real_copy = (copy_fn) dlsym(RTLD_NEXT, "memcpy");
    for (int i = 0; i < 4; i++) {
        int fd = (int) syscall(SYS_memfd_create, "shared", 0); if (ftruncate(fd, PAGES * 4096)) abort();
        uint8_t* area = (uint8_t*) mmap(nullptr, (PAGES + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        R[i].trusted = (uint8_t*) mmap(area + 4096, PAGES * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); R[i].client = (uint8_t*) mmap(nullptr, PAGES * 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
    ACC.reserve(1 << 20); struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = on_segv; s.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &s, &old_segv); s.sa_sigaction = on_trap; sigaction(SIGTRAP, &s, nullptr);
}
// ---- one request, watched
struct Outcome { sa_status s; Bytes p[4]; std::string rest; };
static const bool SHOW = getenv("MC_SHOW");
static std::string probe(bool random) {
    std::string o; Fix& f = *ST.f; ASAN_UNPOISON_MEMORY_REGION(SVPMEM, sizeof SVPMEM); if (!random) o += mc::hex(SVPMEM, 8 * 256) + "\n";
    for (sa_handle h = 0; h < 12; h++) { sa_header hd; Bytes id; if (f.describe(h, &hd, &id)) { o += strf("key %d ", (int) h) + mc::hex((uint8_t*) &hd, sizeof hd) + (random ? "" : mc::hex(id.data(), id.size())) + "\n"; } }
    for (sa_handle h = 0; h < 6; h++) for (int last = 0; last < 2; last++) { uint8_t in[32], out[64]; memset(in, 7, sizeof in); memset(out, 0, sizeof out); uint8_t tag[16] = {1}; sa_buffer bi, bo; memset(&bi, 0, sizeof bi); memset(&bo, 0, sizeof bo); bi.context.clear = {in, sizeof in, 0}; bo.context.clear = {out, sizeof out, 0}; size_t n = last ? 16 : 32; sa_cipher_end_parameters_aes_gcm e = {tag, 16};
        sa_status s = last ? sa_crypto_cipher_process_last(&bo, h, &bi, &n, nullptr) : sa_crypto_cipher_process(&bo, h, &bi, &n); if (last && s == SA_STATUS_NULL_PARAMETER) s = sa_crypto_cipher_process_last(&bo, h, &bi, &n, &e); if (s != SA_STATUS_INVALID_PARAMETER || n != (last ? 16 : 32)) o += strf("cipher %d %s %zu ", (int) h, sn(s), n) + (random ? "" : mc::hex(out, 64)) + "\n"; }
    for (sa_handle h = 0; h < 6; h++) { uint8_t m[64] = {}; size_t n = sizeof m; sa_status s = sa_crypto_mac_compute(m, &n, h); o += strf("mac %d %s ", (int) h, sn(s)) + mc::hex(m, n < 64 ? n : 64) + "\n"; }
    for (sa_handle h = 0; h < 6; h++) { void* m = nullptr; size_t n = 0; sa_status s = sa_svp_buffer_release(&m, &n, h); if (!s) o += strf("buffer %d at %zd of %zu\n", (int) h, (ssize_t) ((uint8_t*) m - SVPMEM), n); }
    return o;
}
static bool b_prov; // the structure holds pointers
static Outcome serve(const Base& b, const Change& c) { // c.before < 0: no change; 0 with before_all: from the start
    if (!prepare(b.op, b.k)) { fprintf(stderr, "ERROR: %s makes no request\n", b.name.c_str()); _Exit(99); }
    uint32_t types[4]; ta_param ps[4]; const Req& q = b.q;
    for (int i = 0; i < 4; i++) { types[i] = q.p[i].type; ps[i].mem_ref = nullptr; ps[i].mem_ref_size = q.p[i].size; R[i].n = q.p[i].data.size(); if (q.p[i].null) continue; size_t at = (PAGES * 4096 - R[i].n) & ~(size_t) (R[i].n % 8 ? 0 : 7); R[i].at = R[i].trusted + at; R[i].calias = R[i].client + at; memset(R[i].client, 0xa5, PAGES * 4096); if (types[i] != 6) memcpy(R[i].calias, (q.cmd == SA_KEY_PROVISION_TA && i == 1 ? cap : q).p[i].data.data(), R[i].n); ps[i].mem_ref = R[i].at; CH = c; }
    for (int i = 0; i < 4; i++) if (CH.reg == i) CH.off = c.off;
    if (CH.reg >= 0 && CH.before < 0) R[CH.reg].calias[CH.off] = CH.val; // from the start
    ACC.clear(); opened = 0; armed = true; for (int i = 0; i < 4; i++) if (!q.p[i].null) protect(i, PROT_NONE);
    Outcome o; o.s = env::real_command(session, q.cmd, types, ps); armed = false; for (int i = 0; i < 4; i++) protect(i, PROT_READ | PROT_WRITE);
    for (int i = 0; i < 4; i++) if (!q.p[i].null) o.p[i].assign(R[i].calias, R[i].calias + R[i].n);
    b_prov = q.cmd == SA_KEY_PROVISION_TA; o.rest = probe(b.op->random || b.name.find("generate") == 0 || b.name.find("dh") != std::string::npos); clean(); return o;
}
static std::string differ(const Outcome& a, const Outcome& b, const Change& c, bool random) {
    if (a.s != b.s) return strf("status %s and %s", sn(a.s), sn(b.s));
    for (int i = 0; i < 4; i++) { if (a.p[i].size() != b.p[i].size()) return "sizes"; if (random) continue; if (b_prov && i == 1) continue; for (size_t j = 0; j < a.p[i].size(); j++) if (a.p[i][j] != b.p[i][j] && !(c.reg == i && c.off == j)) return strf("parameter %d at %zu", i, j); }
    if (a.rest != b.rest) { size_t k = 0; while (k < a.rest.size() && k < b.rest.size() && a.rest[k] == b.rest[k]) k++; size_t l = a.rest.rfind('\n', k); return "what it leaves: " + a.rest.substr(l == std::string::npos ? 0 : l + 1, 40); }
    return "";
}
static bool container(const Base& b, int i) { return i == 1 && (b.q.cmd == SA_KEY_IMPORT || b.q.cmd == SA_KEY_UNWRAP || b.q.cmd == SA_KEY_EXCHANGE); }
static bool snapshot_of(const Base& b, int i) { return !b.q.p[i].null && b.q.p[i].type != 6 && (structured(b.q, i) || container(b, i) || (b.q.cmd == SA_PROCESS_COMMON_ENCRYPTION && i == 1)); }
struct Rec { bool done = false; std::vector<Access> a; Outcome o; }; static std::vector<Rec> REC;
static void record(mc::Run& r, size_t bi) {
    Rec& c = REC[bi]; if (c.done) return; c.done = true; const Base& b = BASES[bi]; c.o = serve(b, {}); c.a = ACC; r.transitions(); r.beat();
    if (SHOW) { std::string t; for (int i = 0; i < 4; i++) { std::map<size_t, int> n; for (auto& x : c.a) if (x.reg == i && !x.write) for (size_t k = 0; k < x.width; k++) n[x.off + k]++; int m = 0; size_t tw = 0; for (auto& e : n) if (e.first < b.q.p[i].data.size()) { if (e.second > m) m = e.second; tw += e.second > 1; } t += strf(" p%d(%zu):%zu/%d", i, b.q.p[i].data.size(), tw, m); } FILE* ff = fopen("/tmp/c27_show.txt", "a"); fprintf(ff, "%-30s %zu accesses %s %s\n", b.name.c_str(), c.a.size(), sn(c.o.s), t.c_str()); fclose(ff); }
}
static std::vector<uint8_t> values(uint8_t v, bool th) { std::vector<uint8_t> o; auto add = [&](uint8_t x) { if (x != v && std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); }; for (uint8_t x : {v ^ 1, v + 1, v - 1, v * 2, 0, 1, 2, 3, 5, 16, 127, 255}) add(x); if (th) for (int x = 0; x < 256; x++) add((uint8_t) x); return o; }
static void explore(mc::Run& r) {
    REC.resize(BASES.size());
    for (size_t bi = 0; bi < BASES.size(); bi++) {
        const Base& b = BASES[bi]; bool random = b.op->random || b.name.find("generate") == 0 || b.name.find("dh") != std::string::npos;
        if (r.take("%s: unchanged", b.name.c_str())) { record(r, bi); Outcome again = serve(b, {}); std::string d = differ(REC[bi].o, again, {}, random); if (!d.empty()) { fprintf(stderr, "ERROR: %s is not repeatable: %s\n", b.name.c_str(), d.c_str()); _Exit(99); } r.state(mc::hash(REC[bi].o.rest)); }
        for (int i = 0; i < 4; i++) if (snapshot_of(b, i)) for (size_t off = 0; off < b.q.p[i].data.size(); off++) {
            if (r.stop()) return;
            if (!r.take("%s: parameter %d byte %zu", b.name.c_str(), i, off)) continue;
            record(r, bi); Rec& c = REC[bi]; std::vector<int> reads; for (size_t k = 0; k < c.a.size(); k++) if (c.a[k].reg == i && c.a[k].off <= off && off < c.a[k].off + c.a[k].width && !c.a[k].write) reads.push_back((int) k);
            size_t separate = reads.size(); for (size_t g = 1; g < reads.size(); g++) separate -= one_copy(c.a, reads[g - 1], reads[g]); r.count(separate == 0 ? "bytes never read" : separate == 1 ? "bytes read once" : "bytes read more than once"); r.traces();
            if (separate < 2) continue; // one read: the outcome is that of the value read
            uint8_t v0 = b.q.p[i].data[off];
            for (uint8_t v : values(v0, r.thorough)) {
                bool have = false; Outcome changed;
                for (size_t g = 1; g < reads.size(); g++) {
                    if (one_copy(c.a, reads[g - 1], reads[g])) continue;
                    Change h; h.reg = i; h.off = off; h.val = v; h.before = reads[g]; Outcome o = serve(b, h); r.transitions(); r.beat(); r.nontrivial(mc::hash(r.current() + strf("%d %zu", v, g)));
                    r.state(mc::hash(o.rest + sn(o.s))); if (o.s != SA_STATUS_OK) { r.count("refused"); continue; }
                    if (differ(o, c.o, h, random).empty()) { r.count("as before the change"); continue; }
                    if (!have) { Change w = h; w.before = -1; changed = serve(b, w); have = true; r.transitions(); }
                    std::string d = differ(o, changed, h, random); if (d.empty()) { r.count("as after the change"); continue; }
                    r.fail("changed from %02x to %02x before access %d of %zu (read %zu of %zu): neither as before nor as after the change (%s): %s; %s", v0, v, reads[g], c.a.size(), g + 1, reads.size(), sn(changed.s), differ(o, c.o, h, random).c_str(), d.c_str()); return;
                }
            }
        }
    }
}
static void setup(mc::Run&) { requests_setup(); regions(); }
int main(int argc, char** argv) {
    mc::Spec s; s.property = "C27";
    s.rule = "for every request of the client library over the operation catalogue and every byte of its structures and key containers: the byte is changed between any two reads of it by the trusted side; every instruction that touches the shared memory is intercepted, so every point is reached; a case is one byte of one request";
    s.assumptions = {"one byte changes once while the request is served", "a byte read once cannot be seen with two values", "data that is only transformed (plaintext, ciphertext, messages) belongs to the client and may change"};
    s.setup = setup; s.explore = explore; s.hang_s = 30;
    return mc::main(argc, argv, s);
}
