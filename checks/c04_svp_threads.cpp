// C04: concurrent protected-buffer calls are atomic and never deadlock.
#include "conc.hpp"
#include <algorithm>
using mc::strf;
#define T(desc) (!r.stop() && r.take("%s", std::string(desc).c_str()) && (r.nontrivial(mc::hash(r.current())), true))
static const size_t N = 64;
static std::string hx(const void* p, size_t n) { return mc::hex(p, n); }
static std::map<std::string, COp> OPS; static std::vector<std::string> ORDER;
static void def(const std::string& n, Fn f) { OPS[n] = {n, f}; ORDER.push_back(n); }
static uint8_t MEM[8][N]; // A B C D and one per thread
static uint8_t* mem(const std::string& n) { return MEM[n[0] - 'A']; }
static uint8_t* ownmem(int t) { return MEM[3 + t]; }
static sa_handle ownh(World& w, int t) { WObj* x = w.own(t, K_SVP); return x ? x->h : 77; }
static void need(sa_status s) { if (s) { fprintf(stderr, "ERROR: fixture: %s\n", sn(s)); abort(); } }
static void newh(std::string& o, World& w, sa_status s, sa_handle h, int t, Kind k) { put(o, w, s); if (!s) w.objs.push_back({"", t, k, h, true}); }
// the owner of released memory uses it for something else at once
static void scrub(uint8_t* m) { sched::use(m, N, true); memset(m, 0xEE, N); }
static void drop(World& w, WObj* x, std::string& o) {
    if (!x) { o += "none"; return; } std::string n = x->name; int ow = x->owner; Kind k = x->kind; void* m = nullptr; size_t sz = 0; sa_status s = k == K_SVP ? CALL(w.A, sa_svp_buffer_release, &m, &sz, x->h) : rel(w.A, k, x->h); put(o, w, s);
    if (s) { if (m || sz) o += " memory reported"; return; }
    if (k == K_SVP) { int i = (int) ((uint8_t*) m - MEM[0]); if (i < 0 || i % N || i >= (int) sizeof MEM) o += " other memory"; else { o += strf(" %d %zu", (int) (i / N), sz); scrub((uint8_t*) m); } }
    for (auto& y : w.objs) if (y.live && y.name == n && y.owner == ow && y.kind == k) { y.live = false; break; }
}
static sa_handle ctrinit(World& w, sa_handle k, sa_status& s) { static uint8_t ctr[16] = {0}; sa_cipher_parameters_aes_ctr p = {ctr, 16}; sa_handle h = INVALID_HANDLE; s = CALL(w.A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, &p); return h; }
static void process(World& w, sa_handle c, sa_buffer I, sa_buffer O, size_t n, bool last, std::string& o) { size_t m = n; sa_status s = last ? CALL(w.A, sa_crypto_cipher_process_last, &O, c, &I, &m, nullptr) : CALL(w.A, sa_crypto_cipher_process, &O, c, &I, &m); put(o, w, s); if (!s) o += strf(" %zu", m); }
static void cenc(World& w, sa_handle c, sa_buffer I, sa_buffer O, int t, std::string& o) { uint8_t iv[16] = {(uint8_t) (0x60 + t)}; sa_subsample_length l[2] = {{4, 16}, {3, 9}}; sa_sample p; memset(&p, 0, sizeof p); p.iv = iv; p.iv_length = 16; p.subsample_count = 2; p.subsample_lengths = l; p.context = c; p.out = &O; p.in = &I; put(o, w, CALL(w.A, sa_process_common_encryption, 1, &p)); }
static void check(World& w, sa_handle h, const Bytes& want, std::string& o) { Bytes d = ref_digest("SHA256", want); sa_status s = CALL(w.A, sa_svp_buffer_check, h, 0, want.size(), SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size()); if (s == SA_STATUS_VERIFICATION_FAILED) o += "differs"; else put(o, w, s); }
static Bytes initial(const std::string& n) { return pattern(N, 11 + n[0]); }
static void ops() {
    for (std::string b : {"A", "B", "C"}) {
        def("write-" + b, [b](World& w, int t, std::string& o) { Bytes in = pattern(32, 200 + t); sa_svp_offset of[2] = {{4, 0, 8}, {20, 8, 16}}; put(o, w, CALL(w.A, sa_svp_buffer_write, w.h(b), in.data(), in.size(), of, 2)); });
        def("fill-" + b, [b](World& w, int t, std::string& o) { Bytes in(N, (uint8_t) (0xA0 + t)); sa_svp_offset of[1] = {{0, 0, N}}; put(o, w, CALL(w.A, sa_svp_buffer_write, w.h(b), in.data(), in.size(), of, 1)); });
        def("check-" + b, [b](World& w, int, std::string& o) { check(w, w.h(b), initial(b), o); });
        def("keycheck-" + b, [b](World& w, int, std::string& o) { Bytes i = initial(b), e = ref_cipher("AES-128-ECB", false, pattern(16, 40), {}, Bytes(i.begin(), i.begin() + 16), false); sa_buffer I = sbuf(w.h(b)); sa_status s = CALL(w.A, sa_svp_key_check, w.h("k"), &I, 16, e.data(), 16); if (s == SA_STATUS_VERIFICATION_FAILED) o += "differs"; else put(o, w, s); });
        def("release-" + b, [b](World& w, int, std::string& o) { drop(w, w.find(b), o); });
        def("rotate-" + b, [b](World& w, int, std::string& o) { sa_svp_offset of[2] = {{0, 32, 16}, {16, 48, 16}}; put(o, w, CALL(w.A, sa_svp_buffer_copy, w.h(b), w.h(b), of, 2)); });
        for (std::string c : {"c", "d"}) {
            def("dec-" + b + c, [b, c](World& w, int t, std::string& o) { Bytes in = pattern(24, 300 + t); process(w, w.h(c), cbuf(in.data(), in.size()), sbuf(w.h(b), 8), 24, false, o); });
            def("last-" + b + c, [b, c](World& w, int t, std::string& o) { Bytes in = pattern(24, 300 + t); process(w, w.h(c), cbuf(in.data(), in.size()), sbuf(w.h(b), 8), 24, true, o); });
            def("cenc-" + b + c, [b, c](World& w, int t, std::string& o) { Bytes in = pattern(32, 300 + t); cenc(w, w.h(c), cbuf(in.data(), 32), sbuf(w.h(b)), t, o); });
        }
        for (std::string a : {"A", "B", "C"}) if (a != b) { // from a to b
            def("copy-" + a + b, [a, b](World& w, int, std::string& o) { sa_svp_offset of[2] = {{0, 0, 32}, {40, 32, 24}}; put(o, w, CALL(w.A, sa_svp_buffer_copy, w.h(b), w.h(a), of, 2)); });
            for (std::string c : {"c", "d"}) {
                def("dec-" + a + b + c, [a, b, c](World& w, int, std::string& o) { process(w, w.h(c), sbuf(w.h(a), 4), sbuf(w.h(b), 8), 24, false, o); });
                def("last-" + a + b + c, [a, b, c](World& w, int, std::string& o) { process(w, w.h(c), sbuf(w.h(a), 4), sbuf(w.h(b), 8), 24, true, o); });
                def("cenc-" + a + b + c, [a, b, c](World& w, int t, std::string& o) { cenc(w, w.h(c), sbuf(w.h(a)), sbuf(w.h(b)), t, o); });
            }
        }
    }
    def("create", [](World& w, int t, std::string& o) { scrub(ownmem(t)); sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_svp_buffer_create, &h, ownmem(t), N); newh(o, w, s, h, t, K_SVP); });
    def("write-own", [](World& w, int t, std::string& o) { Bytes in = pattern(32, 200 + t); sa_svp_offset of[1] = {{7, 1, 31}}; put(o, w, CALL(w.A, sa_svp_buffer_write, ownh(w, t), in.data(), in.size(), of, 1)); });
    def("check-own", [](World& w, int t, std::string& o) { check(w, ownh(w, t), Bytes(N, 0xEE), o); });
    def("copy-Aown", [](World& w, int t, std::string& o) { sa_svp_offset of[1] = {{0, 0, N}}; put(o, w, CALL(w.A, sa_svp_buffer_copy, ownh(w, t), w.h("A"), of, 1)); });
    def("copy-ownA", [](World& w, int t, std::string& o) { sa_svp_offset of[1] = {{0, 0, N}}; put(o, w, CALL(w.A, sa_svp_buffer_copy, w.h("A"), ownh(w, t), of, 1)); });
    def("release-own", [](World& w, int t, std::string& o) { drop(w, w.own(t, K_SVP), o); });
    for (std::string c : {"c", "d"}) {
        def("crelease-" + c, [c](World& w, int, std::string& o) { drop(w, w.find(c), o); });
        def("clear-" + c, [c](World& w, int t, std::string& o) { Bytes in = pattern(24, 400 + t), out(24); process(w, w.h(c), cbuf(in.data(), 24), cbuf(out.data(), 24), 24, false, o); o += hx(out.data(), 8); });
        def("cencclear-" + c, [c](World& w, int t, std::string& o) { Bytes in = pattern(32, 400 + t), out(32); cenc(w, w.h(c), cbuf(in.data(), 32), cbuf(out.data(), 32), t, o); o += hx(out.data(), 8); });
    }
    // contexts of a key whose output must stay protected, of an encrypting context, and of another algorithm
    def("cinit-strict", [](World& w, int t, std::string& o) { sa_status s; sa_handle h = ctrinit(w, w.h("s"), s); newh(o, w, s, h, t, K_CIPHER); });
    def("cinit-encrypt", [](World& w, int t, std::string& o) { static uint8_t ctr[16] = {0}; sa_cipher_parameters_aes_ctr p = {ctr, 16}; sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_ENCRYPT, w.h("k"), &p); newh(o, w, s, h, t, K_CIPHER); });
    def("cinit-cbc", [](World& w, int t, std::string& o) { static uint8_t iv[16] = {0}; sa_cipher_parameters_aes_cbc p = {iv, 16}; sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_MODE_DECRYPT, w.h("k"), &p); newh(o, w, s, h, t, K_CIPHER); });
    def("cinit-ecb", [](World& w, int t, std::string& o) { sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, w.h("k"), nullptr); newh(o, w, s, h, t, K_CIPHER); });
}
static std::function<void(World&)> opener(bool ta) { return [ta](World& w) { w.A = Api(); w.A.ta = ta; w.A.u = uuid_of(1); w.loose = true; if (ta && ta_sa_init(&w.A.c, &w.A.u)) { fprintf(stderr, "ERROR: no session\n"); abort(); } }; }
static std::string closer(World& w) {
    sa_handle k; need(mkkey(w.A, &k, Bytes(16, 1), rights_all())); std::string e; for (Kind q : {K_CIPHER, K_SVP}) { int n = slots_free(w.A, q, k); if (n != 256) e += strf("%d of 256 %s slots are free ", n, KINDN[q]); } rel(w.A, K_KEY, k);
    if (w.A.ta && ta_sa_close(w.A.c, &w.A.u)) e += "the session cannot be closed"; return e;
}
static void add(World& w, const char* name, Kind k, sa_handle h) { w.objs.push_back({name, 0, k, h, true}); }
static void setup(World& w) {
    sa_handle k, s, h; memset(MEM, 0, sizeof MEM);
    need(mkkey(w.A, &k, pattern(16, 40), rights_all())); add(w, "k", K_KEY, k);
    sa_rights st = rights_all(); SA_USAGE_BIT_CLEAR(st.usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL); need(mkkey(w.A, &s, pattern(16, 41), st)); add(w, "s", K_KEY, s);
    for (const char* n : {"A", "B", "C"}) { need(CALL(w.A, sa_svp_buffer_create, &h, mem(n), N)); add(w, n, K_SVP, h); Bytes i = initial(n); memcpy(mem(n), i.data(), N); }
    for (const char* n : {"d", "c"}) { sa_status q; h = ctrinit(w, k, q); need(q); add(w, n, K_CIPHER, h); }
}
static void finish(World& w, std::string& o) {
    std::stable_sort(w.objs.begin(), w.objs.end(), [](const WObj& a, const WObj& b) { return a.owner < b.owner; });
    o += strf("memory %016llx", (unsigned long long) mc::hash(MEM, sizeof MEM)); if (getenv("MC_CONC")) for (auto& m : MEM) { o += " "; o += hx(m, N); }
    for (auto& x : w.objs) if (x.live && x.kind == K_CIPHER) { o += strf(" %s%d:", x.name.c_str(), x.owner); uint8_t in[16] = {0}, out[16] = {0}; sa_buffer ib = cbuf(in, 16), ob = cbuf(out, 16); size_t n = 16; sa_status s = CALL(w.A, sa_crypto_cipher_process, &ob, x.h, &ib, &n); o += s ? sn(s) : hx(out, 4); }
    for (auto& x : w.objs) if (x.live && x.kind == K_SVP) { Bytes z{(uint8_t) 0x99}; sa_svp_offset of = {5, 0, 1}; sa_status s = CALL(w.A, sa_svp_buffer_write, x.h, z.data(), 1, &of, 1); if (s) o += strf(" %s%d is lost: %s", x.name.c_str(), x.owner, sn(s)); else { uint8_t* m = x.owner ? ownmem(x.owner) : mem(x.name); if (m[5] != 0x99) o += strf(" %s%d is another buffer", x.name.c_str(), x.owner); } }
    for (size_t i = w.objs.size(); i-- > 0;) if (w.objs[i].live) { auto& x = w.objs[i]; sa_status s = rel(w.A, x.kind, x.h); if (s) o += strf(" %s%d cannot be released: %s", x.name.c_str(), x.owner, sn(s)); }
}
static std::vector<const COp*> seq(const std::string& s) { std::vector<const COp*> v; size_t a = 0; while (a < s.size()) { size_t e = s.find(' ', a); if (e == std::string::npos) e = s.size(); auto it = OPS.find(s.substr(a, e - a)); if (it == OPS.end()) { fprintf(stderr, "no operation %s\n", s.c_str()); abort(); } v.push_back(&it->second); a = e + 1; } return v; }
static void scenario(mc::Run& r, bool ta, const std::vector<std::string>& progs, int bound) {
    Scenario s; s.name = ta ? "trusted" : "client"; for (auto& p : progs) { s.name += " [" + p + "]"; s.prog.push_back(seq(p)); } s.setup = setup; s.finish = finish; s.name += strf(" preemptions %d", bound);
    // while one release runs, a refused second one followed by a create gets another slot than a create after a finished release: which handle names the new buffer is not judged
    if (progs.size() > 2) { int rel = 0, mk = 0; for (auto& p : progs) { rel += p.find("release-A") == 0; mk += p.find("release-A create") == 0; } if (mk && rel > 1) return; }
    if (!T(s.name)) return; env::reset(); env::caller = uuid_of(1);
    Conc c{r, opener(ta), closer, bound}; if (!c.explore(s)) r.capped("schedules of the last scenario");
}
static void explore(mc::Run& r) {
    bool th = r.thorough;
    // every pair of calls over two buffers and two contexts
    static const std::vector<std::string> left = {"write-A", "fill-A", "check-A", "keycheck-A", "rotate-A", "copy-AB", "copy-BA", "dec-Ac", "last-Ac", "dec-ABc", "dec-BAc", "last-ABc", "last-BAc", "cenc-Ac", "cenc-ABc", "cenc-BAc", "clear-c", "cencclear-c", "crelease-c", "release-A", "release-B", "create"};
    std::vector<std::string> right = left; for (auto& n : {"dec-ABd", "dec-BAd", "last-ABd", "last-BAd", "cenc-ABd", "cenc-BAd", "dec-Ad", "cenc-Ad"}) right.push_back(n);
    for (int ta = 1; ta >= 0; ta--) for (size_t i = 0; i < left.size(); i++) for (size_t j = i; j < right.size(); j++) scenario(r, ta, {left[i], right[j]}, th ? 4 : ta ? 2 : 1);
    // a slot used again while a call that began before is about to use it
    static const std::vector<std::string> chains = {"release-A create", "release-A create write-own", "release-B create", "create release-own", "create copy-Aown", "create copy-ownA", "create check-own", "crelease-c cinit-strict", "crelease-c cinit-encrypt", "crelease-c cinit-cbc", "crelease-c cinit-ecb", "write-A check-A", "fill-A copy-AB", "copy-AB copy-BA", "dec-Ac dec-ABc", "cenc-ABc release-B", "copy-BA release-A"};
    static const std::vector<std::string> against = {"write-A", "check-A", "keycheck-A", "rotate-A", "copy-AB", "copy-BA", "dec-Ac", "last-Ac", "dec-ABc", "dec-BAc", "cenc-Ac", "cenc-ABc", "cenc-BAc", "cenc-ABd", "cenc-BAd", "clear-c", "cencclear-c", "release-A", "crelease-c"};
    for (auto& a : chains) for (auto& b : against) scenario(r, true, {a, b}, th ? 4 : 2);
    for (size_t i = 0; i < chains.size(); i++) for (size_t j = i; j < chains.size(); j++) scenario(r, true, {chains[i], chains[j]}, th ? 3 : 1);
    // three threads
    for (auto& p : std::vector<std::vector<std::string>>{{"copy-AB", "copy-BC", "copy-CA"}, {"copy-AB", "copy-BA", "release-A"}, {"copy-AB", "copy-BA", "write-A"}, {"cenc-ABc", "cenc-BAd", "copy-AB"}, {"dec-ABc", "copy-BC", "last-CAd"}, {"dec-ABc", "cenc-BAd", "release-B"}, {"write-A", "release-A", "check-A"}, {"write-A", "release-A create", "fill-A"}, {"release-A", "release-A", "release-A"}, {"cenc-Ac", "crelease-c cinit-strict", "copy-AB"}, {"cencclear-c", "crelease-c", "cinit-strict"}, {"create", "release-A", "copy-AB"}, {"fill-A", "copy-AB", "check-B"}, {"cenc-BAc", "cenc-CAd", "rotate-A"}}) scenario(r, true, p, th ? 3 : 2);
    if (th) { static const std::vector<std::string> three = {"write-A", "check-A", "copy-AB", "copy-BC", "copy-CA", "dec-ABc", "dec-BAd", "cenc-ABc", "cenc-BAd", "release-A", "release-A create", "crelease-c cinit-strict", "cencclear-c"}; for (size_t i = 0; i < three.size(); i++) for (size_t j = i; j < three.size(); j++) for (size_t k = j; k < three.size(); k++) scenario(r, true, {three[i], three[j], three[k]}, 2); }
}
int main(int argc, char** argv) {
    ops(); mc::Spec s; s.property = "C04";
    s.rule = "scenarios of two or three threads on one session over three shared protected buffers and two contexts: every pair of calls on the trusted and the client API, calls against sequences that release and reuse a slot, three-thread cycles; for each, every schedule up to the stated number of preemptions with a switch possible at every lock, one-time initialisation, wait and atomic operation of the code; a case is one scenario";
    s.assumptions = {"the code synchronises through C11 or POSIX mutexes, call_once, atomics and polling; memory accesses of the code, including those to protected memory and those made on its behalf by the crypto library's cipher and digest updates, are checked for data races in every schedule, so switching at synchronisation points is complete for race-free code", "two refusals count as the same outcome", "a common-encryption call of several samples counts as one call per sample", "sequential consistency"};
    env::crypto_alloc_hook(); s.setup = [](mc::Run&) { sah_setup(); }; s.explore = explore; s.quick_cap_s = 200; s.hang_s = 100;
    return mc::main(argc, argv, s);
}
