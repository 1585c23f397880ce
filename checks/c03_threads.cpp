// C03: concurrent key, cipher and MAC calls behave as if executed one at a time.
#include "conc.hpp"
#include <algorithm>
using mc::strf;
#define T(desc) (!r.stop() && r.take("%s", std::string(desc).c_str()) && (r.nontrivial(mc::hash(r.current())), true))
static std::string hx(const void* p, size_t n) { return mc::hex(p, n < 12 ? n : 12); }
static void newh(std::string& o, World& w, sa_status s, sa_handle h, int t, Kind k) { put(o, w, s); if (!s) w.objs.push_back({"", t, k, h, true}); else if (h != INVALID_HANDLE) o += " handle set"; }
static void relh(std::string& o, World& w, WObj* x) { if (!x) { o += "none"; return; } std::string n = x->name; sa_handle h = x->h; Kind k = x->kind; int ow = x->owner; sa_status s = rel(w.A, k, h); put(o, w, s); if (!s) for (auto& y : w.objs) if (y.live && y.kind == k && y.h == h && y.name == n && y.owner == ow) { y.live = false; break; } }
static std::map<std::string, COp> OPS; static std::vector<std::string> ORDER;
static void def(const char* n, Fn f) { OPS[n] = {n, f}; ORDER.push_back(n); }
static sa_handle own(World& w, int t, Kind k) { WObj* x = w.own(t, k); return x ? x->h : 77; }
static void ops() {
    def("import", [](World& w, int t, std::string& o) { sa_handle h; sa_status s = mkkey(w.A, &h, Bytes(16, (uint8_t) (0x30 + t)), rights_all()); newh(o, w, s, h, t, K_KEY); });
    def("generate", [](World& w, int t, std::string& o) { sa_rights rt = rights_all(); sa_generate_parameters_symmetric p = {16}; sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_key_generate, &h, &rt, SA_KEY_TYPE_SYMMETRIC, &p); newh(o, w, s, h, t, K_KEY); });
    auto digest = [](World& w, sa_handle k, std::string& o) { uint8_t d[32] = {0}; size_t n = 32; sa_status s = CALL(w.A, sa_key_digest, d, &n, k, SA_DIGEST_ALGORITHM_SHA256); put(o, w, s); if (!s) o += " " + hx(d, 32); };
    def("digest-k", [=](World& w, int, std::string& o) { digest(w, w.h("k"), o); });
    def("digest-own", [=](World& w, int t, std::string& o) { digest(w, own(w, t, K_KEY), o); });
    def("header-k", [](World& w, int, std::string& o) { sa_header h; memset(&h, 0, sizeof h); sa_status s = CALL(w.A, sa_key_header, &h, w.h("k")); put(o, w, s); if (!s) o += strf(" %u %s", h.size, h.rights.id); });
    def("export-k", [](World& w, int, std::string& o) { uint8_t b[2048]; size_t n = sizeof b; uint8_t mix[16] = {1}; sa_status s = CALL(w.A, sa_key_export, b, &n, mix, 16, w.h("k")); put(o, w, s); if (!s) o += strf(" %zu", n); });
    def("release-k", [](World& w, int, std::string& o) { relh(o, w, w.find("k")); });
    def("release-own", [](World& w, int t, std::string& o) { relh(o, w, w.own(t, K_KEY)); });
    def("derive-k", [](World& w, int t, std::string& o) { sa_rights rt = rights_all(); uint8_t x[4] = {9}; sa_kdf_parameters_hkdf p = {16, SA_DIGEST_ALGORITHM_SHA1, w.h("k"), x, 4, x, 4}; sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_key_derive, &h, &rt, SA_KDF_ALGORITHM_HKDF, &p); newh(o, w, s, h, t, K_KEY); });
    def("unwrap-k", [](World& w, int t, std::string& o) { sa_rights rt = rights_all(); Bytes in(16, 7); sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_key_unwrap, &h, &rt, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, w.h("k"), in.data(), in.size()); newh(o, w, s, h, t, K_KEY); });
    auto init = [](World& w, sa_handle k, sa_handle* h) { sa_cipher_parameters_aes_ctr p; static uint8_t ctr[16] = {0}; p.ctr = ctr; p.ctr_length = 16; *h = INVALID_HANDLE; return CALL(w.A, sa_crypto_cipher_init, h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, &p); };
    def("cinit-k", [=](World& w, int t, std::string& o) { sa_handle h; sa_status s = init(w, w.h("k"), &h); newh(o, w, s, h, t, K_CIPHER); });
    auto proc = [](World& w, sa_handle c, std::string& o) { uint8_t in[6] = {1, 2, 3, 4, 5, 6}, out[6] = {0}; sa_buffer ib = cbuf(in, 6), ob = cbuf(out, 6); size_t n = 6; sa_status s = CALL(w.A, sa_crypto_cipher_process, &ob, c, &ib, &n); put(o, w, s); if (!s) o += strf(" %zu ", n) + hx(out, 6); };
    def("process-c", [=](World& w, int, std::string& o) { proc(w, w.h("c"), o); });
    def("process-own", [=](World& w, int t, std::string& o) { proc(w, own(w, t, K_CIPHER), o); });
    def("last-c", [](World& w, int, std::string& o) { uint8_t in[6] = {1, 2, 3, 4, 5, 6}, out[6] = {0}; sa_buffer ib = cbuf(in, 6), ob = cbuf(out, 6); size_t n = 6; sa_status s = CALL(w.A, sa_crypto_cipher_process_last, &ob, w.h("c"), &ib, &n, nullptr); put(o, w, s); if (!s) o += strf(" %zu ", n) + hx(out, 6); });
    def("iv-c", [](World& w, int t, std::string& o) { uint8_t iv[16] = {(uint8_t) (0x50 + t)}; put(o, w, CALL(w.A, sa_crypto_cipher_update_iv, w.h("c"), iv, 16)); });
    def("cenc-c", [](World& w, int t, std::string& o) { uint8_t in[20] = {1, 2}, out[20] = {0}, iv[16] = {(uint8_t) (0x60 + t)}; sa_subsample_length l = {4, 16}; sa_buffer ib = cbuf(in, 20), ob = cbuf(out, 20); sa_sample p; memset(&p, 0, sizeof p); p.iv = iv; p.iv_length = 16; p.subsample_count = 1; p.subsample_lengths = &l; p.context = w.h("c"); p.out = &ob; p.in = &ib; sa_status s = CALL(w.A, sa_process_common_encryption, 1, &p); put(o, w, s); if (!s) o += " " + hx(out + 4, 16); });
    def("crelease-c", [](World& w, int, std::string& o) { relh(o, w, w.find("c")); });
    def("crelease-own", [](World& w, int t, std::string& o) { relh(o, w, w.own(t, K_CIPHER)); });
    def("minit-k", [](World& w, int t, std::string& o) { sa_handle h = INVALID_HANDLE; sa_status s = CALL(w.A, sa_crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, w.h("k"), nullptr); newh(o, w, s, h, t, K_MAC); });
    def("update-m", [](World& w, int t, std::string& o) { uint8_t in[5] = {(uint8_t) t, 2, 3, 4, 5}; put(o, w, CALL(w.A, sa_crypto_mac_process, w.h("m"), in, 5)); });
    def("addkey-m", [](World& w, int, std::string& o) { put(o, w, CALL(w.A, sa_crypto_mac_process_key, w.h("m"), w.h("k"))); });
    auto compute = [](World& w, sa_handle m, std::string& o) { uint8_t d[64] = {0}; size_t n = 64; sa_status s = CALL(w.A, sa_crypto_mac_compute, d, &n, m); put(o, w, s); if (!s) o += strf(" %zu ", n) + hx(d, n); };
    def("compute-m", [=](World& w, int, std::string& o) { compute(w, w.h("m"), o); });
    def("compute-own", [=](World& w, int t, std::string& o) { compute(w, own(w, t, K_MAC), o); });
    def("mrelease-m", [](World& w, int, std::string& o) { relh(o, w, w.find("m")); });
    def("mrelease-own", [](World& w, int t, std::string& o) { relh(o, w, w.own(t, K_MAC)); });
    // CMAC context and an AEAD context (one call chain each)
    def("update-n", [](World& w, int t, std::string& o) { uint8_t in[17] = {(uint8_t) t}; put(o, w, CALL(w.A, sa_crypto_mac_process, w.h("n"), in, 17)); });
    def("compute-n", [=](World& w, int, std::string& o) { compute(w, w.h("n"), o); });
    def("process-g", [=](World& w, int, std::string& o) { proc(w, w.h("g"), o); });
    def("last-g", [](World& w, int, std::string& o) { uint8_t in[3] = {1, 2, 3}, out[3] = {0}, tag[16] = {0}; sa_buffer ib = cbuf(in, 3), ob = cbuf(out, 3); size_t n = 3; sa_cipher_end_parameters_aes_gcm e = {tag, 16}; sa_status s = CALL(w.A, sa_crypto_cipher_process_last, &ob, w.h("g"), &ib, &n, &e); put(o, w, s); if (!s) o += strf(" %zu ", n) + hx(out, 3) + hx(tag, 12); });
    def("crelease-g", [](World& w, int, std::string& o) { relh(o, w, w.find("g")); });
}
static std::function<void(World&)> opener(bool ta) { return [ta](World& w) { w.A = Api(); w.A.ta = ta; w.A.u = uuid_of(1); if (ta && ta_sa_init(&w.A.c, &w.A.u)) { fprintf(stderr, "ERROR: no session\n"); abort(); } }; }
static void need(sa_status s) { if (s) { fprintf(stderr, "ERROR: fixture: %s\n", sn(s)); abort(); } }
static std::string closer(World& w) {
    sa_handle k; need(mkkey(w.A, &k, Bytes(16, 1), rights_all())); std::string e; for (Kind q : {K_CIPHER, K_MAC}) { int n = slots_free(w.A, q, k); if (n != 256) e += strf("%d of 256 %s slots are free ", n, KINDN[q]); } rel(w.A, K_KEY, k); int n = slots_free(w.A, K_KEY, 0); if (n != 256) e += strf("%d of 256 key slots are free ", n);
    if (w.A.ta && ta_sa_close(w.A.c, &w.A.u)) e += "the session cannot be closed"; return e;
}
static void add(World& w, const char* name, Kind k, sa_handle h) { w.objs.push_back({name, 0, k, h, true}); }
static void setup(World& w) {
    sa_handle k, c, m; need(mkkey(w.A, &k, pattern(16, 40), rights_all())); add(w, "k", K_KEY, k);
    static uint8_t ctr[16] = {0}; sa_cipher_parameters_aes_ctr p = {ctr, 16}; need(CALL(w.A, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, &p)); add(w, "c", K_CIPHER, c);
    sa_mac_parameters_hmac q = {SA_DIGEST_ALGORITHM_SHA256}; need(CALL(w.A, sa_crypto_mac_init, &m, SA_MAC_ALGORITHM_HMAC, k, &q)); add(w, "m", K_MAC, m);
}
static void setup2(World& w) { setup(w); sa_handle k = w.h("k"), n, g; need(CALL(w.A, sa_crypto_mac_init, &n, SA_MAC_ALGORITHM_CMAC, k, nullptr)); add(w, "n", K_MAC, n); static uint8_t iv[12] = {3}; sa_cipher_parameters_aes_gcm p = {iv, 12, nullptr, 0}; need(CALL(w.A, sa_crypto_cipher_init, &g, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_MODE_ENCRYPT, k, &p)); add(w, "g", K_CIPHER, g); }
static void probe(World& w, const WObj& x, std::string& o) {
    if (x.kind == K_KEY) { uint8_t d[32]; size_t n = 32; sa_status s = CALL(w.A, sa_key_digest, d, &n, x.h, SA_DIGEST_ALGORITHM_SHA256); o += s ? sn(s) : hx(d, 4); }
    else if (x.kind == K_CIPHER) { uint8_t in[4] = {0}, out[4] = {0}; sa_buffer ib = cbuf(in, 4), ob = cbuf(out, 4); size_t n = 4; sa_status s = CALL(w.A, sa_crypto_cipher_process, &ob, x.h, &ib, &n); o += s ? sn(s) : hx(out, 4); }
    else { uint8_t d[64]; size_t n = 64; sa_status s = CALL(w.A, sa_crypto_mac_compute, d, &n, x.h); o += s ? sn(s) : hx(d, 4); }
}
// what is left: what the keys and contexts still alive give, and that each can be released once
static void finish(World& w, std::string& o) {
    std::stable_sort(w.objs.begin(), w.objs.end(), [](const WObj& a, const WObj& b) { return a.owner < b.owner; });
    for (auto& x : w.objs) if (x.live) { o += strf("%s%d:", x.name.c_str(), x.owner); probe(w, x, o); o += " "; }
    for (size_t i = w.objs.size(); i-- > 0;) if (w.objs[i].live) { sa_status s = rel(w.A, w.objs[i].kind, w.objs[i].h); if (s) o += strf("%s%d cannot be released: %s ", w.objs[i].name.c_str(), w.objs[i].owner, sn(s)); }
}
static std::vector<const COp*> seq(const std::string& s) { std::vector<const COp*> v; size_t a = 0; while (a < s.size()) { size_t e = s.find(' ', a); if (e == std::string::npos) e = s.size(); auto it = OPS.find(s.substr(a, e - a)); if (it == OPS.end()) { fprintf(stderr, "no operation %s\n", s.c_str()); abort(); } v.push_back(&it->second); a = e + 1; } return v; }
static void scenario(mc::Run& r, bool ta, const std::vector<std::string>& progs, int bound, const std::function<void(World&)>& set, const std::function<void(World&, std::string&)>& fin, const char* note = "") {
    Scenario s; s.name = strf("%s%s", ta ? "trusted" : "client", note); for (auto& p : progs) { s.name += " [" + p + "]"; s.prog.push_back(seq(p)); } s.setup = set; s.finish = fin; s.name += strf(" preemptions %d", bound);
    // a key made from k by a call that k's release overlaps may get k's handle: later uses of that handle are not judged
    bool mk = false, rel = false, use = false; for (auto& p : progs) { bool m = p.find("derive-k") != p.npos || p.find("unwrap-k") != p.npos; mk |= m; rel |= p.find("release-k") != p.npos; use |= !m && (p.find("release-k ") == 0 ? p.find("-k", 9) != p.npos : p.find("-k") != p.npos && p.find("release-k") == p.npos); } if (mk && rel && use) return;
    if (!T(s.name)) return; env::reset(); env::caller = uuid_of(1);
    Conc c{r, opener(ta), closer, bound}; if (!c.explore(s)) r.capped("schedules of the last scenario");
}
static void full(World& w, Kind kind, int left) { // fills the store up to `left` free slots
    int n = 256 - left - 1; sa_handle h; for (int i = 0; i < n; i++) { if (kind == K_KEY) need(mkkey(w.A, &h, Bytes(16, (uint8_t) i), rights_all())); else if (kind == K_MAC) need(CALL(w.A, sa_crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, w.h("k"), nullptr)); else need(CALL(w.A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, w.h("k"), nullptr)); w.objs.push_back({"filler", 0, kind, h, true}); }
}
static void explore(mc::Run& r) {
    bool th = r.thorough;
    static const std::vector<std::string> basic = {"import", "generate", "digest-k", "header-k", "export-k", "release-k", "derive-k", "unwrap-k", "cinit-k", "process-c", "last-c", "iv-c", "cenc-c", "crelease-c", "minit-k", "update-m", "addkey-m", "compute-m", "mrelease-m"};
    // every pair of calls
    for (int ta = 1; ta >= 0; ta--) for (size_t i = 0; i < basic.size(); i++) for (size_t j = i; j < basic.size(); j++) scenario(r, ta, {basic[i], basic[j]}, th ? 4 : ta ? 2 : 1, setup, finish);
    // sequences against sequences: use after release, slot reuse, continued contexts
    static const std::vector<std::string> chains = {"release-k import", "import release-own", "import digest-own", "digest-k release-k", "release-k digest-k", "derive-k release-own", "cinit-k release-k", "cinit-k process-own", "cinit-k crelease-own", "crelease-c cinit-k", "process-c process-c", "process-c last-c", "process-c crelease-c", "iv-c process-c", "cenc-c process-c", "minit-k compute-own", "mrelease-m minit-k", "update-m update-m", "update-m compute-m", "addkey-m mrelease-m", "compute-m mrelease-m"};
    for (size_t i = 0; i < chains.size(); i++) for (size_t j = i; j < chains.size(); j++) scenario(r, true, {chains[i], chains[j]}, th ? 3 : 1, setup, finish);
    if (th) for (size_t i = 0; i < chains.size(); i++) for (size_t j = i; j < chains.size(); j++) scenario(r, false, {chains[i], chains[j]}, 2, setup, finish);
    for (auto& a : {"update-n", "compute-n", "process-g", "last-g", "crelease-g", "process-g last-g", "update-n compute-n", "process-g process-g"}) for (auto& b : {"update-n", "compute-n", "update-n compute-n", "process-g", "last-g", "crelease-g", "process-g last-g"}) scenario(r, true, {a, b}, th ? 4 : 2, setup2, finish, " more");
    // three threads
    static const std::vector<std::string> three = {"import", "digest-k", "release-k", "release-k import", "import release-own", "cinit-k", "process-c", "crelease-c", "cinit-k crelease-own", "addkey-m", "compute-m", "mrelease-m"};
    for (size_t i = 0; i < three.size(); i++) for (size_t j = i; j < three.size(); j++) for (size_t k = j; k < three.size(); k++) scenario(r, true, {three[i], three[j], three[k]}, th ? 2 : 1, setup, finish);
    // full stores
    auto fin = [](World& w, std::string& o) { std::vector<WObj> v; for (auto& x : w.objs) { if (x.name == "filler") { sa_status s = rel(w.A, x.kind, x.h); if (s) o += strf("filler cannot be released: %s ", sn(s)); } else v.push_back(x); } w.objs = v; finish(w, o); };
    for (int left = 0; left <= (th ? 2 : 1); left++) {
        for (auto& p : std::vector<std::vector<std::string>>{{"import", "import"}, {"import", "release-k"}, {"import digest-own", "derive-k digest-own"}, {"release-k import", "import"}, {"import release-own", "import"}, {"import", "import", "release-k"}, {"import", "unwrap-k", "generate"}}) scenario(r, true, p, th ? 3 : p.size() > 2 ? 1 : 2, [left](World& w) { sa_handle k; need(mkkey(w.A, &k, pattern(16, 40), rights_all())); add(w, "k", K_KEY, k); full(w, K_KEY, left); }, fin, strf(" %d keys left", left).c_str());
        for (auto& p : std::vector<std::vector<std::string>>{{"cinit-k", "cinit-k"}, {"cinit-k", "crelease-c"}, {"crelease-c cinit-k", "cinit-k process-own"}, {"cinit-k crelease-own", "cinit-k"}}) scenario(r, true, p, th ? 3 : 2, [left](World& w) { setup(w); full(w, K_CIPHER, left); }, fin, strf(" %d ciphers left", left).c_str());
        for (auto& p : std::vector<std::vector<std::string>>{{"minit-k", "minit-k"}, {"minit-k", "mrelease-m"}, {"mrelease-m minit-k", "minit-k compute-own"}, {"minit-k mrelease-own", "minit-k"}}) scenario(r, true, p, th ? 3 : 2, [left](World& w) { setup(w); full(w, K_MAC, left); }, fin, strf(" %d MACs left", left).c_str());
    }
}
int main(int argc, char** argv) {
    ops(); mc::Spec s; s.property = "C03";
    s.rule = "scenarios of two or three threads on one session over a shared key, cipher and MAC, plus full stores: every pair of 19 calls on the trusted and the client API, pairs of two-call sequences, triples; for each, every schedule up to the stated number of preemptions with a switch possible at every lock, one-time initialisation, wait and atomic operation of the code; a case is one scenario";
    s.assumptions = {"the code synchronises through C11 or POSIX mutexes, call_once, atomics and polling; memory accesses of the code are checked for data races in every schedule, so switching at synchronisation points is complete for race-free code", "calls into the crypto library are indivisible and count as a write to the context they are given", "sequential consistency"};
    env::crypto_alloc_hook(); s.setup = [](mc::Run&) { sah_setup(); }; s.explore = explore; s.quick_cap_s = 200; s.hang_s = 100;
    return mc::main(argc, argv, s);
}
