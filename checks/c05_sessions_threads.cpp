// C05: opening, first use and closing of sessions are safe under concurrency.
#include "conc.hpp"
#include <algorithm>
#include <set>
using mc::strf;
#define T(desc) (!r.stop() && r.take("%s", std::string(desc).c_str()) && (r.nontrivial(mc::hash(r.current())), true))
static std::string hx(const void* p, size_t n) { return mc::hex(p, n); }
static std::map<std::string, COp> OPS;
static void def(const std::string& n, Fn f) { OPS[n] = {n, f}; }
static void need(sa_status s) { if (s) { fprintf(stderr, "ERROR: fixture: %s\n", sn(s)); abort(); } }
static Api* sess(World& w, const std::string& n) { auto it = w.sess.find(n); return it == w.sess.end() ? nullptr : &it->second; }
static std::set<std::string> CLOSING; // sessions a close of which has begun
static std::string own(int t) { return strf("own%d", t); }
static sa_uuid uu(int t) { return uuid_of(t % 2 ? 1 : 2); }
static void st(std::string& o, sa_status s) { o += s ? "refused " : "OK "; }
static void dig(Api& A, sa_handle k, std::string& o) { uint8_t d[32] = {0}; size_t n = 32; sa_status s = CALL(A, sa_key_digest, d, &n, k, SA_DIGEST_ALGORITHM_SHA256); st(o, s); if (!s) o += hx(d, 4) + " "; }
// a session works: a key made in it can be used and released. These are several calls: a close may come in between, and then the rest is refused
static void whole(std::string& o, const std::string& q) { o += q.find("refused") == std::string::npos ? q : "refused "; }
static void probe_(Api& A, int v, std::string& o) { sa_handle k; sa_status s = mkkey(A, &k, Bytes(16, (uint8_t) (0x70 + v)), rights_all()); st(o, s); if (s) return; dig(A, k, o); st(o, rel(A, K_KEY, k)); }
static void probe(Api& A, int v, std::string& o) { std::string q; probe_(A, v, q); whole(o, q); }
static void ladder_(Api& A, bool common, int v, std::string& o) {
    uint8_t c[4][16]; for (int i = 0; i < 4; i++) memset(c[i], v + i, 16); sa_rights rt = rights_all(); sa_kdf_parameters_root_key_ladder q = {c[0], 16, c[1], 16, c[2], 16, c[3], 16}; sa_handle k = INVALID_HANDLE;
    sa_status s = CALL(A, sa_key_derive, &k, &rt, common ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &q); st(o, s); if (!s) { dig(A, k, o); st(o, rel(A, K_KEY, k)); }
}
static void ladder(Api& A, bool common, int v, std::string& o) { std::string q; ladder_(A, common, v, q); whole(o, q); }
static Api client() { Api a; a.ta = false; a.u = uuid_of(1); return a; }
static void ops() {
    def("open", [](World& w, int t, std::string& o) { Api a; a.ta = true; a.u = uu(t); sa_status s = ta_sa_init(&a.c, &a.u); o += sn(s); if (!s) { for (auto& x : w.sess) if (x.second.c == a.c && x.first.size() != 2 && !CLOSING.count(x.first)) o += " same session as " + x.first; w.sess[own(t)] = a; } });
    def("use", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (a) { Api b = *a; probe(b, t, o); } else o += "refused "; });
    def("keep", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (!a) { o += "refused "; return; } Api b = *a; sa_handle k; st(o, mkkey(b, &k, Bytes(16, (uint8_t) t), rights_all())); });
    def("close", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (!a) { o += "refused "; return; } Api b = *a; w.sess.erase(own(t)); st(o, ta_sa_close(b.c, &b.u)); });
    def("ladder", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (a) { Api b = *a; ladder(b, false, 5, o); } else o += "refused "; });
    def("common", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (a) { Api b = *a; ladder(b, true, 5, o); } else o += "refused "; });
    def("device", [](World& w, int t, std::string& o) { Api* a = sess(w, own(t)); if (!a) { o += "refused 0"; return; } Api b = *a; uint64_t id = 0; sa_status s = CALL(b, sa_get_device_id, &id); st(o, s); o += strf("%llx", (unsigned long long) id); });
    // the client API, whose session opens by itself
    def("client", [](World& w, int t, std::string& o) { Api a = client(); probe(a, t, o); });
    def("client-keep", [](World& w, int t, std::string& o) { Api a = client(); sa_handle k; sa_status s = mkkey(a, &k, Bytes(16, (uint8_t) (0x20 + t)), rights_all()); st(o, s); if (!s) w.objs.push_back({"", t, K_KEY, k, true}); });
    def("client-version", [](World& w, int, std::string& o) { Api a = client(); sa_version v; memset(&v, 0, sizeof v); sa_status s = CALL(a, sa_get_version, &v); st(o, s); o += strf("%u.%u", (unsigned) v.specification_major, (unsigned) v.specification_minor); });
    def("client-device", [](World& w, int, std::string& o) { Api a = client(); uint64_t id = 0; sa_status s = CALL(a, sa_get_device_id, &id); st(o, s); o += strf("%llx", (unsigned long long) id); });
    def("client-ladder", [](World& w, int, std::string& o) { Api a = client(); ladder(a, false, 5, o); });
    def("client-common", [](World& w, int, std::string& o) { Api a = client(); ladder(a, true, 5, o); });
    // the shared session S, and R of another caller
    for (std::string S : {"S", "R"}) {
        auto at = [S](World& w) { auto it = w.sess.find(S + "0"); return it->second; }; // its handle, also once it is closed
        def("digest-" + S, [=](World& w, int, std::string& o) { Api a = at(w); dig(a, w.h("k" + S), o); });
        def("import-" + S, [=](World& w, int t, std::string& o) { Api a = at(w); sa_handle k; st(o, mkkey(a, &k, Bytes(16, (uint8_t) (0x30 + t)), rights_all())); });
        def("probe-" + S, [=](World& w, int t, std::string& o) { Api a = at(w); probe(a, t, o); });
        def("derive-" + S, [=](World& w, int, std::string& o) { Api a = at(w); sa_rights rt = rights_all(); uint8_t x[4] = {9}; sa_kdf_parameters_hkdf p = {16, SA_DIGEST_ALGORITHM_SHA1, w.h("k" + S), x, 4, x, 4}; sa_handle h = INVALID_HANDLE; st(o, CALL(a, sa_key_derive, &h, &rt, SA_KDF_ALGORITHM_HKDF, &p)); });
        def("process-" + S, [=](World& w, int, std::string& o) { Api a = at(w); uint8_t in[6] = {1, 2, 3}, out[6] = {0}; sa_buffer ib = cbuf(in, 6), ob = cbuf(out, 6); size_t n = 6; sa_status s = CALL(a, sa_crypto_cipher_process, &ob, w.h("c" + S), &ib, &n); st(o, s); if (!s) o += hx(out, 6); });
        def("cenc-" + S, [=](World& w, int t, std::string& o) { Api a = at(w); uint8_t in[20] = {1, 2}, out[20] = {0}, iv[16] = {(uint8_t) (0x60 + t)}; sa_subsample_length l = {4, 16}; sa_buffer ib = cbuf(in, 20), ob = cbuf(out, 20); sa_sample p; memset(&p, 0, sizeof p); p.iv = iv; p.iv_length = 16; p.subsample_count = 1; p.subsample_lengths = &l; p.context = w.h("c" + S); p.out = &ob; p.in = &ib; sa_status s = CALL(a, sa_process_common_encryption, 1, &p); st(o, s); if (!s) o += hx(out, 20); });
        def("compute-" + S, [=](World& w, int, std::string& o) { Api a = at(w); uint8_t d[16] = {0}; size_t n = 16; sa_status s = CALL(a, sa_crypto_mac_compute, d, &n, w.h("m" + S)); st(o, s); if (!s) o += hx(d, 4); });
        def("write-" + S, [=](World& w, int t, std::string& o) { Api a = at(w); uint8_t z = (uint8_t) t; sa_svp_offset of = {3, 0, 1}; st(o, CALL(a, sa_svp_buffer_write, w.h("b" + S), &z, 1, &of, 1)); });
        def("drop-" + S, [=](World& w, int, std::string& o) { Api a = at(w); st(o, rel(a, K_KEY, w.h("k" + S))); });
        def("bdrop-" + S, [=](World& w, int, std::string& o) { Api a = at(w); void* m = nullptr; size_t n = 0; st(o, CALL(a, sa_svp_buffer_release, &m, &n, w.h("b" + S))); });
        def("close-" + S, [=](World& w, int t, std::string& o) { Api a = at(w); CLOSING.insert(S); sa_status s = ta_sa_close(a.c, &a.u); st(o, s); if (!s) for (auto& x : w.sess) if (x.second.c == a.c && x.first != S + "0") { w.sess.erase(x.first); break; } });
        def("foreign-" + S, [=](World& w, int, std::string& o) { Api a = at(w); a.u = uuid_of(7); dig(a, w.h("k" + S), o); });
        def("fclose-" + S, [=](World& w, int, std::string& o) { Api a = at(w); sa_uuid u = uuid_of(7); st(o, ta_sa_close(a.c, &u)); });
    }
}
static uint8_t MEMS[2][16];
static void add(World& w, const std::string& name, Kind k, sa_handle h) { w.objs.push_back({name, 0, k, h, true}); }
static void setup(World& w) {
    CLOSING.clear();
    for (int i = 0; i < 2; i++) {
        std::string S = i ? "R" : "S"; Api a; a.ta = true; a.u = uuid_of(i ? 2 : 1); need(ta_sa_init(&a.c, &a.u)); w.sess[S] = a; w.sess[S + "0"] = a; sa_handle k, h;
        need(mkkey(a, &k, pattern(16, 40 + i), rights_all())); add(w, "k" + S, K_KEY, k);
        static uint8_t ctr[16] = {0}; sa_cipher_parameters_aes_ctr p = {ctr, 16}; need(CALL(a, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, &p)); add(w, "c" + S, K_CIPHER, h);
        need(CALL(a, sa_crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, k, nullptr)); add(w, "m" + S, K_MAC, h);
        memset(MEMS[i], 0, 16); need(CALL(a, sa_svp_buffer_create, &h, MEMS[i], 16)); add(w, "b" + S, K_SVP, h);
    }
}
// what is left: every session that should be open works, its objects are there, and it closes
static void finish(World& w, std::string& o) {
    w.sess.erase("S0"); w.sess.erase("R0");
    for (auto& x : w.sess) { o += x.first + ":"; probe(x.second, 9, o); if (x.first == "S" || x.first == "R") { dig(x.second, w.h("k" + x.first), o); uint8_t d[16]; size_t n = 16; sa_status s = CALL(x.second, sa_crypto_mac_compute, d, &n, w.h("m" + x.first)); st(o, s); uint8_t z = 9; sa_svp_offset of = {3, 0, 1}; st(o, CALL(x.second, sa_svp_buffer_write, w.h("b" + x.first), &z, 1, &of, 1)); } }
    std::stable_sort(w.objs.begin(), w.objs.end(), [](const WObj& a, const WObj& b) { return a.owner < b.owner; });
    for (auto& x : w.objs) if (x.owner) { Api a = client(); o += strf("client%d:", x.owner); dig(a, x.h, o); st(o, rel(a, K_KEY, x.h)); }
    for (auto& x : w.sess) { sa_status s = ta_sa_close(x.second.c, &x.second.u); if (s) o += x.first + " cannot be closed "; }
}
static int sessions_free() { std::vector<ta_client> v; sa_uuid u = uuid_of(1); for (int i = 0; i < 300; i++) { ta_client c; if (ta_sa_init(&c, &u)) break; v.push_back(c); } int n = (int) v.size(); for (auto c : v) if (ta_sa_close(c, &u)) n = -1; return n; }
static std::vector<const COp*> seq(const std::string& s) { std::vector<const COp*> v; size_t a = 0; while (a < s.size()) { size_t e = s.find(' ', a); if (e == std::string::npos) e = s.size(); auto it = OPS.find(s.substr(a, e - a)); if (it == OPS.end()) { fprintf(stderr, "no operation %s\n", s.c_str()); abort(); } v.push_back(&it->second); a = e + 1; } return v; }
static void scenario(mc::Run& r, bool fresh, const std::vector<std::string>& progs, int bound) {
    Scenario s; s.name = fresh ? "fresh process" : "sessions open"; bool cl = true; for (auto& p : progs) { s.name += " [" + p + "]"; s.prog.push_back(seq(p)); cl &= p == "client-keep" || p == "client-version"; } s.setup = fresh ? [](World&) {} : setup; s.finish = finish; s.name += strf(" preemptions %d", bound);
    if (!T(s.name)) return; env::reset(); env::caller = uuid_of(1);
    if (fresh) { Conc c{r, [](World&) {}, [cl](World&) { return cl ? strf("%d sessions free", sessions_free()) : std::string(); }, bound}; c.fresh = true; if (!c.explore(s)) r.capped("schedules of the last scenario"); return; }
    static int before = -1; if (before < 0) { Api a = client(); std::string o; sched::clear(); sched::begin_sequential(); probe(a, 1, o); before = sessions_free(); /* the client API holds one for good */ if (before < 250) { r.fail("%d sessions can be opened", before); return; } }
    int b = before; Conc c{r, [](World&) {}, [b](World&) { int n = sessions_free(); return n == b ? std::string() : strf("%d of %d sessions are free", n, b); }, bound}; if (!c.explore(s)) r.capped("schedules of the last scenario");
}
static void explore(mc::Run& r) {
    bool th = r.thorough;
    // the first calls of a process (each execution is a process of its own; none runs calls of the code before)
    static const std::vector<std::string> first = {"open", "open use", "open use close", "open keep close", "open device", "client", "client-keep", "client-version", "client-device"};
    static const std::vector<std::string> few = {"open use close", "open keep", "client-keep", "client-version", "client-device"}; auto& fv = th ? first : few;
    for (size_t i = 0; i < fv.size(); i++) for (size_t j = i; j < fv.size(); j++) scenario(r, true, {fv[i], fv[j]}, th ? 2 : 1);
    static const std::vector<std::string> keys = {"open ladder", "open common", "open device", "client-ladder", "client-common", "client-device"};
    if (!th) for (auto& p : std::vector<std::vector<std::string>>{{"open ladder", "open ladder"}, {"open common", "open common"}, {"open ladder", "open common"}, {"client-ladder", "client-device"}, {"client-common", "open ladder"}, {"open device", "open device"}}) scenario(r, true, p, 1);
    else for (size_t i = 0; i < keys.size(); i++) for (size_t j = i; j < keys.size(); j++) scenario(r, true, {keys[i], keys[j]}, th ? 2 : 1);
    for (auto& p : std::vector<std::vector<std::string>>{{"open", "open", "open"}, {"open", "client-version", "open close"}, {"client-version", "client-version", "client-version"}}) scenario(r, true, p, th ? 2 : 1);
    if (th) scenario(r, true, {"client-keep", "client-keep", "client-keep"}, 1);
    // with sessions open
    static const std::vector<std::string> use = {"digest-S", "import-S", "derive-S", "process-S", "cenc-S", "compute-S", "write-S", "drop-S", "bdrop-S", "foreign-S", "fclose-S", "digest-R", "probe-R", "close-R", "open use close", "open keep", "client"};
    static const std::vector<std::string> shut = {"close-S", "close-S open", "close-S open keep", "import-S close-S", "open close-S", "open keep close"};
    for (auto& a : shut) for (auto& b : use) scenario(r, false, {a, b}, th ? 4 : 2);
    for (size_t i = 0; i < shut.size(); i++) for (size_t j = i; j < shut.size(); j++) scenario(r, false, {shut[i], shut[j]}, th ? 4 : 2);
    for (auto& a : {"open use close", "open keep close", "open keep", "open close open use"}) for (auto& b : {"open use close", "open keep close", "probe-S", "client"}) scenario(r, false, {a, b}, th ? 3 : 2);
    static const std::vector<std::string> three = {"close-S", "digest-S", "process-S", "import-S", "open keep", "close-R", "drop-S"};
    for (size_t i = 0; i < three.size(); i++) for (size_t j = i; j < three.size(); j++) for (size_t k = j; k < three.size(); k++) if (th || three[i] == "close-S") scenario(r, false, {three[i], three[j], three[k]}, th ? 2 : 1);
}
// the crypto library (not the code) is warm, which keeps the processes of the first part cheap
static void warm() { Bytes k(16, 1), iv(16, 2), in(16, 3); for (auto& d : {"SHA1", "SHA256"}) { ref_digest(d, in); ref_hmac(d, k, in); } for (auto& c : {"AES-128-ECB", "AES-128-CBC", "AES-128-CTR"}) for (bool e : {true, false}) ref_cipher(c, e, k, iv, in, false); }
int main(int argc, char** argv) {
    ops(); mc::Spec s; s.property = "C05";
    s.rule = "scenarios of two or three threads that open, use and close sessions: the first calls of a process (every execution in a process of its own), and calls racing the close of their own session, slot reuse by a new session of the same or another caller, and neighbouring sessions; for each, every schedule up to the stated number of preemptions with a switch possible at every lock, one-time initialisation, wait and atomic operation of the code; a case is one scenario";
    s.assumptions = {"the code synchronises through C11 or POSIX mutexes, call_once, atomics and polling; memory accesses of the code are checked for data races in every schedule, so switching at synchronisation points is complete for race-free code", "two refusals count as the same outcome", "the crypto library initialises itself safely", "threads have ended before the process exits", "sequential consistency"};
    env::crypto_alloc_hook(); s.setup = [](mc::Run&) { sah_setup(); warm(); }; s.explore = explore; s.quick_cap_s = 200; s.hang_s = 100;
    return mc::main(argc, argv, s);
}
