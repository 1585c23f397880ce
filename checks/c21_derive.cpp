// C21: key derivation functions and key ladders against independent implementations of their specifications.
#include "anykey.hpp"
#include "gates.hpp"
#include <openssl/kdf.h>
using namespace mc;
enum { HKDF_, CONCAT_, X963_, CMACK, NETFLIX_, LADDER_, COMMON_ };
static const char* KN[] = {"hkdf", "concat", "x963", "cmac", "netflix", "ladder", "common-ladder"};
struct In { int alg; size_t len; int digest; Bytes parent, parent2, salt, info; bool null_salt = false, null_info = false; int counter = 1; Bytes c[4]; };
static Bytes expected(const In& d) {
    Bytes o; const char* dn = d.digest >= 0 && d.digest < 4 ? dname(d.digest) : "SHA1";
    auto ctr = [](uint32_t i) { return Bytes{(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i}; };
    switch (d.alg) {
        case HKDF_: { // RFC 5869, with the library's own implementation
            EVP_KDF* k = EVP_KDF_fetch(nullptr, "HKDF", nullptr); EVP_KDF_CTX* x = EVP_KDF_CTX_new(k); o.resize(d.len); static uint8_t z;
            OSSL_PARAM p[] = {OSSL_PARAM_construct_utf8_string("digest", (char*) dn, 0), OSSL_PARAM_construct_octet_string("key", (void*) d.parent.data(), d.parent.size()), OSSL_PARAM_construct_octet_string("salt", d.salt.empty() ? &z : (void*) d.salt.data(), d.salt.size()), OSSL_PARAM_construct_octet_string("info", d.info.empty() ? &z : (void*) d.info.data(), d.info.size()), OSSL_PARAM_construct_end()};
            if (EVP_KDF_derive(x, o.data(), d.len, p) != 1) { fprintf(stderr, "hkdf\n"); abort(); } EVP_KDF_CTX_free(x); EVP_KDF_free(k); break; }
        case CONCAT_: for (uint32_t i = 1; o.size() < d.len; i++) { Bytes h = ref_digest(dn, cat({ctr(i), d.parent, d.info})); o.insert(o.end(), h.begin(), h.end()); } break;
        case X963_: for (uint32_t i = 1; o.size() < d.len; i++) { Bytes h = ref_digest(dn, cat({d.parent, ctr(i), d.info})); o.insert(o.end(), h.begin(), h.end()); } break;
        case CMACK: for (int i = d.counter; o.size() < d.len; i++) { Bytes h = ref_cmac(d.parent, cat({Bytes{(uint8_t) i}, d.info})); o.insert(o.end(), h.begin(), h.end()); } break;
        case NETFLIX_: { static const uint8_t salt[] = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69}, info[] = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
            o = ref_hmac("SHA256", ref_hmac("SHA256", Bytes(salt, salt + 16), cat({d.parent, d.parent2})), Bytes(info, info + 16)); break; }
        default: o = ecb_dec(ladder3(d.alg == COMMON_, d.c[0], d.c[1], d.c[2]), d.c[3]);
    }
    o.resize(d.len); return o;
}
struct Parents { Api& A; std::map<Bytes, sa_handle> m; explicit Parents(Api& a) : A(a) {} sa_handle get(const Bytes& b) { auto it = m.find(b); if (it != m.end()) return it->second; sa_handle h; mkkey(A, &h, b, rights_all()); return m[b] = h; } ~Parents() { for (auto& e : m) rel(A, K_KEY, e.second); } };
static sa_status derive(Parents& P, const In& d, const sa_rights& r, sa_handle* k) {
    Api& A = P.A; *k = 12345; Blk salt(d.salt), info(d.info), c1(d.c[0]), c2(d.c[1]), c3(d.c[2]), c4(d.c[3]); auto dg = (sa_digest_algorithm) d.digest;
    void *sp = d.null_salt ? nullptr : salt.p, *ip = d.null_info ? nullptr : info.p; sa_handle p = d.alg < LADDER_ ? P.get(d.parent) : 0;
    switch (d.alg) {
        case HKDF_: { sa_kdf_parameters_hkdf q = {d.len, dg, p, sp, salt.n, ip, info.n}; return CALL(A, sa_key_derive, k, &r, SA_KDF_ALGORITHM_HKDF, &q); }
        case CONCAT_: { sa_kdf_parameters_concat q = {d.len, dg, p, ip, info.n}; return CALL(A, sa_key_derive, k, &r, SA_KDF_ALGORITHM_CONCAT, &q); }
        case X963_: { sa_kdf_parameters_ansi_x963 q = {d.len, dg, p, ip, info.n}; return CALL(A, sa_key_derive, k, &r, SA_KDF_ALGORITHM_ANSI_X963, &q); }
        case CMACK: { sa_kdf_parameters_cmac q = {d.len, p, ip, info.n, (uint8_t) d.counter}; return CALL(A, sa_key_derive, k, &r, SA_KDF_ALGORITHM_CMAC, &q); }
        case NETFLIX_: { sa_kdf_parameters_netflix q = {p, P.get(d.parent2)}; return CALL(A, sa_key_derive, k, &r, SA_KDF_ALGORITHM_NETFLIX, &q); }
        default: { sa_kdf_parameters_root_key_ladder q = {c1.p, c1.n, c2.p, c2.n, c3.p, c3.n, c4.p, c4.n}; return CALL(A, sa_key_derive, k, &r, d.alg == COMMON_ ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &q); }
    }
}
static bool excluded(const In& d) {
    if (d.alg <= X963_ && (d.digest < 0 || d.digest > 3)) return true;
    if (d.alg <= X963_ && (d.len < 16 || d.len > 512)) return true;
    if (d.null_salt && !d.salt.empty()) return true;
    if (d.null_info && !d.info.empty()) return true;
    if (d.alg == CMACK) return d.counter < 1 || d.counter > 4 || d.len == 0 || d.len % 16 || d.len / 16 > (size_t) (5 - d.counter) || (d.parent.size() != 16 && d.parent.size() != 32);
    if (d.alg == NETFLIX_) return d.parent.size() != 16 || d.parent2.size() != 32;
    if (d.alg >= LADDER_) for (auto& c : d.c) if (c.size() != 16) return true;
    return false;
}
static std::string desc(const In& d) { return strf("%s: %zu bytes, digest %d, parent %zu, salt %zu%s, info %zu%s, counter %d", KN[d.alg], d.len, d.digest, d.parent.size(), d.salt.size(), d.null_salt ? " (null)" : "", d.info.size(), d.null_info ? " (null)" : "", d.counter); }
static bool one(Run& r, Parents& P, const In& d) {
    sa_rights rt = rights_all(); strcpy(rt.id, "derived"); sa_handle k; sa_status s = derive(P, d, rt, &k); r.transitions(); r.beat();
    if (excluded(d)) { if (s == SA_STATUS_OK) { rel(P.A, K_KEY, k); return r.check(false, "%s: accepted", desc(d).c_str()); } return r.check(k == INVALID_HANDLE || k == 12345, "%s: %s but a handle", desc(d).c_str(), sn(s)); }
    if (!r.check(s == SA_STATUS_OK, "%s: %s", desc(d).c_str(), sn(s))) return false;
    AnyKey w; w.type = SA_KEY_TYPE_SYMMETRIC; w.size = d.len; w.material = expected(d);
    std::string e = ak_is(P.A, k, w, rt, false); rel(P.A, K_KEY, k); r.state(hash(w.material.data(), w.material.size()));
    return r.check(e.empty(), "%s: %s", desc(d).c_str(), e.c_str());
}
static void lengths(Run& r, std::vector<size_t>& v, bool all) { for (size_t n = 16; n <= 512; n++) if (all || n <= 18 || n >= 510 || n % 20 <= 1 || n % 20 == 19 || n % 16 <= 1 || n % 16 == 15) v.push_back(n); }
static const std::vector<size_t> PARENT = {16, 20, 32, 48, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257, 511, 512};
static void family(Run& r, int alg, int digest, size_t parent, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Parents P(s.A);
    std::vector<size_t> ls; lengths(r, ls, r.thorough);
    struct X { size_t n; bool null; }; std::vector<X> side = {{0, true}, {0, false}, {1, false}, {19, false}, {64, false}, {65, false}, {256, false}}; if (r.thorough) for (size_t n : {2, 31, 32, 55, 56, 63, 111, 112, 127, 128, 129, 200, 255, 257, 1000, 65536, 70000}) side.push_back({n, false});
    size_t cnt = 0;
    for (size_t l : ls) for (auto& a : side) for (auto& b : side) {
        if (alg != HKDF_ && (a.n || !a.null)) continue;
        // quick: every pair of (length, salt) and (length, info) and every (salt, info)
        if (!r.thorough && alg == HKDF_ && a.n != 19 && b.n != 19 && (cnt++ + l) % 13) continue;
        In d; d.alg = alg; d.len = l; d.digest = digest; d.parent = pattern(parent, (unsigned) (parent + l)); d.salt = pattern(a.n, 3); d.null_salt = alg == HKDF_ && a.null; d.info = pattern(b.n, 4); d.null_info = b.null; d.parent = pattern(parent, 17);
        if (!one(r, P, d)) return;
    }
    r.traces();
}
static void refusals(Run& r, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); sa_handle aes; mkkey(s.A, &aes, pattern(16, 1), rights_all()); Parents P(s.A);
    In base[3]; for (int a = 0; a < 3; a++) { base[a].alg = a; base[a].len = 32; base[a].digest = 1; base[a].parent = pattern(32, 17); base[a].info = pattern(5, 2); base[a].salt = a ? Bytes() : pattern(5, 3); }
    for (auto& b : base) { one(r, P, b);
        int free0 = slots_free(s.A, K_KEY, aes); auto ok = [&](In d) { if (!one(r, P, d)) return false; return one(r, P, b); }; // each refusal is followed by the same successful derivation
        for (size_t n = 0; n <= 640; n++) { In d = b; d.len = n; if (!ok(d)) return; }
        for (size_t n : {(size_t) 4096, (size_t) 255 * 20, (size_t) 255 * 20 + 1, (size_t) 255 * 64 + 1, (size_t) 1 << 31, (size_t) 1 << 32, SIZE_MAX, SIZE_MAX - 15, (size_t) 1 << 63}) { In d = b; d.len = n; if (!ok(d)) return; }
        for (int g = -3; g < 300; g++) { In d = b; d.digest = g; if (!ok(d)) return; }
        { In d = b; d.null_info = true; if (!ok(d)) return; d = b; if (b.alg == HKDF_) { d.null_salt = true; if (!ok(d)) return; } }
        r.check(slots_free(s.A, K_KEY, aes) == free0, "key slots lost"); }
    // parents of other types
    for (int t = 0; t < 3; t++) { sa_rights rt = rights_all(); AnyKey k = t == 0 ? k_ec(0) : t == 1 ? k_rsa(128) : k_dh(); sa_handle h; ak_make(s.A, &h, k, rt);
        for (int a = 0; a < 5; a++) { sa_handle o = INVALID_HANDLE; sa_kdf_parameters_hkdf q1 = {32, SA_DIGEST_ALGORITHM_SHA256, h, nullptr, 0, nullptr, 0}; sa_kdf_parameters_concat q2 = {32, SA_DIGEST_ALGORITHM_SHA256, h, nullptr, 0}; sa_kdf_parameters_ansi_x963 q3 = {32, SA_DIGEST_ALGORITHM_SHA256, h, nullptr, 0}; sa_kdf_parameters_cmac q4 = {16, h, "x", 1, 1}; sa_kdf_parameters_netflix q5 = {h, aes}; void* q[] = {&q1, &q2, &q3, &q4, &q5}; sa_kdf_algorithm al[] = {SA_KDF_ALGORITHM_HKDF, SA_KDF_ALGORITHM_CONCAT, SA_KDF_ALGORITHM_ANSI_X963, SA_KDF_ALGORITHM_CMAC, SA_KDF_ALGORITHM_NETFLIX};
            sa_status st = CALL(s.A, sa_key_derive, &o, &rt, al[a], q[a]); r.transitions(); r.check(st != SA_STATUS_OK && o == INVALID_HANDLE, "parent of type %d, algorithm %d: %s", k.type, a, sn(st)); }
        rel(s.A, K_KEY, h); }
    r.traces(); rel(s.A, K_KEY, aes);
}
static void cmac_all(Run& r, bool ta, size_t parent, size_t info) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Parents P(s.A);
    for (int c = 0; c < 256; c++) for (size_t l = 0; l <= 96; l++) { if (c > 6 && !r.thorough && l % 16) continue; In d; d.alg = CMACK; d.len = l; d.digest = 0; d.parent = pattern(parent, 5); d.info = pattern(info, 6); d.null_info = info == 0 && c & 1; d.counter = c; if (!one(r, P, d)) return; }
    for (size_t l : {(size_t) 1 << 32, SIZE_MAX - 15, (size_t) 1 << 63, (size_t) 1 << 36}) { In d; d.alg = CMACK; d.len = l; d.digest = 0; d.parent = pattern(parent, 5); d.info = pattern(info, 6); d.counter = 1; if (!one(r, P, d)) return; }
    r.traces();
}
static void ladder(Run& r, bool ta, int alg, int stage) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Parents P(s.A);
    In b; b.alg = alg; b.len = 16; b.digest = 0; for (unsigned i = 0; i < 4; i++) b.c[i] = pattern(16, 60 + i);
    if (!one(r, P, b)) return;
    for (int bit = 0; bit < 128; bit++) { In d = b; d.c[stage][(size_t) bit / 8] ^= (uint8_t) (1 << bit % 8); if (!one(r, P, d)) return; }
    for (int v : {0, 255}) { In d = b; d.c[stage] = Bytes(16, (uint8_t) v); if (!one(r, P, d)) return; for (auto& c : d.c) c = Bytes(16, (uint8_t) v); if (!one(r, P, d)) return; }
    for (size_t n = 0; n <= 40; n++) { In d = b; d.c[stage] = pattern(n, 9); if (!one(r, P, d) || !one(r, P, b)) return; }
    r.traces();
}
static void netflix(Run& r, bool ta, int i) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Parents P(s.A);
    static const size_t SZ[] = {16, 17, 20, 24, 31, 32, 33, 48, 64, 512};
    for (size_t a : SZ) for (size_t b : SZ) { In d; d.alg = NETFLIX_; d.len = 16; d.digest = 1; d.parent = pattern(a, 30 + (unsigned) i); d.parent2 = pattern(b, 40 + (unsigned) i); if (!one(r, P, d)) return; }
    r.traces();
}
// any sequence of derivations gives what each gives alone, from several sessions
static void sequence(Run& r, int first, int second) {
    env::reset(); env::caller = uuid_of(1); Session s(true, uuid_of(1)), s2(true, uuid_of(2)), s3(false, uuid_of(1)); Parents P(s.A), Q(s2.A), R(s3.A); Parents* PP[] = {&P, &Q, &R};
    auto mk = [](int a, unsigned salt) { In d; d.alg = a % 7; d.digest = (int) (salt % 4); d.parent = pattern(d.alg == NETFLIX_ || d.alg == CMACK ? 16 : 40 + salt, salt); d.parent2 = pattern(32, salt); d.len = d.alg >= NETFLIX_ ? 16 : d.alg == CMACK ? 32 : 50 + salt; if (d.alg == HKDF_) d.salt = pattern(salt, 1); if (d.alg < NETFLIX_) d.info = pattern(3 * salt, 2); for (unsigned i = 0; i < 4; i++) d.c[i] = pattern(16, salt + i); if (a >= 7) { d.len = 520; d.counter = 9; d.c[3].clear(); d.parent2 = pattern(16, salt); } return d; }; // 7..13: excluded
    for (int third = 0; third < 14; third++) for (int t = 0; t < 3; t++) if (!one(r, *PP[t], mk(first, 5)) || !one(r, *PP[(t + third) % 3], mk(second, 7)) || !one(r, *PP[t], mk(third, 9)) || !one(r, *PP[t], mk(first, 5))) return;
    r.traces();
}
static void explore(Run& r) {
    for (bool ta : {true, false}) {
        for (int a = HKDF_; a <= X963_; a++) for (int g = 0; g < 4; g++) for (size_t p : PARENT) { if (r.stop()) return; if (!ta && !r.thorough && p % 3) continue; if (r.take("%s %s digest %d parent %zu", ta ? "ta" : "api", KN[a], g, p)) { r.nontrivial(hash(r.current())); family(r, a, g, p, ta); } }
        for (size_t p : {16, 24, 32, 33, 512}) for (size_t i : {0, 1, 15, 16, 17, 31, 100}) { if (r.stop()) return; if (r.take("%s cmac parent %zu info %zu", ta ? "ta" : "api", (size_t) p, (size_t) i)) { r.nontrivial(hash(r.current())); cmac_all(r, ta, p, i); } }
        for (int a : {LADDER_, COMMON_}) for (int st = 0; st < 4; st++) if (r.take("%s %s stage %d", ta ? "ta" : "api", KN[a], st)) { r.nontrivial(hash(r.current())); ladder(r, ta, a, st); }
        for (int i = 0; i < 8; i++) if (r.take("%s netflix %d", ta ? "ta" : "api", i)) { r.nontrivial(hash(r.current())); netflix(r, ta, i); }
        if (r.take("%s refusals", ta ? "ta" : "api")) { r.nontrivial(hash(r.current())); refusals(r, ta); }
    }
    for (int a = 0; a < 14; a++) for (int b = 0; b < 14; b++) { if (r.stop()) return; if (r.take("sequence %d %d", a, b)) { r.nontrivial(hash(r.current())); sequence(r, a, b); } }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C21";
    s.rule = "Through the trusted and the client API: HKDF, concatenation and X9.63 derivation for every digest, 17 parent sizes, output lengths 16 to 512 around every block boundary (thorough: all), salts and infos of 7 (20) sizes including absent ones; CMAC derivation for every counter value and length 0 to 96; both ladders with every single-bit change of every stage input; the Netflix derivation for all pairs of ten parent sizes; every length 0 to 640, extreme lengths, digest numbers -3 to 299, null pointers, wrong parent types; all sequences of three derivations, permitted or excluded, over three sessions. Each derived key is compared with an independent implementation. Non-trivial: distinct families.";
    s.assumptions = {"sa_key_digest reports the digest of the derived key (C28)"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); root_key(false); root_key(true); };
    return mc::main(argc, argv, s);
}
