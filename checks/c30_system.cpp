// C30: what the system reports about itself is true, and random output is random to the last byte.
#include "anykey.hpp"
#include <set>
#include "cipher.hpp"
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session S(ta, uuid_of(1)); Api& A = S.A

struct Report { Bytes name; sa_version v; uint64_t id; sa_uuid u; };
static std::string report(Api& A, Report* p) {
    size_t n = 0; sa_status s = CALL(A, sa_get_name, nullptr, &n); if (s || !n || n > 10000) return strf("name size: %s %zu", sn(s), n);
    Blk b(n, 0xa7); s = CALL(A, sa_get_name, (char*) b.p, &n); if (s || n != b.n) return strf("name: %s %zu, expected %zu", sn(s), n, b.n); p->name = b.bytes();
    struct { uint8_t a[16]; sa_version v; uint8_t b[16]; } v; memset(&v, 0xa7, sizeof v); s = CALL(A, sa_get_version, &v.v); if (s) return strf("version: %s", sn(s)); p->v = v.v;
    struct { uint8_t a[16]; uint64_t v; uint8_t b[16]; } d; memset(&d, 0xa7, sizeof d); s = CALL(A, sa_get_device_id, &d.v); if (s) return strf("device: %s", sn(s)); p->id = d.v;
    struct { uint8_t a[16]; sa_uuid v; uint8_t b[16]; } u; memset(&u, 0xa7, sizeof u); s = CALL(A, sa_get_ta_uuid, &u.v); if (s) return strf("identity: %s", sn(s)); p->u = u.v;
    for (int i = 0; i < 16; i++) if (v.a[i] != 0xa7 || v.b[i] != 0xa7 || d.a[i] != 0xa7 || d.b[i] != 0xa7 || u.a[i] != 0xa7 || u.b[i] != 0xa7) return "written beyond the result";
    return "";
}
static bool same(Run& r, Api& A, const Report& want, const char* when) {
    Report p; std::string e = report(A, &p); r.transitions(4); if (!r.check(e.empty(), "%s: %s", when, e.c_str())) return false;
    sa_uuid me = A.ta ? A.u : env::caller;
    return r.check(p.name == want.name, "%s: another name", when) && r.check(!memcmp(&p.v, &want.v, sizeof p.v), "%s: another version", when) && r.check(p.id == want.id, "%s: another device", when) && r.check(!memcmp(&p.u, &me, sizeof me), "%s: identity %s", when, hex((uint8_t*) &p.u, 16).c_str());
}
static Report base() { static Report p; static bool done = false; if (!done) { env::reset(); env::caller = uuid_of(1); Session S(true, uuid_of(1)); std::string e = report(S.A, &p); if (!e.empty()) { fprintf(stderr, "%s\n", e.c_str()); memset(&p.v, 0, sizeof p.v); } done = true; } return p; }

static void contents(Run& r, bool ta) {
    SETUP(ta); Report p = base(); if (!same(r, A, p, "at first")) return;
    r.check(p.name.size() > 1 && p.name.back() == 0 && memchr(p.name.data(), 0, p.name.size()) == &p.name.back(), "the name is not a string of the reported size");
    r.check(p.v.specification_major == SA_SPECIFICATION_MAJOR && p.v.specification_minor == SA_SPECIFICATION_MINOR && p.v.specification_revision == SA_SPECIFICATION_REVISION, "the version of the specification is not the one implemented");
    r.check(p.id != 0, "no device identifier");
    auto no = [&](const char* w, sa_status s) { r.transitions(); r.check(s != SA_STATUS_OK, "%s accepted", w); };
    uint8_t b[64]; no("no name length", CALL(A, sa_get_name, (char*) b, (size_t*) nullptr)); no("no name and no length", CALL(A, sa_get_name, (char*) nullptr, (size_t*) nullptr)); no("no version", CALL(A, sa_get_version, (sa_version*) nullptr));
    no("no device identifier", CALL(A, sa_get_device_id, (uint64_t*) nullptr)); no("no identity", CALL(A, sa_get_ta_uuid, (sa_uuid*) nullptr)); for (size_t n : {(size_t) 0, (size_t) 1, (size_t) 16, SIZE_MAX}) no("no random output", CALL(A, sa_crypto_random, (void*) nullptr, n));
    same(r, A, p, "afterwards"); r.traces();
}
static void name_sizes(Run& r, bool ta) {
    SETUP(ta); Bytes want = base().name;
    auto at = [&](size_t c, size_t claim) { Blk b(c, 0xa7); size_t n = claim; sa_status s = CALL(A, sa_get_name, (char*) b.p, &n); r.transitions(); r.state(hash(&claim, sizeof claim));
        if (claim < want.size()) return r.check(s != SA_STATUS_OK && b.all(0xa7), "buffer of %zu: %s%s", c, sn(s), b.all(0xa7) ? "" : ", written to");
        return r.check(s == SA_STATUS_OK && n == want.size() && !memcmp(b.p, want.data(), n) && b.all(0xa7, n), "buffer of %zu: %s, %zu bytes", c, sn(s), n); };
    for (size_t c = 0; c <= want.size() + 64; c++) if (!at(c, c)) return;
    for (size_t c : {(size_t) 255, (size_t) 256, (size_t) 257, (size_t) 4096, (size_t) 65535, (size_t) 65536, (size_t) 70000}) if (!at(c, c)) return;
    for (size_t q : {(size_t) 0, (size_t) 1, want.size(), (size_t) 1000, SIZE_MAX}) { size_t n = q; sa_status s = CALL(A, sa_get_name, (char*) nullptr, &n); r.transitions(); if (!r.check(s == SA_STATUS_OK && n == want.size(), "size query with %zu: %s %zu", q, sn(s), n)) return; }
    r.traces();
}
// every identity that differs from one in a single bit, and one of a single byte value each
static void identities(Run& r, bool ta) {
    auto one = [&](const sa_uuid& u) { env::reset(); env::caller = u; Session S(ta, u); if (!S.open) return true; r.state(hash(&u, sizeof u)); return same(r, S.A, base(), "for this identity"); };
    for (int i = 0; i < 128; i++) { sa_uuid u = uuid_of(1); u.id[i / 8] ^= (uint8_t) (1 << i % 8); if (!one(u)) return; }
    for (int b = 0; b < 256; b++) { sa_uuid u; memset(&u, b, sizeof u); if (!one(u)) return; }
    r.traces();
}
// sessions side by side
static void sessions(Run& r) {
    env::reset(); env::caller = uuid_of(1); Session C(false, uuid_of(1)); std::vector<std::unique_ptr<Session>> v; for (int i = 0; i < 20; i++) { v.emplace_back(new Session(true, uuid_of((uint8_t) (2 + i % 7)))); for (auto& s : v) if (!same(r, s->A, base(), "beside other sessions")) return; if (!same(r, C.A, base(), "the client beside others")) return; }
    while (!v.empty()) { v.erase(v.begin() + (long) (v.size() / 2)); for (auto& s : v) if (!same(r, s->A, base(), "after others closed")) return; }
    r.traces();
}
// a random request depends, byte for byte, on the random source
static void random_length(Run& r, bool ta, size_t n, bool influence) {
    SETUP(ta); const uint64_t seed = 4242 + n; env::rand_state = seed;
    Blk a(n, 0xa7); sa_status s = CALL(A, sa_crypto_random, a.p, n); r.transitions(); uint64_t drawn = env::rand_drawn, calls = env::rand_calls; r.state(hash(&n, sizeof n));
    if (!n && s != SA_STATUS_OK) { r.traces(); return; } // nothing may be refused
    if (!r.check(s == SA_STATUS_OK, "%zu random bytes: %s", n, sn(s)) || !r.check(drawn >= n, "%zu random bytes are made of %llu", n, (unsigned long long) drawn)) return;
    { Blk big(n + 64, 0xa7); env::rand_state = seed; s = CALL(A, sa_crypto_random, big.p, n); r.transitions(); if (!r.check(s == SA_STATUS_OK && big.all(0xa7, n), "%zu random bytes: written beyond", n)) return; }
    { Blk b(n, 0xa7); s = CALL(A, sa_crypto_random, b.p, n); r.transitions(); if (n >= 8) r.check(a.bytes() != b.bytes(), "the same %zu random bytes again", n); }
    // whatever the buffer held before has no part in the output
    { Blk b(n, 0x33); env::rand_state = seed; s = CALL(A, sa_crypto_random, b.p, n); r.transitions(); if (!r.check(s == SA_STATUS_OK && b.bytes() == a.bytes(), "%zu random bytes are mixed with what the buffer held", n)) return; }
    if (influence && n) {
        std::set<Bytes> seen = {a.bytes()}; Bytes touched(n, 0);
        for (uint64_t i = 1; i <= drawn && i <= 2 * n + 64; i++) { env::rand_state = seed; env::rand_drawn = 0; env::rand_flip = i; Blk b(n, 0xa7); s = CALL(A, sa_crypto_random, b.p, n); r.transitions(); if (!r.check(s == SA_STATUS_OK, "%s", sn(s))) return;
            seen.insert(b.bytes()); for (size_t j = 0; j < n; j++) if (b.p[j] != a.p[j]) touched[j] = 1; }
        env::rand_flip = 0; r.check(seen.size() - 1 >= n, "%zu random bytes depend on %zu bytes of the source only", n, seen.size() - 1);
        for (size_t j = 0; j < n; j++) if (!r.check(touched[j], "byte %zu of %zu is not random", j, n)) return;
    }
    if (n) for (int code : {0, -1}) for (uint64_t i = 1; i <= calls; i++) { env::reset(); env::caller = uuid_of(1); env::rand_fail_at = i; env::rand_fail_value = code; Blk b(n, 0xa7); s = CALL(A, sa_crypto_random, b.p, n); r.transitions();
        if (!r.check(s != SA_STATUS_OK, "%zu random bytes although the source fails (%d)", n, code)) return; env::rand_fail_at = 0; s = CALL(A, sa_crypto_random, b.p, n); if (!r.check(s == SA_STATUS_OK, "refused after the source failed before: %s", sn(s))) return; }
    r.traces();
}
static void random_huge(Run& r, bool ta, size_t n) {
    SETUP(ta); uint8_t* g = giant(0); env::rand_huge = true; sa_status s = CALL(A, sa_crypto_random, g, n); r.transitions(); r.state(hash(&n, sizeof n));
    auto sp = env::rand_spans; env::rand_huge = false; env::rand_spans.clear();
    for (auto& x : sp) if (!r.check(x.first >= g && x.first + x.second <= g + n, "%zu random bytes: written outside", n)) return;
    if (s == SA_STATUS_OK) { std::sort(sp.begin(), sp.end()); uint8_t* at = g; for (auto& x : sp) if (x.first <= at) at = std::max(at, x.first + x.second); r.check(at == g + n, "%zu random bytes: only the first %zu are filled", n, (size_t) (at - g)); }
    else r.count("refused");
    r.traces();
}
// sequences of calls: reports stay the same, and random output never repeats
static void sequence(Run& r, bool ta, const std::vector<int>& ops) {
    SETUP(ta); std::set<Bytes> seen; sa_handle key = INVALID_HANDLE; std::unique_ptr<Session> other;
    for (int o : ops) { r.transitions(); switch (o) {
        case 0: { size_t n = 1; char c = 0x55; r.check(CALL(A, sa_get_name, &c, &n) != SA_STATUS_OK && c == 0x55, "a short buffer accepted"); break; }
        case 1: { Blk b(24, 0xa7); sa_status s = CALL(A, sa_crypto_random, b.p, b.n); r.check(s == SA_STATUS_OK && seen.insert(b.bytes()).second, "random: %s", sn(s)); break; }
        case 2: { env::rand_calls = 0; env::rand_fail_at = 1; env::rand_fail_value = -1; Blk b(24, 0xa7); r.check(CALL(A, sa_crypto_random, b.p, b.n) != SA_STATUS_OK, "random although the source fails"); env::rand_fail_at = 0; break; }
        case 3: { if (key != INVALID_HANDLE) rel(A, K_KEY, key); sa_rights rt = rights_all(); sa_generate_parameters_symmetric p = {16}; key = INVALID_HANDLE; sa_status s = CALL(A, sa_key_generate, &key, &rt, SA_KEY_TYPE_SYMMETRIC, &p); r.check(s == SA_STATUS_OK, "generate: %s", sn(s)); uint8_t d[64]; size_t n = 64;
            if (s == SA_STATUS_OK && CALL(A, sa_key_digest, d, &n, key, SA_DIGEST_ALGORITHM_SHA256) == SA_STATUS_OK) r.check(seen.insert(Bytes(d, d + n)).second, "a key again"); break; }
        case 4: if (other) other.reset(); else other.reset(new Session(true, uuid_of(9))); break;
        case 5: if (other) { if (!same(r, other->A, base(), "the other session")) return; } break;
        case 6: env::now += 86400; break; } 
        if (!same(r, A, base(), "in a sequence")) return; }
    if (key != INVALID_HANDLE) rel(A, K_KEY, key); r.state(hash(ops.data(), ops.size() * sizeof(int))); r.traces();
}
int main(int argc, char** argv) {
    Spec s; s.property = "C30";
    s.rule = "Through the client and the trusted API: name, version, device identifier and identity at first, for every identity that differs from another in one bit, with up to 20 sessions side by side and in every sequence (depth 4, thorough 6) of seven kinds of calls; the name for every buffer size; random requests of every length 0 to 600 (each byte of the output related to the source by changing every byte drawn), of ten lengths around 2^31 and 2^32, and with every request of the source failing in both ways. Non-trivial: distinct inputs.";
    s.assumptions = {"the random source is OpenSSL's RAND_bytes and RAND_priv_bytes, replaced by a deterministic stream", "requests longer than the random source can serve may be refused"};
    s.setup = [](Run&) { sah_setup(); };
    s.explore = [](Run& r) {
        auto T = [&](const std::string& d) { return !r.stop() && r.take("%s", d.c_str()) && (r.nontrivial(hash(r.current())), true); };
        for (int ta = 0; ta < 2; ta++) { const char* a = ta ? "trusted" : "client";
            if (T(strf("%s contents", a))) contents(r, ta);
            if (T(strf("%s name sizes", a))) name_sizes(r, ta);
            if (T(strf("%s identities", a))) identities(r, ta);
            for (size_t n = 0; n <= 600; n++) if (T(strf("%s random %zu", a, n))) random_length(r, ta, n, r.thorough || n <= 70 || n % 64 <= 1 || n % 64 == 63);
            for (size_t n : {(size_t) 1023, (size_t) 1024, (size_t) 4095, (size_t) 4096, (size_t) 4097, (size_t) 65535, (size_t) 65536, (size_t) 65537, (size_t) 1048577}) if (T(strf("%s random %zu", a, n))) random_length(r, ta, n, false);
            for (size_t n : {(size_t) 0x7ffffffe, (size_t) 0x7fffffff, (size_t) 0x80000000, (size_t) 0x80000010, (size_t) 0xfffffffe, (size_t) 0xffffffff, (size_t) 0x100000000, (size_t) 0x100000001, (size_t) 0x100000010, (size_t) 0x100100000}) if (T(strf("%s random %zu", a, n))) random_huge(r, ta, n);
            int D = r.thorough ? 6 : 4; for (int d = 1; d <= D; d++) { size_t tot = 1; for (int i = 0; i < d; i++) tot *= 7; for (size_t k = 0; k < tot; k++) { std::vector<int> o; size_t x = k; std::string nm; for (int i = 0; i < d; i++) { o.push_back((int) (x % 7)); nm += strf("%d", (int) (x % 7)); x /= 7; } if (T(strf("%s sequence %s", a, nm.c_str()))) sequence(r, ta, o); } }
        }
        if (T("sessions")) sessions(r);
    };
    return mc::main(argc, argv, s);
}
