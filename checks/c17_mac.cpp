// C17: every operation sequence on MAC contexts against OpenSSL's one-shot MAC of the concatenated input.
#include "sah.hpp"
using namespace mc;

struct Alg { bool cmac; int digest; size_t klen; };
static std::vector<Alg> algs(bool) {
    std::vector<Alg> v;
    v.push_back({true, 0, 16}); v.push_back({true, 0, 32});
    for (int d = 0; d < 4; d++)
        for (size_t k : {16, 17, 20, 32, 63, 64, 65, 127, 128, 129, 512}) v.push_back({false, d, k});
    return v;
}
// operations
enum Op { P0, PNULL, P1, P15, P16, P17, P64, P129, PK16, PKBIG, PKBAD, QRY, SHORT, COMP, COMPBIG, REL, OTHER, NOPS };
static const char* OPN[] = {"p0", "pnull", "p1", "p15", "p16", "p17", "p64", "p129", "pk16", "pkbig", "pkbad", "qry", "short", "comp", "compbig", "rel", "other"};
struct Keys { sa_key k = INVALID_HANDLE, pk16, pkbig, ec; Bytes kb, pk16b, pkbigb; };
static sa_crypto_mac_context minit(const Alg& a, sa_key k, sa_status* st) {
    sa_crypto_mac_context c = INVALID_HANDLE;
    sa_mac_parameters_hmac p = {(sa_digest_algorithm) a.digest};
    *st = sa_crypto_mac_init(&c, a.cmac ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, k, a.cmac ? nullptr : (void*) &p);
    return c;
}
static Bytes ref(const Alg& a, const Bytes& key, const Bytes& in) { return a.cmac ? ref_cmac(key, in) : ref_hmac(dname(a.digest), key, in); }

struct Model { Bytes data; bool done = false, released = false; };

static void step(Run& r, const Alg& a, Keys& K, sa_crypto_mac_context c, Model& m, Op op, unsigned salt) {
    r.transitions();
    size_t need = a.cmac ? 16 : dlen(a.digest);
    auto proc = [&](size_t n, bool null_in) {
        Bytes d = pattern(n, salt);
        Blk b(d);
        sa_status s = sa_crypto_mac_process(c, null_in ? nullptr : b.p, n);
        bool ok = !m.done && !m.released;
        r.check((s == SA_STATUS_OK) == ok, "process(%zu) returned %s, expected %s", n, sn(s), ok ? "OK" : "refusal");
        if (ok) m.data.insert(m.data.end(), d.begin(), d.end());
    };
    auto pkey = [&](sa_key k, const Bytes* kb) {
        sa_status s = sa_crypto_mac_process_key(c, k);
        bool ok = !m.done && !m.released && kb;
        r.check((s == SA_STATUS_OK) == ok, "process_key returned %s, expected %s", sn(s), ok ? "OK" : "refusal");
        if (ok) m.data.insert(m.data.end(), kb->begin(), kb->end());
    };
    switch (op) {
        case P0: proc(0, false); break;
        case PNULL: proc(0, true); break;
        case P1: proc(1, false); break;
        case P15: proc(15, false); break;
        case P16: proc(16, false); break;
        case P17: proc(17, false); break;
        case P64: proc(64, false); break;
        case P129: proc(129, false); break;
        case PK16: pkey(K.pk16, &K.pk16b); break;
        case PKBIG: pkey(K.pkbig, &K.pkbigb); break;
        case PKBAD: pkey(salt & 1 ? K.ec : (sa_key) 250, nullptr); break;
        case QRY: {
            size_t n = 12345;
            sa_status s = sa_crypto_mac_compute(nullptr, &n, c);
            if (m.released) r.check(s != SA_STATUS_OK, "size query on released context succeeded");
            else if (s == SA_STATUS_OK) r.check(n == need, "size query reports %zu, expected %zu", n, need);
            else r.check(m.done, "size query refused: %s", sn(s));
            break;
        }
        case SHORT: {
            Blk o(need - 1); size_t n = need - 1;
            sa_status s = sa_crypto_mac_compute(o.p, &n, c);
            r.check(s != SA_STATUS_OK, "compute into a short buffer succeeded");
            r.check(o.all(0xee), "compute into a short buffer wrote output");
            break;
        }
        case COMP: case COMPBIG: {
            size_t extra = op == COMPBIG ? 9 : 0;
            Blk o(need + extra); size_t n = need + extra;
            sa_status s = sa_crypto_mac_compute(o.p, &n, c);
            bool ok = !m.done && !m.released;
            r.check((s == SA_STATUS_OK) == ok, "compute returned %s, expected %s", sn(s), ok ? "OK" : "refusal");
            if (ok) {
                Bytes e = ref(a, K.kb, m.data);
                r.check(n == need, "compute reports length %zu, expected %zu", n, need);
                r.check(!memcmp(o.p, e.data(), need), "MAC of %zu bytes is %s, expected %s", m.data.size(), hex(o.p, need).c_str(), hex(e.data(), need).c_str());
                r.check(o.all(0xee, need), "compute wrote past the MAC");
                m.done = true;
                r.nontrivial(mc::hash(e.data(), e.size()));
            } else r.check(o.all(0xee), "refused compute wrote output");
            break;
        }
        case REL: {
            sa_status s = sa_crypto_mac_release(c);
            r.check((s == SA_STATUS_OK) == !m.released, "release returned %s", sn(s));
            m.released = true;
            break;
        }
        case OTHER: { // another context over the same key runs to completion in between
            sa_status s; sa_crypto_mac_context c2 = minit(a, K.k, &s);
            r.check(s == SA_STATUS_OK, "second context: init returned %s", sn(s));
            Bytes d = pattern(33, salt + 1000);
            if (!m.released) r.check(c2 != c, "two live contexts share handle %llu", (unsigned long long) c);
            sa_crypto_mac_process(c2, d.data(), d.size());
            Blk o(need); size_t n = need;
            s = sa_crypto_mac_compute(o.p, &n, c2);
            Bytes e = ref(a, K.kb, d);
            r.check(s == SA_STATUS_OK && !memcmp(o.p, e.data(), need), "second context: wrong MAC");
            r.check(sa_crypto_mac_release(c2) == SA_STATUS_OK, "second context: release");
            break;
        }
        default: break;
    }
    uint64_t h = mc::hash(m.data.data(), m.data.size(), 7) * 4 + m.done * 2 + m.released;
    r.state(h ^ mc::hash(&a.klen, 8) ^ (a.cmac ? 99 : a.digest) * 0x9E3779B97F4A7C15ULL);
}

static void explore(Run& r) {
    for (auto& a : algs(r.thorough)) {
        Keys K;
        K.kb = pattern(a.klen, 5); K.pk16b = pattern(16, 6); K.pkbigb = pattern(65, 7);
        bool loaded = false;
        auto load = [&] {
            if (loaded) return;
            loaded = true;
            K.k = import_sym(K.kb, rights_all()); K.pk16 = import_sym(K.pk16b, rights_all()); K.pkbig = import_sym(K.pkbigb, rights_all());
            K.ec = import_ec_key(0, rights_all());
            r.check(K.k != INVALID_HANDLE && K.pk16 != INVALID_HANDLE && K.pkbig != INVALID_HANDLE && K.ec != INVALID_HANDLE, "key import failed %d %d %d %d", K.k != INVALID_HANDLE, K.pk16 != INVALID_HANDLE, K.pkbig != INVALID_HANDLE, K.ec != INVALID_HANDLE);
        };
        // full depth for one key size per algorithm; the other key sizes get every sequence one shorter
        bool main_size = a.cmac || a.klen == 64;
        int depth = (main_size ? 4 : 3) + (r.thorough && main_size ? 1 : 0) + (r.thorough && !main_size ? 1 : 0);
        std::vector<int> seq(depth, 0);
        for (;;) {
            std::string d;
            for (int o : seq) { d += ' '; d += OPN[o]; }
            if (r.take("%s digest=%d klen=%zu:%s", a.cmac ? "cmac" : "hmac", a.digest, a.klen, d.c_str())) {
                load();
                sa_status s; sa_crypto_mac_context c = minit(a, K.k, &s);
                if (r.check(s == SA_STATUS_OK, "init returned %s", sn(s))) {
                    Model m;
                    for (int i = 0; i < depth; i++) {
                        // a released handle may be legitimately reissued to OTHER only, which releases it again
                        step(r, a, K, c, m, (Op) seq[i], i * 31 + 1);
                    }
                    if (!m.released) { if (!m.done) step(r, a, K, c, m, COMP, 77); step(r, a, K, c, m, REL, 0); }
                    r.traces();
                    if (r.shm && seq[0] == P17 && seq[1] == PK16) r.sample("%s", r.current());
                }
            }
            int i = depth - 1;
            while (i >= 0 && ++seq[i] == NOPS) seq[i--] = 0;
            if (i < 0) break;
        }
        // key admissibility: MAC key lengths
        if (loaded) { sa_key_release(K.k); sa_key_release(K.pk16); sa_key_release(K.pkbig); sa_key_release(K.ec); }
    }
    // every split of a message into up to three parts around the block size
    for (auto& a : algs(r.thorough)) {
        size_t B = a.cmac ? 16 : (a.digest >= 2 ? 128 : 64);
        size_t maxlen = r.thorough ? 2 * B + 2 : B + 2;
        if (!r.thorough && !a.cmac && a.klen != 64) continue;
        for (size_t len = 0; len <= maxlen; len++) {
            if (!r.take("split %s digest=%d klen=%zu len=%zu", a.cmac ? "cmac" : "hmac", a.digest, a.klen, len)) continue;
            Bytes kb = pattern(a.klen, 5), d = pattern(len, 9);
            sa_key k = import_sym(kb, rights_all());
            Bytes e = ref(a, kb, d);
            size_t step1 = a.cmac || r.thorough ? 1 : 5;
            for (size_t i = 0; i <= len; i += step1)
                for (size_t j = i; j <= len; j += (j - i > 3 && !a.cmac ? 7 : 1)) {
                    sa_status s; sa_crypto_mac_context c = minit(a, k, &s);
                    if (!r.check(s == SA_STATUS_OK, "init %s", sn(s))) break;
                    Blk b(d);
                    sa_status s1 = sa_crypto_mac_process(c, b.p, i), s2 = sa_crypto_mac_process(c, b.p + i, j - i), s3 = sa_crypto_mac_process(c, b.p + j, len - j);
                    Blk o(e.size()); size_t n = o.n;
                    sa_status s4 = sa_crypto_mac_compute(o.p, &n, c);
                    r.check(!s1 && !s2 && !s3 && !s4, "split %zu/%zu: %s %s %s %s", i, j, sn(s1), sn(s2), sn(s3), sn(s4));
                    r.check(o.bytes() == e, "split %zu/%zu/%zu gives a different MAC", i, j, len);
                    sa_crypto_mac_release(c);
                    r.transitions(5); r.traces();
                    r.beat();
                }
            r.state(mc::hash(e.data(), e.size()));
            sa_key_release(k);
        }
    }
    // long data: around each power of 256 and beyond, whole, in two parts and in pieces of 4096
    for (auto& a : algs(r.thorough)) for (size_t len : {255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 131072 + 3, (1 << 20) + 1}) {
        if (!r.take("long %s digest=%d klen=%zu len=%zu", a.cmac ? "cmac" : "hmac", a.digest, a.klen, len)) continue;
        Bytes kb = pattern(a.klen, 5), d = pattern(len, 9); sa_key k = import_sym(kb, rights_all()); Bytes e = ref(a, kb, d); Blk b(d);
        for (size_t cut : {len, (size_t) 1, (size_t) 255, (size_t) 256, len - 1, len - 16, (size_t) 0}) {
            if (cut > len) continue; sa_status s; sa_crypto_mac_context c = minit(a, k, &s); if (!r.check(s == SA_STATUS_OK, "init %s", sn(s))) break;
            if (cut) { sa_status s1 = sa_crypto_mac_process(c, b.p, cut), s2 = sa_crypto_mac_process(c, b.p + cut, len - cut); r.check(!s1 && !s2, "%zu + %zu bytes: %s %s", cut, len - cut, sn(s1), sn(s2)); }
            else for (size_t i = 0; i < len; i += 4096) { sa_status s1 = sa_crypto_mac_process(c, b.p + i, std::min<size_t>(4096, len - i)); r.check(!s1, "piece at %zu: %s", i, sn(s1)); }
            Blk o(e.size()); size_t n = o.n; s = sa_crypto_mac_compute(o.p, &n, c); r.check(!s && o.bytes() == e, "%zu bytes cut at %zu: %s, a different MAC", len, cut, sn(s)); sa_crypto_mac_release(c); r.transitions(4); r.traces();
        }
        r.state(mc::hash(e.data(), e.size())); sa_key_release(k);
    }
    // which keys and digests MAC contexts accept
    for (size_t klen = 1; klen <= 513; klen++)
        for (int alg = 0; alg < 6; alg++) {
            if (!r.take("accept klen=%zu alg=%d", klen, alg)) continue;
            sa_status st; sa_key k = import_sym(pattern(klen, 5), rights_all(), &st);
            if (k == INVALID_HANDLE) continue;
            sa_crypto_mac_context c = INVALID_HANDLE;
            sa_mac_parameters_hmac p = {(sa_digest_algorithm) alg};
            sa_status s = alg < 5 ? sa_crypto_mac_init(&c, SA_MAC_ALGORITHM_HMAC, k, &p) : sa_crypto_mac_init(&c, SA_MAC_ALGORITHM_CMAC, k, nullptr);
            bool ok = alg < 4 ? (klen >= 16 && klen <= 512) : alg == 4 ? false : (klen == 16 || klen == 32);
            r.check((s == SA_STATUS_OK) == ok, "init returned %s, expected %s", sn(s), ok ? "OK" : "refusal");
            if (s == SA_STATUS_OK) {
                Bytes e = alg < 4 ? ref_hmac(dname(alg), pattern(klen, 5), pattern(21, 1)) : ref_cmac(pattern(klen, 5), pattern(21, 1));
                Bytes d = pattern(21, 1); Blk o(e.size()); size_t n = o.n;
                sa_crypto_mac_process(c, d.data(), d.size());
                r.check(sa_crypto_mac_compute(o.p, &n, c) == SA_STATUS_OK && o.bytes() == e, "wrong MAC for key length %zu", klen);
                r.check(sa_crypto_mac_release(c) == SA_STATUS_OK, "release");
            }
            r.transitions(4); r.traces();
            r.check(sa_key_release(k) == SA_STATUS_OK, "key release");
        }
}
int main(int argc, char** argv) {
    Spec s{};
    s.property = "C17";
    s.rule = "Every sequence of MAC operations (17-letter alphabet: process of 0/1/15/16/17/64/129 bytes, process-key of good and bad keys, size query, short buffer, exact and oversized compute, release, a whole second context in between) up to the stated depth per algorithm, digest and key size, plus every 3-way split of messages around the block size and every key length 1..513. Non-trivial: distinct MAC values compared with OpenSSL.";
    s.assumptions = {"OpenSSL's HMAC/CMAC are the oracle", "depth 4 for CMAC-128/256 and HMAC with 64-byte keys, 3 for other key sizes (thorough: one deeper)"};
    s.explore = explore;
    s.setup = [](Run&) { sah_setup(); };
    return mc::main(argc, argv, s);
}
