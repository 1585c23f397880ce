// Symmetric algorithms of the provider: every split of the data, every sequence of calls up to a depth.
#pragma once
#include "prov.hpp"
using namespace mc;
struct CAlg { const char* name; size_t key; size_t iv; bool block, aead, poly; };
static const CAlg CALGS[] = {
        {"AES-128-ECB", 16, 0, true, false}, {"AES-256-ECB", 32, 0, true, false}, {"AES-128-CBC", 16, 16, true, false}, {"AES-256-CBC", 32, 16, true, false},
        {"AES-128-CTR", 16, 16, false, false}, {"AES-256-CTR", 32, 16, false, false}, {"AES-128-GCM", 16, 12, false, true}, {"AES-256-GCM", 32, 12, false, true},
        {"ChaCha20", 32, 16, false, false}, {"ChaCha20-Poly1305", 32, 12, false, true, true}};
static const Bytes& c_stream(const CAlg& a, bool enc, const Bytes& key, const Bytes& iv) { // what is fed: when decrypting blocks, every whole number of blocks ends in good padding
    static std::map<std::string, Bytes> memo;
    std::string id = std::string(a.name) + (enc || !a.block ? "e" : "d") + std::string(key.begin(), key.end()) + std::string(iv.begin(), iv.end());
    Bytes& m = memo[id]; if (!m.empty()) return m;
    Bytes p = pattern(4096, 77);
    if (!enc && a.block) { for (size_t i = 0; i < p.size(); i += 16) { size_t n = 1 + (i / 16 * 5) % 16; memset(&p[i + 16 - n], (int) n, n); } p = ref_cipher(a.name, true, key, iv, p, false); }
    return m = p;
}
struct CPair { // the same context in both worlds
    Run& r; const CAlg& a; EVP_CIPHER_CTX *x, *y; Keys keys; bool enc, good = true, data = false, fin = false; Bytes key, iv, aad, in, ox, oy; std::vector<std::shared_ptr<KeyPar>> par;
    CPair(Run& r_, const CAlg& a_, bool e) : r(r_), a(a_), enc(e) { x = EVP_CIPHER_CTX_new(); y = EVP_CIPHER_CTX_new(); }
    ~CPair() { free(); }
    void free() { EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y); x = y = nullptr; }
    bool same(int s, int t, const char* what) { // both succeed or both fail; the case ends at the first refusal
        r.transitions();
        good = good && r.check((s > 0) == (t > 0), "%s: %s, the software implementation %s", what, s > 0 ? "succeeds" : "fails", t > 0 ? "succeeds" : "fails") && s > 0;
        return good;
    }
    void restart() { aad.clear(); in.clear(); ox.clear(); oy.clear(); data = fin = false; }
    bool init(bool first, int km, unsigned ksalt, const Bytes* niv) { // km: how the key is given, -1: the key is kept
        auto kp = std::make_shared<KeyPar>();
        if (km >= 0) key = pattern(a.key, 300 + ksalt);
        if (km == HANDLE || km == OWNED) kp = std::make_shared<KeyPar>(keys.make(key, km == OWNED), km == OWNED);
        if (niv) iv = *niv;
        restart();
        Blk kb(km >= 0 ? key : Bytes()), ib(iv);
        const uint8_t* k = km >= 0 ? kb.p : nullptr; const uint8_t* v = niv && a.iv ? ib.p : nullptr;
        int s = EVP_CipherInit_ex2(x, first ? FETCH(EVP_CIPHER, true, a.name) : nullptr, km == RAW ? k : nullptr, v, enc, kp->get());
        int t = EVP_CipherInit_ex2(y, first ? FETCH(EVP_CIPHER, false, a.name) : nullptr, k, v, enc, nullptr);
        return same(s, t, first ? "initialisation" : "new initialisation");
    }
    bool put_aad(size_t n) {
        Blk b(pattern(n, 900 + (unsigned) aad.size())); int l = 0, m = 0;
        int s = EVP_CipherUpdate(x, nullptr, &l, b.p, (int) n), t = EVP_CipherUpdate(y, nullptr, &m, b.p, (int) n);
        if (data) { r.transitions(); r.check(s <= 0 || !n, "associated data accepted after data"); return good = false; } // some software implementations misread it
        Bytes q = b.bytes(); aad.insert(aad.end(), q.begin(), q.end());
        return same(s, t, "associated data");
    }
    bool put(size_t n, bool null = false, bool inplace = false) {
        const Bytes& st = c_stream(a, enc, key, iv); Bytes d = sub(st, in.size(), n);
        Blk b(d); size_t cap = n + (a.block ? 16 : 0); Blk o(inplace ? d : Bytes(cap, 0xee)), q(cap + 1);
        int l = -1, m = -1;
        int s = EVP_CipherUpdate(x, o.p, &l, null ? nullptr : inplace ? o.p : b.p, (int) n), t = EVP_CipherUpdate(y, q.p, &m, null ? nullptr : b.p, (int) n);
        in.insert(in.end(), d.begin(), d.end()); data = data || n;
        if (!same(s, t, "update")) return false;
        if (!r.check(l >= 0 && (size_t) l <= cap, "update reports %d bytes of output", l)) return good = false;
        ox.insert(ox.end(), o.p, o.p + l); oy.insert(oy.end(), q.p, q.p + m);
        if (!a.block) good = r.check(l == m, "update of a stream cipher returns %d bytes for %zu", l, n) && good;
        size_t c = std::min(ox.size(), oy.size());
        return good = r.check(!c || !memcmp(ox.data(), oy.data(), c), "output differs") && good;
    }
    Bytes tag_for(bool ok, size_t n) { // the tag of what was decrypted
        Aead z = ref_aead(a.name, true, key, iv, aad, oy, {}, 16); Bytes t = sub(z.tag, 0, n); if (!ok) t[n / 2] ^= 4; return t;
    }
    bool set_tag(bool ok, size_t n, const Bytes* given = nullptr) { Bytes t = given ? *given : tag_for(ok, n); Blk b(t), c(t); return same(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, (int) n, b.p), EVP_CIPHER_CTX_ctrl(y, EVP_CTRL_AEAD_SET_TAG, (int) n, c.p), "setting the tag"); }
    bool finish(bool null = false) {
        Blk o(32), q(32); int l = -1, m = -1;
        int s = EVP_CipherFinal_ex(x, null ? nullptr : o.p, &l), t = EVP_CipherFinal_ex(y, null ? nullptr : q.p, &m);
        fin = true;
        if (!same(s, t, null ? "final without an output buffer" : "final")) return false;
        if (!null) { ox.insert(ox.end(), o.p, o.p + l); oy.insert(oy.end(), q.p, q.p + m); }
        r.traces();
        return good = r.check(ox == oy, "result differs (%zu bytes, expected %zu)", ox.size(), oy.size()) && good;
    }
    bool get_tag(size_t n) {
        Blk t(n), u(n); if (!same(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, (int) n, t.p), EVP_CIPHER_CTX_ctrl(y, EVP_CTRL_AEAD_GET_TAG, (int) n, u.p), "getting the tag")) return false;
        return good = r.check(t.bytes() == u.bytes(), "tag differs") && good;
    }
    bool close(size_t tl = 16, bool ok = true, bool null = false) { if (a.aead && !enc && !set_tag(ok, tl)) return false; if (!finish(null)) return false; return !a.aead || !enc || get_tag(tl); }
};
static void cipher_splits(Run& r) {
    for (auto& a : CALGS) for (int enc = 0; enc < 2; enc++) for (int pad = 0; pad < (a.block ? 2 : 1); pad++) for (int km = 0; km < NKM; km++) {
        size_t N = a.block ? (r.thorough ? 50 : 34) : r.thorough ? 34 : 18;
        for (size_t n = 0; n <= N; n++) for (size_t i = 0; i <= n; i++) for (size_t j = i; j <= n; j++) {
            if (km && !r.thorough && (i % 5 || (j - i) % 3)) continue; // how the key is given is combined with fewer splits
            if (r.stop()) return;
            if (!r.take("%s %s%s key=%s data=%zu+%zu+%zu", a.name, enc ? "encrypt" : "decrypt", a.block ? pad ? " padded" : " unpadded" : "", KMN[km], i, j - i, n - j)) continue;
            r.nontrivial(hash(r.current()));
            leakfree(r, [&]() {
                CPair p(r, a, enc); Bytes iv = pattern(a.iv, 5);
                if (!p.init(true, km, 0, &iv)) return;
                if (a.block) { EVP_CIPHER_CTX_set_padding(p.x, pad); EVP_CIPHER_CTX_set_padding(p.y, pad); }
                if (a.aead && !p.put_aad(20)) return;
                if (!p.put(i) || !p.put(j - i) || !p.put(n - j)) { if (n % 16 == 0 || pad) r.fail("refused"); return; }
                p.close();
                p.free(); p.keys.done(r);
            });
        }
    }
    // one long message in few pieces, and in place
    for (auto& a : CALGS) for (int enc = 0; enc < 2; enc++) for (size_t cut : {0, 1, 15, 16, 17, 255, 256, 1000, 2047}) for (int inplace = 0; inplace < (a.block ? 1 : 2); inplace++) {
        if (r.stop()) return;
        if (!r.take("%s %s 2048 bytes cut at %zu%s", a.name, enc ? "encrypt" : "decrypt", cut, inplace ? " in place" : "")) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() { CPair p(r, a, enc); Bytes iv = pattern(a.iv, 6); if (p.init(true, HANDLE, 1, &iv) && p.put(cut, false, inplace) && p.put(2048 - cut, false, inplace)) p.close(); p.free(); p.keys.done(r); });
    }
}
static void cipher_aead(Run& r) {
    for (auto& a : CALGS) if (a.aead) for (int enc = 0; enc < 2; enc++) for (size_t n : {0, 1, 16, 21}) for (size_t tl = a.poly ? 16 : 1; tl <= 16; tl++)
        for (int v = 0; v < (enc ? 1 : 3); v++) for (int null = 0; null < 2; null++) for (int early = 0; early < (enc ? 1 : 2); early++) for (size_t al = 0; al <= 24; al += 6) for (size_t c1 = 0; c1 <= al; c1 += 3) for (size_t c2 = c1; c2 <= al; c2 += 3) {
            if (tl != 16 && (al != 6 || c1 || (tl % 4 && !r.thorough))) continue;
            if (r.stop()) return;
            if (!r.take("%s %s data=%zu aad=%zu+%zu+%zu tag=%zu%s%s%s", a.name, enc ? "encrypt" : "decrypt", n, c1, c2 - c1, al - c2, tl, v == 1 ? " wrong-tag" : v == 2 ? " no-tag" : "", null ? " final(NULL)" : "", early ? " tag-first" : "")) continue;
            r.nontrivial(hash(r.current()));
            if (v == 2 && (early || tl != 16)) continue;
            leakfree(r, [&]() {
                CPair p(r, a, enc); Bytes iv = pattern(12, 8);
                if (!p.init(true, HANDLE, 2, &iv)) return;
                Bytes all; for (size_t i = 0; i < 0; i++) all.push_back(0);
                if (early) { // the tag of the whole message is known beforehand
                    Bytes ad; { size_t l[3] = {c1, c2 - c1, al - c2}; for (size_t q : l) { Bytes z = pattern(q, 900 + (unsigned) ad.size()); ad.insert(ad.end(), z.begin(), z.end()); } }
                    Bytes ct = sub(c_stream(a, false, p.key, iv), 0, n), pt = ref_aead(a.name, true, p.key, iv, ad, ct, {}, 16).out; // keystream: encrypting twice decrypts
                    Bytes t = sub(ref_aead(a.name, true, p.key, iv, ad, pt, {}, 16).tag, 0, tl); if (v) t[0] ^= 1;
                    if (!p.set_tag(true, tl, &t)) return;
                }
                if (!p.put_aad(c1) || !p.put_aad(c2 - c1) || !p.put_aad(al - c2) || !p.put(n / 2) || !p.put(n - n / 2)) return;
                if (!enc && !early && v < 2 && !p.set_tag(v == 0, tl)) return;
                if (v == 2) { int l; Blk o(32); r.check(EVP_CipherFinal_ex(p.x, null ? nullptr : o.p, &l) <= 0, "decryption without a tag succeeds"); p.free(); p.keys.done(r); return; }
                if (p.finish(null) && enc) p.get_tag(tl);
                if (!enc && v == 0) r.check(p.good, "authentic data is refused");
                p.free(); p.keys.done(r);
            });
        }
    // the length of the IV
    for (auto& a : CALGS) if (a.aead) for (int l = 1; l <= 20; l++) for (int enc = 0; enc < 2; enc++) {
        if (!r.take("%s %s with an IV of %d bytes", a.name, enc ? "encrypt" : "decrypt", l)) continue;
        r.nontrivial(hash(r.current()));
        Bytes key = pattern(a.key, 9), iv = pattern(l, 10); Keys keys; EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Blk kb(key), ib(iv);
        int s = EVP_CipherInit_ex2(x, FETCH(EVP_CIPHER, true, a.name), nullptr, nullptr, enc, nullptr); if (s == 1) s = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, l, nullptr);
        r.transitions();
        if (l == 12) r.check(s == 1, "an IV of the documented length is refused");
        if (s == 1 && EVP_CipherInit_ex2(x, nullptr, kb.p, ib.p, enc, nullptr) == 1) { // accepted: then it is used
            EVP_CIPHER_CTX* y = EVP_CIPHER_CTX_new(); uint8_t in[5] = {1, 2, 3, 4, 5}, o1[5] = {0}, o2[5] = {1}; int m = 0;
            EVP_CipherInit_ex2(y, FETCH(EVP_CIPHER, false, a.name), nullptr, nullptr, enc, nullptr); EVP_CIPHER_CTX_ctrl(y, EVP_CTRL_AEAD_SET_IVLEN, l, nullptr); EVP_CipherInit_ex2(y, nullptr, kb.p, ib.p, enc, nullptr);
            EVP_CipherUpdate(x, o1, &m, in, 5); EVP_CipherUpdate(y, o2, &m, in, 5); EVP_CIPHER_CTX_free(y);
            r.check(!memcmp(o1, o2, 5), "the IV is accepted and the result differs"); r.traces();
        }
        EVP_CIPHER_CTX_free(x); ERR_clear_error();
    }
}
enum COp { U0, U1, U5, U16, U17, U33, UN, A0, A5, A20, PAD0, PAD1, RRAW, RHND, ROWN, RIV, RNONE, DIR, FIN, FBAD, FNULL, NCOPS };
static const char* const CON[] = {"u0", "u1", "u5", "u16", "u17", "u33", "uNULL", "aad0", "aad5", "aad20", "pad0", "pad1", "key", "key-handle", "key-owned", "iv", "again", "turn", "final", "final-bad", "final-NULL"};
static bool c_applies(const CAlg& a, int o, bool finished, bool data) {
    if (finished && !(o >= RRAW && o <= DIR)) return false;
    if ((o == PAD0 || o == PAD1) && (!a.block || data)) return false;
    if ((o == A0 || o == A5 || o == A20 || o == FBAD || o == FNULL) && !a.aead) return false;
    if (o == FBAD) return true;
    if (o == RNONE) return a.block;
    if (o == RIV) return a.iv != 0;
    return true;
}
static void cipher_histories(Run& r) {
    int depth = r.thorough ? 5 : 3;
    for (auto& a : CALGS) for (int enc = 0; enc < 2; enc++) for (int km = 0; km < NKM; km++) {
        int d = km && r.thorough ? depth - 1 : depth;
        std::vector<int> h;
        std::function<void(bool, bool)> rec = [&](bool finished, bool data) {
            if (r.stop()) return;
            if ((int) h.size() == d) {
                std::string t; for (int o : h) t += std::string(" ") + CON[o];
                if (!r.take("%s %s key=%s:%s", a.name, enc ? "encrypt" : "decrypt", KMN[km], t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    CPair p(r, a, enc); Bytes iv = pattern(a.iv, 5); unsigned salt = 0; bool pad = true;
                    bool ok = p.init(true, km, salt, &iv);
                    for (size_t i = 0; ok && i < h.size(); i++) switch (h[i]) {
                        case U0: ok = p.put(0); break; case U1: ok = p.put(1); break; case U5: ok = p.put(5); break; case U16: ok = p.put(16); break;
                        case U17: ok = p.put(17); break; case U33: ok = p.put(33); break; case UN: ok = p.put(0, true); break;
                        case A0: ok = p.put_aad(0); break; case A5: ok = p.put_aad(5); break; case A20: ok = p.put_aad(20); break;
                        case PAD0: case PAD1: ok = p.same(EVP_CIPHER_CTX_set_padding(p.x, h[i] == PAD1), EVP_CIPHER_CTX_set_padding(p.y, h[i] == PAD1), "padding"); break;
                        case RRAW: case RHND: case ROWN: iv = pattern(a.iv, 20 + (unsigned) i); ok = p.init(false, h[i] - RRAW, ++salt, &iv); break;
                        case RIV: iv = pattern(a.iv, 40 + (unsigned) i); ok = p.init(false, -1, 0, &iv); break;
                        case RNONE: ok = p.init(false, -1, 0, nullptr); break;
                        case DIR: p.enc = !p.enc; iv = pattern(a.iv, 60 + (unsigned) i); ok = p.init(false, RAW, ++salt, &iv); break;
                        case FIN: ok = p.close(); break; case FBAD: ok = p.close(16, false); break; case FNULL: ok = p.close(16, true, true); break;
                    }
                    if (ok && !p.fin) p.close();
                    p.free(); p.keys.done(r);
                });
                return;
            }
            for (int o = 0; o < NCOPS; o++) if (c_applies(a, o, finished, data)) {
                h.push_back(o);
                bool re = o >= RRAW && o <= DIR;
                rec(re ? false : finished || o == FIN || o == FBAD || o == FNULL, re ? false : data || o <= UN);
                h.pop_back();
            }
        };
        rec(false, false);
    }
}
static void ciphers(Run& r) { cipher_splits(r); cipher_aead(r); cipher_histories(r); }

struct MAlg { const char* name; const char* digest; size_t key; };
static const MAlg MALGS[] = {{"CMAC", nullptr, 16}, {"CMAC", nullptr, 32}, {"HMAC", "SHA1", 20}, {"HMAC", "SHA256", 32}, {"HMAC", "SHA384", 48}, {"HMAC", "SHA512", 64}, {"HMAC", "SHA256", 16}, {"HMAC", "SHA256", 150}};
static const char* const OTHER_MD[] = {"SHA512", "SHA1", "SHA256"};
struct MPair {
    Run& r; const MAlg& a; EVP_MAC_CTX *x, *y; Keys keys; std::vector<std::shared_ptr<KeyPar>> par; bool good = true, fin = false; size_t n = 0; std::string md; Bytes key;
    MPair(Run& r_, const MAlg& a_) : r(r_), a(a_) { x = EVP_MAC_CTX_new(FETCH(EVP_MAC, true, a.name)); y = EVP_MAC_CTX_new(FETCH(EVP_MAC, false, a.name)); md = a.digest ? a.digest : ""; }
    ~MPair() { free(); }
    void free() { EVP_MAC_CTX_free(x); EVP_MAC_CTX_free(y); x = y = nullptr; }
    bool same(int s, int t, const char* what) { r.transitions(); good = good && r.check((s > 0) == (t > 0), "%s: %s, the software implementation %s", what, s > 0 ? "succeeds" : "fails", t > 0 ? "succeeds" : "fails") && s > 0; return good; }
    bool init(int km, unsigned salt, bool setmd) {
        auto kp = std::make_shared<KeyPar>(), ref = std::make_shared<KeyPar>();
        if (km >= 0) key = pattern(a.key, 500 + salt);
        if (km == HANDLE || km == OWNED) kp = std::make_shared<KeyPar>(keys.make(key, km == OWNED), km == OWNED);
        Blk m(Bytes(md.c_str(), md.c_str() + md.size() + 1)); const char* ciph = a.key == 16 ? "AES-128-CBC" : "AES-256-CBC";
        if (setmd && a.digest) { kp->add(OSSL_PARAM_construct_utf8_string("digest", (char*) m.p, 0)); ref->add(OSSL_PARAM_construct_utf8_string("digest", (char*) m.p, 0)); }
        if (!a.digest && km >= 0) ref->add(OSSL_PARAM_construct_utf8_string("cipher", (char*) ciph, 0));
        Blk kb(key);
        int s = EVP_MAC_init(x, km == RAW ? kb.p : nullptr, km == RAW ? key.size() : 0, kp->get()), t = EVP_MAC_init(y, km >= 0 ? kb.p : nullptr, km >= 0 ? key.size() : 0, ref->get());
        n = 0; fin = false;
        return same(s, t, "initialisation");
    }
    bool put(size_t l, bool null = false) { Blk b(pattern(l, 600 + (unsigned) n)); n += l; return same(EVP_MAC_update(x, null ? nullptr : b.p, l), EVP_MAC_update(y, null ? nullptr : b.p, l), "update"); }
    bool size() { size_t l = EVP_MAC_CTX_get_mac_size(x), m = EVP_MAC_CTX_get_mac_size(y), k = EVP_MAC_CTX_get_block_size(x), q = EVP_MAC_CTX_get_block_size(y); r.transitions(); return good = r.check(l == m, "the size of the MAC is %zu, expected %zu", l, m) && r.check(k == q, "block size %zu, expected %zu", k, q) && good; }
    bool query() { size_t l = 1, m = 2; if (!same(EVP_MAC_final(x, nullptr, &l, 0), EVP_MAC_final(y, nullptr, &m, 0), "size query")) return false; return good = r.check(l == m, "size %zu, expected %zu", l, m) && good; }
    bool finish(size_t extra = 0) { size_t z = EVP_MAC_CTX_get_mac_size(y) + extra; Blk o(z), q(z); size_t l = 99, m = 98; fin = true; if (!same(EVP_MAC_final(x, o.p, &l, o.n), EVP_MAC_final(y, q.p, &m, q.n), "final")) return false; r.traces(); return good = r.check(l == m, "final reports %zu bytes, expected %zu", l, m) && r.check(o.bytes() == q.bytes(), "MAC differs") && good; }
};
enum MOp { M0, M1, M7, M16, M64, M200, MN, MSIZE, MQ, MRAW, MHND, MOWN, MSAME, MMD, MMD2, MFIN, MFINX, NMOPS };
static const char* const MON[] = {"u0", "u1", "u7", "u16", "u64", "u200", "uNULL", "size", "query", "key", "key-handle", "key-owned", "again", "key+digest", "owned+digest", "final", "final-more-room"};
static void macs(Run& r) {
    for (auto& a : MALGS) for (int km = 0; km < NKM; km++) for (size_t n = 0; n <= 40; n++) for (size_t i = 0; i <= n; i++) {
        if (r.stop()) return;
        if (!r.take("%s %s %zu key=%s data=%zu+%zu", a.name, a.digest ? a.digest : "", a.key, KMN[km], i, n - i)) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() { MPair p(r, a); if (p.init(km, 0, true) && p.put(i) && p.put(n - i)) p.finish(); else r.fail("refused"); p.free(); p.keys.done(r); });
    }
    int depth = r.thorough ? 5 : 3;
    for (auto& a : MALGS) for (int km = 0; km < NKM; km++) {
        std::vector<int> h;
        std::function<void(bool)> rec = [&](bool finished) {
            if (r.stop()) return;
            if ((int) h.size() == depth) {
                std::string t; for (int o : h) t += std::string(" ") + MON[o];
                if (!r.take("%s %s %zu key=%s:%s", a.name, a.digest ? a.digest : "", a.key, KMN[km], t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    MPair p(r, a); unsigned salt = 0; bool ok = p.init(km, 0, true);
                    for (size_t i = 0; ok && i < h.size(); i++) switch (h[i]) {
                        case M0: ok = p.put(0); break; case M1: ok = p.put(1); break; case M7: ok = p.put(7); break; case M16: ok = p.put(16); break; case M64: ok = p.put(64); break; case M200: ok = p.put(200); break;
                        case MN: ok = p.put(0, true); break; case MSIZE: ok = p.size(); break; case MQ: ok = p.query(); break;
                        case MRAW: case MHND: case MOWN: ok = p.init(h[i] - MRAW, ++salt, false); break;
                        case MSAME: ok = p.init(-1, 0, false); break;
                        case MMD: case MMD2: p.md = OTHER_MD[i % 3]; ok = p.init(h[i] == MMD ? RAW : OWNED, ++salt, true); break;
                        case MFIN: ok = p.finish(); break; case MFINX: ok = p.finish(5); break;
                    }
                    if (ok && !p.fin) p.finish();
                    p.free(); p.keys.done(r);
                });
                return;
            }
            for (int o = 0; o < NMOPS; o++) {
                bool re = o >= MRAW && o <= MMD2;
                if (finished && !re) continue;
                if ((o == MMD || o == MMD2) && !a.digest) continue;
                h.push_back(o); rec(re ? false : finished || o == MFIN || o == MFINX); h.pop_back();
            }
        };
        rec(false);
    }
}
// contexts used before, during and after incomplete initialisations
static void mac_fresh(Run& r) {
    enum { INIT0, INITK, INITKD, SETD, SETK, UPD, FIN, SIZE, NFO };
    static const char* const N[] = {"init-nothing", "init-key", "init-key+digest", "set-digest", "set-key", "update", "final", "size"};
    int depth = r.thorough ? 5 : 4;
    for (auto nm : {"HMAC", "CMAC"}) { bool hm = nm[0] == 'H';
        std::vector<int> h;
        std::function<void()> rec = [&]() {
            if (r.stop()) return;
            if ((int) h.size() == depth) {
                std::string t; for (int o : h) t += std::string(" ") + N[o];
                if (!r.take("%s from a fresh context:%s", nm, t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; EVP_MAC_CTX* x = EVP_MAC_CTX_new(FETCH(EVP_MAC, true, nm)); Bytes key, data; bool running = false, digest = false; int nk = 0;
                    std::shared_ptr<KeyPar> kp;
                    auto dg = OSSL_PARAM_construct_utf8_string("digest", (char*) "SHA384", 0); OSSL_PARAM dp[] = {dg, OSSL_PARAM_construct_end()};
                    Bytes mk;
                    auto upd = [&]() { Blk b(pattern(5, 3)); bool ok = EVP_MAC_update(x, b.p, b.n) == 1; r.check(ok == running, ok ? "update of a context that is not started" : "update fails"); if (ok) data = cat({data, b.bytes()}); };
                    auto fin = [&]() { Blk o(hm ? 48 : 16); size_t l = 0; bool ok = EVP_MAC_final(x, o.p, &l, o.n) == 1; r.check(ok == running, ok ? "a MAC without a key" : "final fails"); if (ok && running) { r.traces(); r.check(l == o.n && o.bytes() == (hm ? ref_hmac("SHA384", mk, data) : ref_cmac(mk, data)), "wrong MAC"); } running = false; };
                    for (int o : h) { r.transitions(); switch (o) {
                        case INIT0: case INITK: case INITKD: { if (o != INIT0) key = pattern(32, 40 + ++nk); if (o == INITKD && hm) digest = true; bool can = !key.empty() && (digest || !hm); Blk b(key);
                            bool ok = EVP_MAC_init(x, o == INIT0 ? nullptr : b.p, o == INIT0 ? 0 : b.n, o == INITKD && hm ? dp : nullptr) == 1; r.check(ok == can, can ? "initialisation fails" : "initialised without a key or digest"); running = ok; mk = key; data.clear(); break; }
                        case SETD: if (hm && !running) { digest = true; r.check(EVP_MAC_CTX_set_params(x, dp) == 1, "digest refused"); } break;
                        case SETK: { key = pattern(32, 40 + ++nk); kp = std::make_shared<KeyPar>(keys.make(key, false), false); r.check(EVP_MAC_CTX_set_params(x, kp->get()) == 1, "key refused"); break; }
                        case UPD: upd(); break; case FIN: fin(); break;
                        case SIZE: { size_t l = EVP_MAC_CTX_get_mac_size(x); if (!hm || digest) r.check(l == (hm ? 48u : 16u), "the size of the MAC is %zu", l); break; } } }
                    if (running) { upd(); fin(); }
                    EVP_MAC_CTX_free(x); keys.done(r);
                });
                return;
            }
            for (int o = 0; o < NFO; o++) { if (!hm && (o == SETD || o == INITKD)) continue; h.push_back(o); rec(); h.pop_back(); }
        };
        rec(); }
}
static const char* const DALGS[] = {"SHA1", "SHA256", "SHA384", "SHA512"};
static void digests(Run& r) {
    // two contexts made by copying one at every point, then continued on their own
    for (auto d : DALGS) for (size_t n : {0, 1, 63, 64, 65, 130}) for (size_t at = 0; at <= n; at += (n > 8 && !r.thorough ? 7 : 1)) for (size_t e1 : {0, 3, 70}) for (int order = 0; order < 6; order++) {
        if (r.stop()) return;
        if (!r.take("%s of %zu bytes copied after %zu, copy continues with %zu, order %d", d, n, at, e1, order)) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() {
            Bytes m = pattern(n, 1), x = pattern(e1, 2), o; Blk a1(sub(m, 0, at)), a2(sub(m, at, n - at)), b(x);
            EVP_MD_CTX *c = EVP_MD_CTX_new(), *q = EVP_MD_CTX_new(); EVP_MD* md = FETCH(EVP_MD, true, d);
            if (!r.check(md && EVP_DigestInit_ex2(c, md, nullptr) == 1 && EVP_DigestUpdate(c, a1.p, a1.n) == 1 && EVP_MD_CTX_copy_ex(q, c) == 1, "refused")) { EVP_MD_CTX_free(c); EVP_MD_CTX_free(q); return; }
            auto fin = [&](EVP_MD_CTX* z, const Bytes& exp) { Blk out(exp.size()); unsigned l = 0; r.transitions(); r.check(EVP_DigestFinal_ex(z, out.p, &l) == 1 && l == exp.size() && out.bytes() == exp, "digest differs"); r.traces(); };
            Bytes e = ref_digest(d, m), f = ref_digest(d, cat({sub(m, 0, at), x}));
            auto A1 = [&]() { EVP_DigestUpdate(c, a2.p, a2.n); }; auto A2 = [&]() { fin(c, e); EVP_MD_CTX_free(c); }; auto B1 = [&]() { EVP_DigestUpdate(q, b.p, b.n); }; auto B2 = [&]() { fin(q, f); EVP_MD_CTX_free(q); };
            switch (order) { case 0: A1(); A2(); B1(); B2(); break; case 1: B1(); B2(); A1(); A2(); break; case 2: A1(); B1(); A2(); B2(); break; case 3: A1(); B1(); B2(); A2(); break; case 4: B1(); A1(); A2(); B2(); break; default: B1(); A1(); B2(); A2(); }
        });
    }
    // a context used again
    for (auto d : DALGS) for (auto d2 : DALGS) for (int fin = 0; fin < 2; fin++) {
        if (!r.take("%s context, %s, started again for %s", d, fin ? "finished" : "unfinished", d2)) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() {
            EVP_MD_CTX* c = EVP_MD_CTX_new(); uint8_t o[64]; unsigned l = 0; Bytes m = pattern(50, 3);
            EVP_DigestInit_ex2(c, FETCH(EVP_MD, true, d), nullptr); EVP_DigestUpdate(c, m.data(), 9); if (fin) EVP_DigestFinal_ex(c, o, &l);
            r.check(EVP_DigestInit_ex2(c, FETCH(EVP_MD, true, d2), nullptr) == 1 && EVP_DigestUpdate(c, m.data(), m.size()) == 1 && EVP_DigestFinal_ex(c, o, &l) == 1 && Bytes(o, o + l) == ref_digest(d2, m), "digest differs");
            r.transitions(3); r.traces(); EVP_MD_CTX_free(c);
        });
    }
}
