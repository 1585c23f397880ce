// C22: unwrapping yields exactly the wrapped key or nothing.
#include "anykey.hpp"
#include "gates.hpp"
using namespace mc;
enum { CHA = CHACHA, CHAP = CHAPOLY, NSYM = NCALG };
static const char* WN[] = {"ecb", "ecb-pkcs7", "cbc", "cbc-pkcs7", "ctr", "gcm", "chacha20", "chacha20-poly1305", "rsa-pkcs1", "rsa-oaep", "elgamal"};
static const sa_cipher_algorithm ALG[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL};
static bool aead(int w) { return w == GCM || w == CHAP; }
struct Wr { // a wrapping by a symmetric cipher
    int w; Bytes key, iv, aad, tag, ct; size_t iv_len = SIZE_MAX, aad_len = SIZE_MAX, tag_len = SIZE_MAX, nonce_len = SIZE_MAX; bool null_iv = false, null_aad = false, null_tag = false, null_nonce = false, null_params = false;
};
static Wr wrap(int w, const Bytes& key, const Bytes& plain, unsigned salt, bool pad = true) {
    Wr x; x.w = w; x.key = key; x.iv = pattern(w == GCM || w == CHAP ? 12 : 16, 500 + salt); std::string a = key.size() == 16 ? "AES-128-" : "AES-256-";
    if (aead(w)) { x.aad = pattern(salt % 40, 600 + salt); Aead r = ref_aead(w == GCM ? (a + "GCM").c_str() : "ChaCha20-Poly1305", true, key, x.iv, x.aad, plain, {}, 16); x.ct = r.out; x.tag = r.tag; if (x.aad.empty()) x.null_aad = true; return x; }
    x.ct = ref_cipher(w == CHA ? "ChaCha20" : (a + (w <= ECBP ? "ECB" : w <= CBCP ? "CBC" : "CTR")).c_str(), true, key, w <= ECBP ? Bytes() : x.iv, plain, pad && (w == ECBP || w == CBCP));
    return x;
}
struct Wrapper { Api& A; std::map<Bytes, sa_handle> m; explicit Wrapper(Api& a) : A(a) {} sa_handle get(const Bytes& b) { auto it = m.find(b); if (it != m.end()) return it->second; sa_handle h; mkkey(A, &h, b, rights_all()); return m[b] = h; } ~Wrapper() { for (auto& e : m) rel(A, K_KEY, e.second); } };
static sa_rights child() { sa_rights r = rights_all(); strcpy(r.id, "unwrapped"); return r; }
static sa_status unwrap(Api& A, sa_handle wk, const Wr& x, int type, int curve, sa_handle* k, bool null_type = false) {
    *k = 12345; sa_rights r = child(); Blk iv(x.iv), aad(x.aad), tag(x.tag), in(x.ct); sa_unwrap_type_parameters_ec te = {(sa_elliptic_curve) curve}; void* tp = type == SA_KEY_TYPE_EC && !null_type ? &te : nullptr;
    auto L = [](size_t v, size_t d) { return v == SIZE_MAX ? d : v; }; void *ip = x.null_iv ? nullptr : iv.p, *ap = x.null_aad ? nullptr : aad.p, *gp = x.null_tag ? nullptr : tag.p; void* q = nullptr;
    Blk nonce(x.w == CHA && x.iv.size() == 16 ? sub(x.iv, 4, 12) : Bytes()), counter(x.w == CHA && x.iv.size() == 16 ? sub(x.iv, 0, 4) : Bytes());
    sa_unwrap_parameters_aes_cbc pc = {ip, L(x.iv_len, x.iv.size())}; sa_unwrap_parameters_aes_ctr pt = {ip, L(x.iv_len, x.iv.size())};
    sa_unwrap_parameters_aes_gcm pg = {ip, L(x.iv_len, x.iv.size()), ap, L(x.aad_len, x.aad.size()), gp, L(x.tag_len, x.tag.size())};
    sa_unwrap_parameters_chacha20 ph = {x.null_iv ? nullptr : counter.p, L(x.iv_len, 4), x.null_nonce ? nullptr : nonce.p, L(x.nonce_len, 12)};
    sa_unwrap_parameters_chacha20_poly1305 pp = {ip, L(x.iv_len, x.iv.size()), ap, L(x.aad_len, x.aad.size()), gp, L(x.tag_len, x.tag.size())};
    switch (x.w) { case CBC: case CBCP: q = &pc; break; case CTR: q = &pt; break; case GCM: q = &pg; break; case CHA: q = &ph; break; case CHAP: q = &pp; break; }
    if (x.null_params) q = nullptr;
    return CALL(A, sa_key_unwrap, k, &r, (sa_key_type) type, tp, ALG[x.w], q, wk, in.p, in.n);
}
// nothing: no key and no handle
static bool nothing(Run& r, Api& A, sa_status s, const sa_handle& k, const char* what) {
    r.transitions(); r.beat(); if (s == SA_STATUS_OK) { rel(A, K_KEY, k); return r.check(false, "%s: a key was created", what); }
    return r.check(k == INVALID_HANDLE || k == 12345, "%s: %s but a handle %llx", what, sn(s), (unsigned long long) k);
}
static bool exactly(Run& r, Api& A, sa_status s, const sa_handle& k, const AnyKey& w, bool deep, const char* what) {
    r.transitions(); r.beat(); if (!r.check(s == SA_STATUS_OK, "%s: %s", what, sn(s))) return false;
    std::string e = ak_is(A, k, w, child(), deep); rel(A, K_KEY, k); r.state(hash(w.material.data(), w.material.size())); return r.check(e.empty(), "%s: %s", what, e.c_str());
}
static AnyKey symkey(const Bytes& b) { AnyKey k; k.type = SA_KEY_TYPE_SYMMETRIC; k.size = b.size(); k.material = b; return k; }
static bool either(Run& r, Api& A, sa_status s, const sa_handle& k, const AnyKey* w, const char* what) { return w ? exactly(r, A, s, k, *w, false, what) : nothing(r, A, s, k, what); }
static Bytes wkey(int w, int big) { return pattern(big || w >= CHA ? 32 : 16, 77); }
struct Free { Run& r; Api& A; sa_handle k; int n; Free(Run& r_, Api& a) : r(r_), A(a) { mkkey(A, &k, pattern(16, 1), rights_all()); n = slots_free(A, K_KEY, k); } ~Free() { r.check(slots_free(A, K_KEY, k) == n, "key slots lost: %d before", n); rel(A, K_KEY, k); } };
#define ENV(ta) env::reset(); env::caller = uuid_of(1); Session S(ta, uuid_of(1)); Api& A = S.A; Free fr(r, A); Wrapper P(A)
static void lengths(Run& r, bool ta, int w, int big) {
    ENV(ta); Bytes wk = wkey(w, big);
    for (size_t n = 0; n <= 640; n++) {
        Bytes plain = pattern(n, 9 + (unsigned) n); bool okn = n >= 16 && n <= 512;
        sa_handle k; std::string d = strf("%s: %zu byte key", WN[w], n);
        if (w == ECB || w == CBC) { Wr x = wrap(w, wk, pattern((n + 15) / 16 * 16, 3), 7); x.ct.resize(n); sa_status s = unwrap(A, P.get(wk), x, SA_KEY_TYPE_SYMMETRIC, 0, &k); AnyKey e = symkey(pattern(n, 3)); bool ok = okn && n % 16 == 0; if (ok) e.material = pattern((n + 15) / 16 * 16, 3); if (!either(r, A, s, k, ok ? &e : nullptr, d.c_str())) return; continue; }
        Wr x = wrap(w, wk, plain, (unsigned) n); sa_status s = unwrap(A, P.get(wk), x, SA_KEY_TYPE_SYMMETRIC, 0, &k); AnyKey e = symkey(plain);
        if (!either(r, A, s, k, okn ? &e : nullptr, d.c_str())) return;
        if ((w == ECBP || w == CBCP)) for (size_t cut : {1, 15}) { Wr y = x; y.ct.resize(y.ct.size() - cut); s = unwrap(A, P.get(wk), y, SA_KEY_TYPE_SYMMETRIC, 0, &k); if (!nothing(r, A, s, k, (d + " cut").c_str())) return; }
    }
    r.traces();
}
// every value of the last bytes of the last block
static void padding(Run& r, bool ta, int w, int big) {
    ENV(ta); Bytes wk = wkey(w, big);
    for (size_t blocks : {1, 2, 3, 33}) for (int last = 0; last < 256; last++) for (int bad = -1; bad < 16; bad++) for (int flip : {0x01, 0x80}) {
        if (bad >= 0 && !r.thorough && bad >= last + 2 && bad != 15) continue;
        if (bad < 0 && flip != 1) continue; if (!r.thorough && blocks > 2 && last > 18 && last % 16) continue;
        Bytes plain = pattern(blocks * 16, 21); for (int i = 0; i < std::min(last, 16); i++) plain[plain.size() - 1 - (size_t) i] = (uint8_t) last; plain.back() = (uint8_t) last; if (bad >= 0) plain[plain.size() - 1 - (size_t) bad] ^= (uint8_t) flip;
        uint8_t l = plain.back(); bool ok = l >= 1 && l <= 16; for (int i = 0; ok && i < l; i++) ok = plain[plain.size() - 1 - (size_t) i] == l;
        Wr x = wrap(w, wk, plain, 3, false); sa_handle k; sa_status s = unwrap(A, P.get(wk), x, SA_KEY_TYPE_SYMMETRIC, 0, &k);
        AnyKey e; if (ok) e = symkey(sub(plain, 0, plain.size() - l)); ok = ok && e.size >= 16 && e.size <= 512;
        if (!either(r, A, s, k, ok ? &e : nullptr, strf("%s: %zu blocks, last byte %d, byte %d changed by %d", WN[w], blocks, last, bad, flip).c_str())) return;
    }
    r.traces();
}
// altered authenticated data
static void forged(Run& r, bool ta, int w, int big, size_t n) {
    ENV(ta); Bytes wk = wkey(w, big); AnyKey e = symkey(pattern(n, 41)); Wr x = wrap(w, wk, e.material, 21); sa_handle k; sa_handle h = P.get(wk);
    auto good = [&]() { return exactly(r, A, unwrap(A, h, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, e, false, "unaltered"); };
    auto bad = [&](const Wr& y, const char* what, size_t at) { return nothing(r, A, unwrap(A, h, y, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, strf("%s of %zu bytes: %s %zu", WN[w], n, what, at).c_str()); };
    if (!good()) return; struct { const char* n; Bytes Wr::*f; } part[] = {{"tag bit", &Wr::tag}, {"ciphertext bit", &Wr::ct}, {"additional data bit", &Wr::aad}, {"nonce bit", &Wr::iv}};
    for (auto& p : part) for (size_t b = 0; b < (x.*p.f).size() * 8; b++) { Wr y = x; (y.*p.f)[b / 8] ^= (uint8_t) (1 << b % 8); if (!bad(y, p.n, b)) return; }
    if (!good()) return;
    for (size_t t = 0; t < 40; t++) { // tag of another length: only a correct prefix may be taken
        Wr y = x; y.tag = pattern(t, 3); for (size_t i = 0; i < t && i < 16; i++) y.tag[i] = x.tag[i]; sa_status s = unwrap(A, h, y, SA_KEY_TYPE_SYMMETRIC, 0, &k);
        if (t == 16) { if (!exactly(r, A, s, k, e, false, "tag")) return; } else if (t == 0 || t > 16 || w == CHAP) { if (!nothing(r, A, s, k, strf("tag of %zu bytes", t).c_str())) return; } else if (s == SA_STATUS_OK && !exactly(r, A, s, k, e, false, "shorter tag")) return;
        if (t && t <= 16) for (size_t b = 0; b < t * 8; b += 7) { Wr z = y; z.tag[b / 8] ^= (uint8_t) (1 << b % 8); if (!bad(z, "bit of a shorter tag", b)) return; }
    }
    for (size_t c = 0; c <= x.ct.size(); c++) { Wr y = x; y.ct.resize(c); if (c < x.ct.size() && !bad(y, "truncated to", c)) return; y = x; y.ct.insert(y.ct.begin() + (long) c, 0x11); if (!bad(y, "byte inserted at", c)) return; }
    for (size_t c = 0; c <= x.aad.size(); c++) { Wr y = x; y.aad.resize(c); if (c < x.aad.size() && !bad(y, "additional data cut to", c)) return; y = x; y.aad.insert(y.aad.begin() + (long) c, 0x11); if (!bad(y, "additional data grown at", c)) return; }
    { Wr y = x; y.tag = Bytes(16, 0); bad(y, "zero tag", 0); y = x; y.null_aad = true; bad(y, "no additional data", 0); y = x; y.null_aad = true; y.aad_len = 0; bad(y, "dropped additional data", 0); y = x; y.key = wk; std::swap(y.tag[0], y.tag[1]); bad(y, "swapped tag", 0); }
    { Bytes other = wkey(w, big); other[0] ^= 1; nothing(r, A, unwrap(A, P.get(other), x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, "other wrapping key"); }
    good(); r.traces();
}
static void params(Run& r, bool ta, int w) {
    ENV(ta); Bytes wk = wkey(w, 0); AnyKey e = symkey(pattern(32, 41)); Wr x = wrap(w, wk, e.material, 21); sa_handle k; sa_handle h = P.get(wk); if (aead(w) && x.aad.empty()) return;
    auto good = [&]() { return exactly(r, A, unwrap(A, h, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, e, false, "correct parameters"); };
    auto bad = [&](const Wr& y, const char* what, size_t at) { return nothing(r, A, unwrap(A, h, y, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, strf("%s: %s %zu", WN[w], what, at).c_str()) && good(); };
    if (!good()) return;
    if (w > ECBP) {
        size_t want = w == CHA ? 4 : x.iv.size();
        for (size_t n = 0; n <= want; n++) if (n != want) { Wr y = x; y.iv_len = n; if (!bad(y, "iv length", n)) return; }
        if (w != CHA) for (size_t n = 0; n <= 40; n++) if (n != want) { Wr y = x; y.iv = pattern(n, 3); if (!bad(y, "iv of", n)) return; }
        if (w == CHA) for (size_t n = 0; n < 12; n++) { Wr y = x; y.nonce_len = n; if (!bad(y, "nonce length", n)) return; }
        { Wr y = x; y.null_iv = true; bad(y, "no iv", 0); y = x; y.null_params = true; bad(y, "no parameters", 0); }
        if (w == CHA) { Wr y = x; y.null_nonce = true; bad(y, "no nonce", 0); }
        if (aead(w)) { Wr y = x; y.null_tag = true; bad(y, "no tag", 0); y = x; y.null_aad = true; bad(y, "no aad", 0); }
    }
    sa_rights rt = child(); Blk in(x.ct);
    for (int t = -2; t < 300; t++) if (t != SA_KEY_TYPE_SYMMETRIC && t != SA_KEY_TYPE_EC && t != SA_KEY_TYPE_RSA) { if (!nothing(r, A, unwrap(A, h, x, t, 0, &k), k, strf("key type %d", t).c_str()) || !good()) return; }
    if (!nothing(r, A, unwrap(A, h, x, SA_KEY_TYPE_EC, 0, &k, true), k, "EC without parameters")) return;
    for (int a = -3; a < 300; a++) if (a < 0 || a > SA_CIPHER_ALGORITHM_EC_ELGAMAL + 0) { bool known = false; for (auto v : ALG) known |= (int) v == a; if (known) continue; k = 12345; sa_status s = CALL(A, sa_key_unwrap, &k, &rt, SA_KEY_TYPE_SYMMETRIC, nullptr, (sa_cipher_algorithm) a, nullptr, h, in.p, in.n); if (!nothing(r, A, s, k, strf("algorithm %d", a).c_str())) return; }
    k = 12345; nothing(r, A, CALL(A, sa_key_unwrap, &k, nullptr, SA_KEY_TYPE_SYMMETRIC, nullptr, ALG[w], nullptr, h, in.p, in.n), k, "no rights");
    { sa_rights b = rt; memset(b.id, 'x', sizeof b.id); k = 12345; Wr y = x; sa_status s; Blk iv(x.iv); sa_unwrap_parameters_aes_cbc pc = {iv.p, iv.n}; if (w <= CTR) { s = CALL(A, sa_key_unwrap, &k, &b, SA_KEY_TYPE_SYMMETRIC, nullptr, ALG[w], w <= ECBP ? nullptr : &pc, h, in.p, in.n); nothing(r, A, s, k, "unterminated rights"); } }
    { sa_rights b = rt; k = 12345; nothing(r, A, CALL(A, sa_key_unwrap, &k, &b, SA_KEY_TYPE_SYMMETRIC, nullptr, ALG[w], nullptr, h, nullptr, (size_t) 32), k, "no input"); }
    for (auto& wrong : {pattern(16, 5), pattern(17, 5), pattern(24, 5), pattern(31, 5), pattern(32, 5), pattern(33, 5), pattern(64, 5)}) { bool fits = w >= CHA ? wrong.size() == 32 : wrong.size() == 16 || wrong.size() == 32; if (fits) continue; if (!nothing(r, A, unwrap(A, P.get(wrong), x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, strf("wrapping key of %zu bytes", wrong.size()).c_str())) return; }
    for (int t = 0; t < 3; t++) { AnyKey o = t == 0 ? k_rsa(128) : t == 1 ? k_ec(0) : k_dh(); sa_handle oh; ak_make(A, &oh, o, rights_all()); nothing(r, A, unwrap(A, oh, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, "wrapping key of another type"); rel(A, K_KEY, oh); }
    nothing(r, A, unwrap(A, INVALID_HANDLE, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, "no wrapping key"); nothing(r, A, unwrap(A, 255, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, "free wrapping key"); good(); r.traces();
}
static const int NCURVE = SA_ELLIPTIC_CURVE_X448 + 1;
static Bytes fit(int w, const Bytes& m) { Bytes o = m; if (w == ECB || w == CBC) o.resize((o.size() + 15) / 16 * 16); return o; }
// asymmetric keys: right type, wrong types and curves, truncations and changes
static void asym(Run& r, bool ta, int w, int which) {
    AnyKey e = which < NCURVE ? k_ec(which) : k_rsa(128u << (which - NCURVE == 3 ? 2 : which - NCURVE == 2 ? 1 : which - NCURVE)); if (which - NCURVE == 2) e = k_rsa(384); if (which - NCURVE == 3) e = k_rsa(512);
    if (e.type == SA_KEY_TYPE_EC && !e.pk) return; ENV(ta); Bytes wk = wkey(w, 0); sa_handle h = P.get(wk), k; Wr x = wrap(w, wk, fit(w, e.material), 21);
    if (!exactly(r, A, unwrap(A, h, x, e.type, e.curve, &k), k, e, true, e.name.c_str())) return;
    for (int c = -1; c < 300; c++) if (e.type == SA_KEY_TYPE_RSA || c != e.curve) { if (!nothing(r, A, unwrap(A, h, x, SA_KEY_TYPE_EC, c, &k), k, strf("%s as curve %d", e.name.c_str(), c).c_str())) return; }
    if (e.type == SA_KEY_TYPE_EC) nothing(r, A, unwrap(A, h, x, SA_KEY_TYPE_RSA, 0, &k), k, "EC as RSA");
    Bytes m = fit(w, e.material); AnyKey sy = symkey(m); either(r, A, unwrap(A, h, x, SA_KEY_TYPE_SYMMETRIC, 0, &k), k, m.size() <= 512 && m.size() >= 16 ? &sy : nullptr, "as symmetric");
    bool full = r.thorough || (w == CTR && e.size <= 128); // quick: all of it under one cipher, the largest keys more coarsely
    size_t step = w == ECB || w == CBC ? 16 : 1; // every truncation
    for (size_t n = 0; n < e.material.size(); n += step) { if (!full && n > 40 && n + 20 < e.material.size() && n % 16 > 1) continue; Wr y = wrap(w, wk, sub(e.material, 0, n), 21); if (!nothing(r, A, unwrap(A, h, y, e.type, e.curve, &k), k, strf("%s cut to %zu", e.name.c_str(), n).c_str())) return; }
    for (size_t n = 1; n <= 20; n++) { Bytes t = fit(w, e.material); t.resize(t.size() + n * step, 0x5a); Wr y = wrap(w, wk, t, 21); sa_status s = unwrap(A, h, y, e.type, e.curve, &k); r.transitions(); if (s == SA_STATUS_OK && !exactly(r, A, s, k, e, false, "with trailing bytes")) return; } // may be refused or be that key
    for (size_t i = 0; i < e.material.size(); i++) for (int f : {0x01, 0x80, 0xff}) { // one byte changed: nothing, or the key that encodes
        if (!r.thorough && f != 0x01 && i > 40) continue; if (!full && i > 30 && i % 16) continue; Bytes t = e.material; t[i] ^= (uint8_t) f; Wr y = wrap(w, wk, fit(w, t), 21); sa_status s = unwrap(A, h, y, e.type, e.curve, &k); r.transitions(); r.beat();
        if (s != SA_STATUS_OK) { if (!nothing(r, A, s, k, "changed byte")) return; continue; }
        const uint8_t* p = t.data(); PKCS8_PRIV_KEY_INFO* pi = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long) t.size()); EVP_PKEY* pk = pi ? EVP_PKCS82PKEY(pi) : nullptr; PKCS8_PRIV_KEY_INFO_free(pi); ERR_clear_error();
        if (!r.check(pk != nullptr, "%s with byte %zu changed is a key", e.name.c_str(), i)) { rel(A, K_KEY, k); return; }
        AnyKey o = e; o.pub = pkey_pub_der(pk); EVP_PKEY_free(pk); ERR_clear_error(); sa_header hd; CALL(A, sa_key_header, &hd, k); o.size = hd.size; if (e.type == SA_KEY_TYPE_EC) o.size = e.size;
        if (!exactly(r, A, s, k, o, false, strf("%s with byte %zu changed by %d", e.name.c_str(), i, f).c_str())) return; }
    exactly(r, A, unwrap(A, h, x, e.type, e.curve, &k), k, e, false, "again"); r.traces();
}
// several layers: each key unwraps the next
static void layers(Run& r, bool ta, int w1, int w2) {
    ENV(ta); Bytes k0 = wkey(w1, 0);
    for (int w3 = 0; w3 < NSYM; w3++) for (int kind = 0; kind < 3; kind++) {
        Bytes k1 = pattern(w2 >= CHA ? 32 : 16, 51), k2 = pattern(w3 >= CHA ? 32 : 16, 52); AnyKey last = kind == 0 ? symkey(pattern(48, 53)) : kind == 1 ? k_ec(0, 1) : k_rsa(128);
        sa_handle h1, h2, h3; Wr a = wrap(w1, k0, k1, 20), b = wrap(w2, k1, k2, 22), c = wrap(w3, k2, fit(w3, last.material), 23);
        if (!r.check(unwrap(A, P.get(k0), a, SA_KEY_TYPE_SYMMETRIC, 0, &h1) == SA_STATUS_OK, "layer 1")) return; sa_status s2 = unwrap(A, h1, b, SA_KEY_TYPE_SYMMETRIC, 0, &h2); rel(A, K_KEY, h1); if (!r.check(s2 == SA_STATUS_OK, "layer 2: %s", sn(s2))) return;
        sa_status s3 = unwrap(A, h2, c, last.type, last.curve, &h3); rel(A, K_KEY, h2); if (!exactly(r, A, s3, h3, last, true, strf("%s in %s in %s", WN[w3], WN[w2], WN[w1]).c_str())) return;
    }
    // an unwrapped RSA key unwraps the next
    AnyKey rk = k_rsa(256); Wr a = wrap(w1, k0, fit(w1, rk.material), 20); sa_handle h1, h2; Bytes k1 = pattern(w2 >= CHA ? 32 : 16, 51); if (!r.check(unwrap(A, P.get(k0), a, SA_KEY_TYPE_RSA, 0, &h1) == SA_STATUS_OK, "wrapped RSA key")) return;
    Blk ct(rsa_enc(256, false, k1)); sa_rights rt = child(); sa_status s = CALL(A, sa_key_unwrap, &h2, &rt, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, nullptr, h1, ct.p, ct.n); rel(A, K_KEY, h1); if (!r.check(s == SA_STATUS_OK, "RSA layer: %s", sn(s))) return;
    AnyKey last = symkey(pattern(32, 54)); Wr c = wrap(w2, k1, last.material, 24); exactly(r, A, unwrap(A, h2, c, SA_KEY_TYPE_SYMMETRIC, 0, &h1), h1, last, false, "below RSA"); rel(A, K_KEY, h2); r.traces();
}
// RSA
struct O { int d = 1, m = 1; Bytes label; bool null_label = false, null_params = false; size_t label_len = SIZE_MAX; };
static Bytes rsa_wrap(size_t ks, bool oaep, const O& o, const Bytes& m) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(rsa_pkey(ks), nullptr); EVP_PKEY_encrypt_init(x); EVP_PKEY_CTX_set_rsa_padding(x, oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING);
    if (oaep) { EVP_PKEY_CTX_set_rsa_oaep_md(x, EVP_get_digestbyname(dname(o.d))); EVP_PKEY_CTX_set_rsa_mgf1_md(x, EVP_get_digestbyname(dname(o.m))); if (!o.label.empty()) EVP_PKEY_CTX_set0_rsa_oaep_label(x, OPENSSL_memdup(o.label.data(), o.label.size()), (int) o.label.size()); }
    Bytes ct(ks); size_t n = ks; static uint8_t z; if (EVP_PKEY_encrypt(x, ct.data(), &n, m.empty() ? &z : m.data(), m.size()) != 1) ct.clear(); EVP_PKEY_CTX_free(x); ERR_clear_error(); return ct;
}
static bool ref_rsa_dec(size_t ks, const Bytes& ct, Bytes* m) { EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(rsa_pkey(ks), nullptr); EVP_PKEY_decrypt_init(x); EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING); m->resize(ks); size_t n = ks; bool ok = EVP_PKEY_decrypt(x, m->data(), &n, ct.data(), ct.size()) == 1; EVP_PKEY_CTX_free(x); ERR_clear_error(); if (ok) m->resize(n); return ok; }
static sa_status rsa_unwrap(Api& A, sa_handle h, bool oaep, const O& o, const Bytes& ct, sa_handle* k, int type = SA_KEY_TYPE_SYMMETRIC) { *k = 12345; sa_rights rt = child(); Blk in(ct), lb(o.label); sa_unwrap_parameters_rsa_oaep p = {(sa_digest_algorithm) o.d, (sa_digest_algorithm) o.m, o.null_label || o.label.empty() ? nullptr : lb.p, o.label_len == SIZE_MAX ? lb.n : o.label_len}; return CALL(A, sa_key_unwrap, k, &rt, (sa_key_type) type, nullptr, oaep ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15, oaep && !o.null_params ? &p : nullptr, h, in.p, in.n); }
static void rsa(Run& r, bool ta, bool oaep, size_t ks, int d, int m) {
    ENV(ta); AnyKey w = k_rsa(ks); sa_handle h, k; ak_make(A, &h, w, rights_all()); O o; o.d = d; o.m = m; o.label = pattern((size_t) (d * 4 + m), 9); size_t room = oaep ? ks < 2 * dlen(d) + 2 ? 0 : ks - 2 * dlen(d) - 2 : ks - 11;
    for (size_t n = 0; n <= room; n++) { if (ks > 128 && !r.thorough && n > 34 && n + 3 < room && n % 37 && (n < 510 || n > 514)) continue; Bytes p = pattern(n, 31); Bytes ct = rsa_wrap(ks, oaep, o, p); if (ct.empty()) continue; AnyKey e = symkey(p); if (!either(r, A, rsa_unwrap(A, h, oaep, o, ct, &k), k, n >= 16 && n <= 512 ? &e : nullptr, strf("%zu byte key", n).c_str())) { rel(A, K_KEY, h); return; } }
    if (room >= 16) {
        AnyKey e = symkey(pattern(16, 31)); Bytes ct = rsa_wrap(ks, oaep, o, e.material); auto good = [&] { return exactly(r, A, rsa_unwrap(A, h, oaep, o, ct, &k), k, e, false, "unaltered"); };
        auto bad = [&](const Bytes& c, const O& q, const char* what, size_t at) { return nothing(r, A, rsa_unwrap(A, h, oaep, q, c, &k), k, strf("%s %zu", what, at).c_str()); }; good();
        for (size_t n = 0; n <= ks + 20; n++) { if (n == ks || (!r.thorough && ks > 128 && n % 29 && n + 2 < ks)) continue; Bytes c = ct; c.resize(n, 0x33); if (!bad(c, o, "length", n)) break; }
        for (size_t b = 0; b < ks * 8; b += r.thorough || (ks == 128 && d == m && ta) ? 1 : 37) { Bytes c = ct; c[b / 8] ^= (uint8_t) (1 << b % 8); if (oaep) { if (!bad(c, o, "bit", b)) break; } else { Bytes got; bool ok = ref_rsa_dec(ks, c, &got) && got.size() >= 16 && got.size() <= 512; AnyKey g; if (ok) g = symkey(got); if (!either(r, A, rsa_unwrap(A, h, oaep, o, c, &k), k, ok ? &g : nullptr, strf("bit %zu", b).c_str())) break; } }
        if (oaep) bad(Bytes(ks, 0), o, "zero", 0); bad(Bytes(ks, 0xff), o, "ones", 0); for (int t = -1; t < 10; t++) if (t != SA_KEY_TYPE_SYMMETRIC) nothing(r, A, rsa_unwrap(A, h, oaep, o, ct, &k, t), k, strf("type %d", t).c_str());
        if (oaep) { for (int dd = -1; dd < 40; dd++) for (int mm = -1; mm < 40; mm++) if ((dd != d || mm != m) && (ks == 128 ? dd < 5 || mm < 5 : dd < 5 && mm < 5)) { O q = o; q.d = dd; q.m = mm; if (!bad(ct, q, "digests", (size_t) (dd * 100 + mm))) goto out; }
            for (size_t n = 0; n <= 20; n++) if (n != o.label.size()) { O q = o; q.label = pattern(n, 9); if (!bad(ct, q, "label of", n)) break; } for (size_t b = 0; b < o.label.size() * 8; b++) { O q = o; q.label[b / 8] ^= (uint8_t) (1 << b % 8); if (!bad(ct, q, "label bit", b)) break; }
            if (ks == 128 || r.thorough) for (size_t n : {127, 128, 255, 256, 257, 300, 4096, 65535, 65536, 65537}) { O L = o; L.label = pattern(n, 12); Bytes c = rsa_wrap(ks, true, L, e.material); if (!exactly(r, A, rsa_unwrap(A, h, true, L, c, &k), k, e, false, strf("label of %zu", n).c_str())) break; for (size_t m : {n & 255, n & 65535, n - 1, n - 128}) if (m < n) { O q = L; q.label.resize(m); bad(c, q, "cut label", m); } for (size_t b : {(size_t) 0, n / 2, n - 1}) { O q = L; q.label[b] ^= 1; bad(c, q, "label byte", b); } }
            { O q = o; q.null_params = true; bad(ct, q, "no parameters", 0); q = o; q.null_label = true; q.label_len = 3; bad(ct, q, "no label but a length", 3); } } 
        good(); }
out: rel(A, K_KEY, h); r.traces();
}
static void elgamal(Run& r, bool ta, int c) {
    if (!ec_pkey(c)) return; ENV(ta); AnyKey w = k_ec(c); sa_handle h, k; ak_make(A, &h, w, rights_all()); size_t n = curve_size(c); bool nist = curve_is_nist(c); Bytes x, ct = nist ? elg_enc(c, 5, x) : pattern(4 * n, 3);
    auto call = [&](const Bytes& in, size_t off, size_t len, int type = SA_KEY_TYPE_SYMMETRIC, bool np = false) { k = 12345; sa_rights rt = child(); Blk b(in); sa_unwrap_parameters_ec_elgamal p = {off, len}; return CALL(A, sa_key_unwrap, &k, &rt, (sa_key_type) type, nullptr, SA_CIPHER_ALGORITHM_EC_ELGAMAL, np ? nullptr : &p, h, b.p, b.n); };
    auto one = [&](size_t off, size_t len) { bool ok = nist && len >= 16 && len <= n && off <= n - len; AnyKey e; if (ok) e = symkey(sub(x, off, len)); return either(r, A, call(ct, off, len), k, ok ? &e : nullptr, strf("%s offset %zu length %zu", w.name.c_str(), off, len).c_str()); };
    for (size_t off = 0; off <= n + 2; off++) for (size_t len = 0; len <= n + 3; len++) { if (!r.thorough && off > 3 && len > 18 && off + len < n - 1 && (off + len) % 5) continue; if (!r.thorough && (len < 15) && off % 7) continue; if (!one(off, len)) { rel(A, K_KEY, h); return; } }
    for (size_t a : {SIZE_MAX, SIZE_MAX - 15, SIZE_MAX - 16, (size_t) 1 << 32, (size_t) 1 << 63}) { one(a, 16); one(0, a); one(16, a); one(a, a); one(a, (size_t) 0 - a + 16); }
    for (size_t l = 0; l <= 4 * n + 20; l++) if (l != 4 * n) { Bytes d = ct; d.resize(l, 7); if (!nothing(r, A, call(d, 0, 16), k, strf("%zu bytes", l).c_str())) break; }
    if (nist) {
        for (size_t b = 0; b < ct.size() * 8; b += r.thorough ? 1 : ta ? 5 : 13) { Bytes d = ct; d[b / 8] ^= (uint8_t) (1 << b % 8); if (!nothing(r, A, call(d, 0, 16), k, strf("bit %zu", b).c_str())) break; } // no point of the curve
        nothing(r, A, call(Bytes(4 * n, 0), 0, 16), k, "zero"); nothing(r, A, call(Bytes(4 * n, 0xff), 0, 16), k, "ones"); Bytes d = ct; memset(d.data() + 2 * n, 0, 2 * n); nothing(r, A, call(d, 0, 16), k, "second point zero"); d = ct; memset(d.data(), 0, 2 * n); nothing(r, A, call(d, 0, 16), k, "first point zero");
        // C2 equal to the shared secret: the message is the point at infinity
        EC_GROUP* g = EC_GROUP_new_by_curve_name(EC_curve_nist2nid(curve_name(c))); BIGNUM *kk = BN_new(), *X = BN_new(), *Y = BN_new(); BN_set_word(kk, 77); EC_POINT *C1 = EC_POINT_new(g), *C2 = EC_POINT_new(g); EC_POINT_mul(g, C1, kk, nullptr, nullptr, nullptr); EC_POINT_mul(g, C2, nullptr, EC_KEY_get0_public_key(EVP_PKEY_get0_EC_KEY(ec_pkey(c))), kk, nullptr);
        d.assign(4 * n, 0); EC_POINT_get_affine_coordinates(g, C1, X, Y, nullptr); BN_bn2binpad(X, &d[0], (int) n); BN_bn2binpad(Y, &d[n], (int) n); EC_POINT_get_affine_coordinates(g, C2, X, Y, nullptr); BN_bn2binpad(X, &d[2 * n], (int) n); BN_bn2binpad(Y, &d[3 * n], (int) n); nothing(r, A, call(d, 0, 16), k, "message at infinity");
        EC_POINT_free(C1); EC_POINT_free(C2); BN_free(kk); BN_free(X); BN_free(Y); EC_GROUP_free(g); ERR_clear_error(); }
    for (int t = -1; t < 10; t++) if (t != SA_KEY_TYPE_SYMMETRIC) nothing(r, A, call(ct, 0, 16, t), k, strf("type %d", t).c_str());
    nothing(r, A, call(ct, 0, 16, SA_KEY_TYPE_SYMMETRIC, true), k, "no parameters"); one(0, 16); rel(A, K_KEY, h); r.traces();
}
#define T(...) (!r.stop() && r.take(__VA_ARGS__) && (r.nontrivial(hash(r.current())), true))
static void explore(Run& r) {
    for (bool ta : {true, false}) { const char* a = ta ? "ta" : "api";
        for (int k = 0; k < 4; k++) { if (ta || r.thorough || k == 0) for (int d = 0; d < 4; d++) for (int m = 0; m < 4; m++) if (T("%s oaep %d digests %d %d", a, k, d, m)) rsa(r, ta, true, k == 0 ? 128 : k == 1 ? 256 : k == 2 ? 384 : 512, d, m); if (T("%s pkcs1 %d", a, k)) rsa(r, ta, false, k == 0 ? 128 : k == 1 ? 256 : k == 2 ? 384 : 512, 0, 0); }
        for (int w = 0; w < NSYM; w++) for (int k = 0; k < NCURVE + 4; k++) if ((ta || r.thorough || ((w + k) % 8 == 0 && k < NCURVE)) && T("%s %s asymmetric key %d", a, WN[w], k)) asym(r, ta, w, k);
        for (int c = 0; c < NCURVE; c++) if (T("%s elgamal curve %d", a, c)) elgamal(r, ta, c);
        for (int w = 0; w < NSYM; w++) for (int big = 0; big < (w < CHA ? 2 : 1); big++) {
            if (T("%s %s lengths %d", a, WN[w], big)) lengths(r, ta, w, big);
            if ((w == ECBP || w == CBCP) && T("%s %s padding %d", a, WN[w], big)) padding(r, ta, w, big);
            if (aead(w)) for (size_t n : {16, 17, 31, 32, 33, 512}) if (T("%s %s forged %d %zu", a, WN[w], big, (size_t) n)) forged(r, ta, w, big, n);
        }
        for (int w = 0; w < NSYM; w++) { if (T("%s %s parameters", a, WN[w])) params(r, ta, w); for (int v = 0; v < NSYM; v++) if (T("%s layers %d %d", a, w, v)) layers(r, ta, w, v); }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C22";
    s.rule = "Through the trusted and the client API: wrapped symmetric keys of every length 0 to 640 for each of eight symmetric wrapping ciphers and key size; every last padding byte with each of the padding bytes changed; every bit of tag, ciphertext, additional data and nonce changed, every truncation, insertion and tag length; EC keys of every curve and RSA keys of four sizes under every cipher, declared as every type and every curve number -1 to 299, with every truncation and every byte changed; RSA wrapping of every message length, all digest pairs (right and wrong), labels, ciphertext lengths and bits; ElGamal over every curve with every offset and length, input length, changed bit and degenerate point; every chain of three ciphers; every malformed parameter. After each refusal no slot is lost. The material is compared by digest, public key, signature and shared secret. Non-trivial: distinct families.";
    s.assumptions = {"bytes after a complete private key encoding may be ignored or refused", "tags of 1 to 15 bytes may be refused; if taken they must be a correct prefix", "a PKCS#1 v1.5 ciphertext that OpenSSL itself decrypts counts as valid"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
