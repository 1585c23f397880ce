// C18: signatures against independent verification, for every algorithm, digest, salt length, length and buffer size.
#include "anykey.hpp"
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); Session S(ta, uuid_of(1)); Api& A = S.A
enum Alg { PKCS, PSS, ECDSA_, EDDSA_ };
static const char* AN[] = {"pkcs1", "pss", "ecdsa", "eddsa"};
struct P { int alg; int md = 1, mgf = 1; size_t salt = 0; bool pre = false; };
static const EVP_MD* md_of(int d) { switch (d) { case 0: return EVP_sha1(); case 1: return EVP_sha256(); case 2: return EVP_sha384(); default: return EVP_sha512(); } }
static std::string pd(const P& p) { return strf("%s digest %d mgf %d salt %zu%s", AN[p.alg], p.md, p.mgf, p.salt, p.pre ? " precomputed" : ""); }
static sa_status do_sign(Api& A, const P& p, const sa_handle& k, void* out, size_t* n, const void* in, size_t len) {
    sa_sign_parameters_rsa_pkcs1v15 a = {(sa_digest_algorithm) p.md, p.pre}; sa_sign_parameters_rsa_pss b = {(sa_digest_algorithm) p.md, (sa_digest_algorithm) p.mgf, p.pre, p.salt}; sa_sign_parameters_ecdsa c = {(sa_digest_algorithm) p.md, p.pre};
    void* q = p.alg == PKCS ? (void*) &a : p.alg == PSS ? (void*) &b : p.alg == ECDSA_ ? (void*) &c : nullptr;
    return CALL(A, sa_crypto_sign, out, n, (sa_signature_algorithm) p.alg, k, in, len, q);
}
// independent verification; for precomputed digests `in` is the digest itself
static bool verify(const P& p, EVP_PKEY* pk, size_t ksz, const Bytes& sig, const Bytes& in) {
    bool ok = false;
    if (p.alg == EDDSA_) { EVP_MD_CTX* c = EVP_MD_CTX_new(); ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, pk) == 1 && EVP_DigestVerify(c, sig.data(), sig.size(), in.data(), in.size()) == 1; EVP_MD_CTX_free(c); ERR_clear_error(); return ok; }
    Bytes dg = p.pre ? in : ref_digest(dname(p.md), in), s = sig;
    if (p.alg == ECDSA_) { if (sig.size() != 2 * ksz) return false; BIGNUM *x = BN_bin2bn(sig.data(), (int) ksz, nullptr), *y = BN_bin2bn(sig.data() + ksz, (int) ksz, nullptr); ECDSA_SIG* q = ECDSA_SIG_new(); ECDSA_SIG_set0(q, x, y); uint8_t* o = nullptr; int l = i2d_ECDSA_SIG(q, &o); s.assign(o, o + l); OPENSSL_free(o); ECDSA_SIG_free(q); }
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr); EVP_PKEY_verify_init(c);
    if (p.alg == PKCS) EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING);
    if (p.alg == PSS) EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING);
    EVP_PKEY_CTX_set_signature_md(c, md_of(p.md));
    if (p.alg == PSS) { EVP_PKEY_CTX_set_rsa_mgf1_md(c, md_of(p.mgf)); EVP_PKEY_CTX_set_rsa_pss_saltlen(c, (int) p.salt); }
    ok = EVP_PKEY_verify(c, s.data(), s.size(), dg.data(), dg.size()) == 1; EVP_PKEY_CTX_free(c); ERR_clear_error(); return ok;
}
struct Key { sa_handle h = INVALID_HANDLE; AnyKey k; EVP_PKEY* pub = nullptr; size_t want[4] = {0, 0, 0, 0}; ~Key() { EVP_PKEY_free(pub); } }; // want: signature size, 0 if the combination is not supported
static bool mk(Run& r, Api& A, Key& K, const std::string& n) { // "rsa-128", "ec-0", "gen-rsa-128", "gen-ec-0", "sym", "dh"
    sa_rights rt = rights_all(); sa_status s; bool gen = n.rfind("gen-", 0) == 0; std::string b = gen ? n.substr(4) : n; int v = b.find('-') == std::string::npos ? 0 : atoi(b.substr(b.find('-') + 1).c_str());
    if (b[0] == 's') { K.k = k_sym(32); } else if (b[0] == 'd') K.k = k_dh(); else if (b[0] == 'r') K.k = k_rsa((size_t) v); else { K.k = k_ec(v); if (!K.k.pk) return false; }
    if (!gen) s = ak_make(A, &K.h, K.k, rt);
    else if (b[0] == 'r') { sa_generate_parameters_rsa q = {(size_t) v}; s = CALL(A, sa_key_generate, &K.h, &rt, SA_KEY_TYPE_RSA, &q); }
    else { sa_generate_parameters_ec q = {(sa_elliptic_curve) v}; s = CALL(A, sa_key_generate, &K.h, &rt, SA_KEY_TYPE_EC, &q); }
    if (!r.check(s == SA_STATUS_OK, "key %s: %s", n.c_str(), sn(s))) return false;
    if (K.k.type != SA_KEY_TYPE_SYMMETRIC) { uint8_t buf[1024]; size_t len = sizeof buf; s = CALL(A, sa_key_get_public, buf, &len, K.h); const uint8_t* q = buf; K.pub = s == SA_STATUS_OK ? d2i_PUBKEY(nullptr, &q, (long) len) : nullptr; if (!r.check(K.pub != nullptr, "key %s: no public key: %s", n.c_str(), sn(s))) return false; if (!gen && K.k.type != SA_KEY_TYPE_DH && !r.check(EVP_PKEY_eq(K.pub, K.k.pk) == 1, "key %s: other public key", n.c_str())) return false; }
    if (K.k.type == SA_KEY_TYPE_RSA) K.want[PKCS] = K.want[PSS] = K.k.size;
    if (K.k.type == SA_KEY_TYPE_EC && curve_is_nist(K.k.curve)) K.want[ECDSA_] = 2 * K.k.size;
    if (K.k.type == SA_KEY_TYPE_EC && (K.k.curve == SA_ELLIPTIC_CURVE_ED25519 || K.k.curve == SA_ELLIPTIC_CURVE_ED448)) K.want[EDDSA_] = 2 * K.k.size;
    return true;
}
static bool valid(const Key& K, const P& p, size_t len) { if (!K.want[p.alg]) return false; if (p.pre && p.alg != EDDSA_ && len != dlen(p.md)) return false; if (p.alg == PSS && p.salt > K.k.size - dlen(p.md) - 2) return false; if (p.alg == PKCS && K.k.size < 11 + dlen(p.md) + 19) return false; return true; }
// one complete exchange: size query, too small, exact (or roomy) buffer, verification
static bool one(Run& r, Api& A, Key& K, const std::string& kn, const P& p, const Bytes& in, size_t room = 0, bool small = false) {
    bool ok = valid(K, p, in.size()); size_t w = K.want[p.alg]; Blk ib(in); const void* ip = in.empty() && room % 2 == 0 ? nullptr : ib.p;
    auto D = [&] { return strf("%s %s over %zu bytes", kn.c_str(), pd(p).c_str(), in.size()); };
    size_t n = 12345; sa_status s = do_sign(A, p, K.h, nullptr, &n, ip, in.size()); r.transitions();
    if (!w) { if (!r.check(s != SA_STATUS_OK, "%s: size query accepted", D().c_str())) return false; }
    else if (ok && !r.check(s == SA_STATUS_OK && n == w, "%s: size query: %s %zu, expected %zu", D().c_str(), sn(s), n, w)) return false;
    size_t cap = (w ? w : 600) + room; Blk out(cap + 32, 0xa7); n = cap; s = do_sign(A, p, K.h, out.p, &n, ip, in.size()); r.transitions();
    if (!ok) { if (!r.check(s != SA_STATUS_OK, "%s: accepted", D().c_str())) return false; return r.check(out.all(0xa7), "%s: refused (%s) but output written", D().c_str(), sn(s)); }
    if (!r.check(s == SA_STATUS_OK && n == w, "%s: %s, length %zu, expected %zu", D().c_str(), sn(s), n, w)) return false;
    if (!r.check(out.all(0xa7, A.ta ? w : w), "%s: wrote beyond the signature", D().c_str())) return false;
    Bytes sig(out.p, out.p + w); r.state(hash(sig.data(), sig.size()));
    if (!r.check(verify(p, K.pub, K.k.size, sig, in), "%s: the signature does not verify", D().c_str())) return false;
    if (!r.check(ib.bytes() == in, "%s: input changed", D().c_str())) return false;
    if (small) for (size_t c : {(size_t) 0, (size_t) 1, w / 2, w - 1}) { Blk o2(c, 0xa7); n = c; s = do_sign(A, p, K.h, o2.p, &n, ip, in.size()); r.transitions(); if (!r.check(s != SA_STATUS_OK && o2.all(0xa7), "%s: buffer of %zu: %s", D().c_str(), c, sn(s))) return false; }
    return true;
}
static void lengths(Run& r, bool ta, const std::string& kn, int alg, int md, size_t from, size_t to) {
    SETUP(ta); Key K; if (!mk(r, A, K, kn)) return; P p{alg}; p.md = md; p.mgf = (md + 1) % 4; p.salt = dlen(md) % 33;
    for (size_t n = from; n < to; n++) if (!one(r, A, K, kn, p, pattern(n, (unsigned) n), n % 3)) return;
    r.traces();
}
static void digests(Run& r, bool ta, const std::string& kn, int alg) { // every digest, mask digest, precomputed or not, with every digest length
    SETUP(ta); Key K; if (!mk(r, A, K, kn)) return; bool first = true;
    for (int md = 0; md < (alg == EDDSA_ ? 1 : 4); md++) for (int mgf = 0; mgf < (alg == PSS ? 4 : 1); mgf++) for (int pre = 0; pre < (alg == EDDSA_ ? 1 : 2); pre++) {
        P p{alg}; p.md = md; p.mgf = mgf; p.pre = pre; p.salt = alg == PSS ? std::min<size_t>(dlen(md), K.k.size - dlen(md) - 2) : 0;
        std::vector<size_t> ls; if (pre) { if (K.k.size <= 128) for (size_t i = 0; i <= 66; i++) ls.push_back(i); else ls = {0, 1, 19, 20, 21, 28, 31, 32, 33, 47, 48, 49, 63, 64, 65, 128}; } else ls = {0, 1, 63, 64, 65, 127, 128, 200, 1000};
        for (size_t l : ls) { if (!one(r, A, K, kn, p, pattern(l, (unsigned) l + 3), l % 2 ? 7 : 0, first)) return; first = false; r.beat(); } }
    for (unsigned bad : {4u, 5u, 255u, 256u, 257u, 0x7fffffffu, 0xffffffffu}) { if (alg == EDDSA_) break; for (int which = 0; which < (alg == PSS ? 2 : 1); which++) for (int pre = 0; pre < 2; pre++) { P p{alg}; (which ? p.mgf : p.md) = (int) bad; p.pre = pre; Blk o(600, 0xa7); size_t n = 600; Bytes in = pattern(32, 1); sa_status s = do_sign(A, p, K.h, o.p, &n, in.data(), in.size()); r.transitions(); if (!r.check(s != SA_STATUS_OK && o.all(0xa7), "%s %s: %s", kn.c_str(), pd(p).c_str(), sn(s))) return; } }
    r.traces();
}
static void salts(Run& r, bool ta, const std::string& kn, int md, bool all) {
    SETUP(ta); Key K; if (!mk(r, A, K, kn)) return; size_t mx = K.k.size - dlen(md) - 2; std::vector<size_t> v;
    if (all) for (size_t i = 0; i <= mx + 3; i++) v.push_back(i); else v = {0, 1, 2, 8, 19, 20, 21, 31, 32, 33, 47, 48, 49, 63, 64, 65, mx - 1, mx, mx + 1, mx + 2};
    for (size_t x : {mx + dlen(md), mx + dlen(md) + 2, K.k.size, K.k.size + 1, (size_t) 0x7fffffff, (size_t) 0x80000000, (size_t) 0xffffffff, (size_t) 0xfffffffe, (size_t) 0xfffffffd, ((size_t) 1 << 32), ((size_t) 1 << 32) + 20, (size_t) 1 << 63, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2}) v.push_back(x);
    for (size_t s : v) for (int pre = 0; pre < 2; pre++) { P p{PSS}; p.md = md; p.mgf = (int) ((s + (size_t) pre) % 4); p.salt = s; p.pre = pre; if (!one(r, A, K, kn, p, pattern(pre ? dlen(md) : 40, (unsigned) s), s % 2)) return; }
    r.traces();
}
static void matrix(Run& r, bool ta, const std::string& kn) { // every algorithm with every kind of key; unknown algorithms; missing parameters
    SETUP(ta); Key K; if (!mk(r, A, K, kn)) return; Bytes in = pattern(32, 4);
    for (int alg = 0; alg < 4; alg++) { P p{alg}; if (!one(r, A, K, kn, p, in)) return; p.pre = true; if (!one(r, A, K, kn, p, in)) return; }
    for (unsigned a : {4u, 5u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { sa_sign_parameters_rsa_pss b = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, false, 8}; Blk o(600, 0xa7); for (int q = 0; q < 2; q++) { size_t n = 600; sa_status s = CALL(A, sa_crypto_sign, q ? nullptr : o.p, &n, (sa_signature_algorithm) a, K.h, in.data(), in.size(), &b); r.transitions(); if (!r.check(s != SA_STATUS_OK && o.all(0xa7), "%s: unknown algorithm %u: %s", kn.c_str(), a, sn(s))) return; } }
    for (int alg = 0; alg < 3; alg++) { Blk o(600, 0xa7); size_t n = 600; sa_status s = CALL(A, sa_crypto_sign, o.p, &n, (sa_signature_algorithm) alg, K.h, in.data(), in.size(), nullptr); r.transitions(); if (!r.check(s != SA_STATUS_OK && o.all(0xa7), "%s %s without parameters: %s", kn.c_str(), AN[alg], sn(s))) return; }
    for (int alg = 0; alg < 4; alg++) { P p{alg}; Blk o(600, 0xa7); size_t n = 600; sa_status s = do_sign(A, p, K.h, o.p, nullptr, in.data(), in.size()); if (!r.check(s != SA_STATUS_OK && o.all(0xa7), "%s %s without a length: %s", kn.c_str(), AN[alg], sn(s))) return; s = do_sign(A, p, K.h, o.p, &n, nullptr, 32); if (!r.check(s != SA_STATUS_OK && o.all(0xa7), "%s %s without data: %s", kn.c_str(), AN[alg], sn(s))) return; r.transitions(2); }
    r.traces();
}
// r and s of every number of leading zero bytes (up to one) are exported at full width
static void width(Run& r, bool ta, int curve) {
    SETUP(ta); Key K; if (!mk(r, A, K, strf("ec-%d", curve))) return; P p{ECDSA_}; size_t n = K.k.size; bool zr = false, zs = false; size_t i = 0, lim = r.thorough ? 4000 : 1200;
    for (; i < lim && !(zr && zs && i > 64); i++) { Bytes in = pattern(5, (unsigned) i); Blk o(2 * n, 0xa7); size_t l = 2 * n; sa_status s = do_sign(A, p, K.h, o.p, &l, in.data(), 5); r.transitions(); if (!r.check(s == SA_STATUS_OK && l == 2 * n, "signature %zu: %s", i, sn(s))) return; if (!r.check(verify(p, K.pub, n, o.bytes(), in), "signature %zu does not verify", i)) return; zr |= o.p[0] == 0; zs |= o.p[n] == 0; if (i % 64 == 0) r.beat(); }
    r.count("signatures_with_leading_zero", zr + zs); r.traces();
}
// sequences of signatures with two keys: no call influences another
static void sequences(Run& r, bool ta, const std::string& k1, int a1, const std::string& k2, int a2) {
    SETUP(ta); Key K, L; if (!mk(r, A, K, k1) || !mk(r, A, L, k2)) return;
    for (int m = 0; m < 256; m++) { for (int i = 0; i < 4; i++) { int c = m >> (2 * i) & 3; P p{c & 1 ? a2 : a1}; p.salt = 5; Bytes in = pattern((size_t) (c * 7 + i), (unsigned) m); if (c >= 2) p.md = 3; Key& X = c & 1 ? L : K; if (p.alg == PSS && X.k.size < 100) continue; if (!one(r, A, X, c & 1 ? k2 : k1, p, in)) return; } r.beat(); }
    r.traces();
}
// data around each power of 256
static void longdata(Run& r, bool ta, const std::string& kn) {
    SETUP(ta); Key K; if (!mk(r, A, K, kn)) return;
    for (int alg = 0; alg < 4; alg++) { if (!K.want[alg]) continue; for (int md = 0; md < (alg == EDDSA_ ? 1 : 4); md++) for (size_t l : {255, 256, 257, 511, 512, 4096, 65535, 65536, 65537, 100000, 1 << 20}) { P p{alg}; p.md = md; p.salt = 5; if (alg == PSS && K.k.size < dlen(md) + 7) continue; if (!one(r, A, K, kn, p, pattern(l, (unsigned) l + 9))) return; r.beat(); } }
    r.traces();
}
#define T(...) (!r.stop() && r.take(__VA_ARGS__) && (r.nontrivial(hash(r.current())), true))
static std::vector<std::string> keys() { std::vector<std::string> v{"rsa-128", "rsa-256", "rsa-384", "rsa-512", "gen-rsa-128"}; for (int c = 0; c < 9; c++) if (ec_pkey(c)) { v.push_back(strf("ec-%d", c)); v.push_back(strf("gen-ec-%d", c)); } v.push_back("sym"); v.push_back("dh"); return v; }
static void explore(Run& r) {
    sah_setup(); auto ks = keys(); static const char* I[] = {"api", "ta"};
    for (int ta = 1; ta >= 0; ta--) for (auto& k : ks) { if (T("%s %s with every algorithm", I[ta], k.c_str())) matrix(r, ta, k);
        for (int a = 0; a < 4; a++) { Key K; bool rsa = k.find("rsa") != std::string::npos, ec = k.find("ec-") != std::string::npos; int c = ec ? atoi(k.substr(k.find("ec-") + 3).c_str()) : -1; bool sup = rsa ? a < 2 : ec ? (curve_is_nist(c) ? a == ECDSA_ : a == EDDSA_ && (c == 3 || c == 5)) : false; if (!sup) continue;
            if (T("%s %s %s digests", I[ta], k.c_str(), AN[a])) digests(r, ta, k, a);
            bool big = rsa && k != "rsa-128"; size_t top = r.thorough ? 600 : big ? 40 : 160; for (int md = 0; md < (a == EDDSA_ ? 1 : 4); md++) for (size_t f = 0; f < top; f += 40) { if (big && !r.thorough && f) continue; if (!ta && !r.thorough && (md + f / 40) % 4) continue; if (T("%s %s %s digest %d lengths from %zu", I[ta], k.c_str(), AN[a], md, f)) lengths(r, ta, k, a, md, f, f + 40); } } }
    for (int ta = 1; ta >= 0; ta--) for (int k = 0; k < 4; k++) for (int md = 0; md < 4; md++) if (T("%s %s digest %d salt lengths", I[ta], ks[(size_t) k].c_str(), md)) salts(r, ta, ks[(size_t) k], md, k == 0 || r.thorough);
    for (int ta = 1; ta >= 0; ta--) for (auto& k : {std::string("rsa-128"), std::string("ec-0"), std::string("ec-3"), std::string("ec-5")}) if ((k[0] == 'r' || ec_pkey(k[3] - '0')) && T("%s %s long data", I[ta], k.c_str())) longdata(r, ta, k);
    for (int ta = 1; ta >= 0; ta--) for (int c = 0; c < 9; c++) if (ec_pkey(c) && curve_is_nist(c) && T("%s curve %d widths", I[ta], c)) width(r, ta, c);
    for (int ta = 1; ta >= 0; ta--) { if (T("%s sequences rsa rsa", I[ta])) sequences(r, ta, "rsa-128", PKCS, "rsa-128", PSS); if (T("%s sequences rsa ec", I[ta])) sequences(r, ta, "rsa-128", PSS, "ec-0", ECDSA_); if (T("%s sequences ec ed", I[ta])) sequences(r, ta, "ec-0", ECDSA_, "ec-3", EDDSA_); }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C18";
    s.rule = "a case fixes the interface, the key (every size and curve, imported and generated, and kinds that cannot sign) and the algorithm; within it all digests, mask digests, precomputed or not with every digest length, all salt lengths including every one that is too long or wraps, all data lengths of a range, buffer sizes, unknown enumerators, missing parameters, and all sequences of four signatures over two keys are executed, and every signature is verified by OpenSSL under the public key the system reports; every case is non-trivial (it contains signatures or refusals)";
    s.assumptions = {"OpenSSL's verification is the independent implementation", "one call signs its whole input, so data is not split"};
    s.explore = explore; return mc::main(argc, argv, s);
}
