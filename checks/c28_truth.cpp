// C28: what is reported about a key is true: header, public key, digest and sizes, for every type, size, curve and origin.
#include "anykey.hpp"
#include <set>
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session S(ta, uuid_of(1)); Api& A = S.A
// the output of a query for every buffer size: exact at the required size, nothing beyond it, refused untouched below it
template<class Q> static bool sizes(Run& r, Api& A, const std::string& what, const Bytes& want, Q q, bool all) {
    size_t n = 777; sa_status s = q(nullptr, &n); r.transitions();
    if (!r.check(s == SA_STATUS_OK && n == want.size(), "%s: size query: %s %zu, expected %zu", what.c_str(), sn(s), n, want.size())) return false;
    for (size_t c = 0; c <= want.size() + 40; c += (all || c + 3 > want.size() || c < 2) ? 1 : 17) {
        Blk b(c, 0xa7); n = c; s = q(b.p, &n); r.transitions();
        if (c < want.size()) { if (!r.check(s != SA_STATUS_OK && b.all(0xa7), "%s: buffer of %zu: %s%s", what.c_str(), c, sn(s), b.all(0xa7) ? "" : ", written to")) return false; }
        else if (!r.check(s == SA_STATUS_OK && n == want.size() && !memcmp(b.p, want.data(), n) && b.all(0xa7, n), "%s: buffer of %zu: %s, %zu bytes", what.c_str(), c, sn(s), n)) return false;
    }
    for (size_t c : {(size_t) 4096, (size_t) 70000}) { Blk b(c, 0xa7); n = c; s = q(b.p, &n); if (!r.check(s == SA_STATUS_OK && n == want.size() && !memcmp(b.p, want.data(), n) && b.all(0xa7, n), "%s: buffer of %zu: %s, %zu bytes", what.c_str(), c, sn(s), n)) return false; }
    return true;
}
template<class Q> static bool refused_all(Run& r, const std::string& what, Q q) {
    size_t n = 777; sa_status s = q(nullptr, &n); if (!r.check(s != SA_STATUS_OK, "%s: size query accepted", what.c_str())) return false;
    for (size_t c : {(size_t) 0, (size_t) 1, (size_t) 32, (size_t) 64, (size_t) 1000}) { Blk b(c, 0xa7); n = c; s = q(b.p, &n); r.transitions(); if (!r.check(s != SA_STATUS_OK && b.all(0xa7), "%s: buffer of %zu: %s%s", what.c_str(), c, sn(s), b.all(0xa7) ? "" : ", written to")) return false; }
    return true;
}
// standard public key encoding, computed from the parts of the key
static Bytes dh_spki(const Bytes& p, const Bytes& g, const BIGNUM* y) { DH* d = DH_new(); DH_set0_pqg(d, BN_bin2bn(p.data(), (int) p.size(), nullptr), nullptr, BN_bin2bn(g.data(), (int) g.size(), nullptr)); DH_set0_key(d, BN_dup(y), nullptr); EVP_PKEY* k = EVP_PKEY_new(); EVP_PKEY_assign_DH(k, d); Bytes o = pkey_pub_der(k); EVP_PKEY_free(k); return o; }
struct Exp { int type; size_t size; int curve = 0; Bytes p, g; bool known = false; Bytes material, pub; };
static Bytes get_pub(Api& A, const sa_handle& h) { uint8_t b[2048]; size_t n = sizeof b; return CALL(A, sa_key_get_public, b, &n, h) == SA_STATUS_OK ? Bytes(b, b + n) : Bytes(); }
static Bytes get_dig(Api& A, const sa_handle& h, int d = 3) { uint8_t b[64]; size_t n = sizeof b; return CALL(A, sa_key_digest, b, &n, h, (sa_digest_algorithm) d) == SA_STATUS_OK ? Bytes(b, b + n) : Bytes(); }
// the private key behind the handle is the one of this public key
static std::string pairs(Api& A, const sa_handle& h, const Exp& e, EVP_PKEY* pk) {
    Bytes msg = pattern(37, 5);
    if (e.type == SA_KEY_TYPE_RSA) {
        sa_sign_parameters_rsa_pkcs1v15 p = {SA_DIGEST_ALGORITHM_SHA256, false}; uint8_t sig[1024]; size_t n = sizeof sig; sa_status s = CALL(A, sa_crypto_sign, sig, &n, SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, h, msg.data(), msg.size(), &p); if (s) return std::string("sign: ") + sn(s);
        EVP_MD_CTX* c = EVP_MD_CTX_new(); bool ok = EVP_DigestVerifyInit(c, nullptr, EVP_sha256(), nullptr, pk) == 1 && EVP_DigestVerify(c, sig, n, msg.data(), msg.size()) == 1; EVP_MD_CTX_free(c); ERR_clear_error(); if (!ok) return "signature does not verify under the reported public key";
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(pk, nullptr); EVP_PKEY_encrypt_init(x); EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING); Bytes ct(e.size); size_t cl = ct.size(); ok = EVP_PKEY_encrypt(x, ct.data(), &cl, msg.data(), msg.size()) == 1; EVP_PKEY_CTX_free(x);
        sa_handle c2; s = CALL(A, sa_crypto_cipher_init, &c2, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_MODE_DECRYPT, h, nullptr); if (s) return std::string("decrypt: ") + sn(s); Bytes o(e.size); sa_buffer O = cbuf(o.data(), o.size()), I = cbuf(ct.data(), cl); size_t m = cl; s = CALL(A, sa_crypto_cipher_process, &O, c2, &I, &m); rel(A, K_CIPHER, c2);
        if (s || m != msg.size() || memcmp(o.data(), msg.data(), m)) return std::string("decryption: ") + sn(s); return "";
    }
    bool ed = e.curve == SA_ELLIPTIC_CURVE_ED25519 || e.curve == SA_ELLIPTIC_CURVE_ED448, x = e.curve == SA_ELLIPTIC_CURVE_X25519 || e.curve == SA_ELLIPTIC_CURVE_X448;
    if (e.type == SA_KEY_TYPE_EC && !x) {
        sa_sign_parameters_ecdsa p = {SA_DIGEST_ALGORITHM_SHA256, false}; uint8_t sig[1024]; size_t n = sizeof sig; sa_status s = CALL(A, sa_crypto_sign, sig, &n, ed ? SA_SIGNATURE_ALGORITHM_EDDSA : SA_SIGNATURE_ALGORITHM_ECDSA, h, msg.data(), msg.size(), ed ? nullptr : (void*) &p); if (s) return std::string("sign: ") + sn(s);
        Bytes sg(sig, sig + n); if (!ed) { BIGNUM *u = BN_bin2bn(sig, (int) n / 2, nullptr), *v = BN_bin2bn(sig + n / 2, (int) n / 2, nullptr); ECDSA_SIG* q = ECDSA_SIG_new(); ECDSA_SIG_set0(q, u, v); uint8_t* o = nullptr; int l = i2d_ECDSA_SIG(q, &o); sg.assign(o, o + l); OPENSSL_free(o); ECDSA_SIG_free(q); }
        EVP_MD_CTX* c = EVP_MD_CTX_new(); bool ok = EVP_DigestVerifyInit(c, nullptr, ed ? nullptr : EVP_sha256(), nullptr, pk) == 1 && EVP_DigestVerify(c, sg.data(), sg.size(), msg.data(), msg.size()) == 1; EVP_MD_CTX_free(c); ERR_clear_error(); if (!ok) return "signature does not verify under the reported public key";
    }
    if (ed) return "";
    EVP_PKEY* peer; if (e.type == SA_KEY_TYPE_DH) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr); peer = nullptr; EVP_PKEY_keygen_init(c); EVP_PKEY_keygen(c, &peer); EVP_PKEY_CTX_free(c); if (!peer) return "no peer"; } else { peer = ec_pkey(e.curve, 7); EVP_PKEY_up_ref(peer); }
    Bytes d; sa_status s = ak_shared(A, h, e.type == SA_KEY_TYPE_DH, pkey_pub_der(peer), &d); Bytes z = ref_ecdh(peer, pk); EVP_PKEY_free(peer); ERR_clear_error(); if (s) return std::string("exchange: ") + sn(s);
    return d == ref_digest("SHA256", z) ? "" : "the shared secret is not that of the reported public key";
}
// everything reported about the key
static bool reports(Run& r, Api& A, const sa_handle& h, const Exp& e, const sa_rights& rt, const std::string& what, bool all) {
    sa_header hd; memset(&hd, 0xa5, sizeof hd); sa_status s = CALL(A, sa_key_header, &hd, h); r.transitions(); const char* w = what.c_str();
    if (!r.check(s == SA_STATUS_OK, "%s: header: %s", w, sn(s))) return false;
    if (!r.check(!memcmp(hd.magic, "sak0", 4) && hd.type == e.type && hd.size == e.size, "%s: header says type %d size %d, expected %d %zu", w, hd.type, hd.size, e.type, e.size)) return false;
    if (!r.check(!memcmp(&hd.rights, &rt, sizeof rt), "%s: header has other rights", w)) return false;
    if (e.type == SA_KEY_TYPE_EC && !r.check((int) hd.type_parameters.curve == e.curve, "%s: header says curve %d", w, hd.type_parameters.curve)) return false;
    if (e.type == SA_KEY_TYPE_DH) { auto& d = hd.type_parameters.dh_parameters; if (!r.check(d.p_length == e.p.size() && !memcmp(d.p, e.p.data(), e.p.size()) && d.g_length == e.g.size() && !memcmp(d.g, e.g.data(), e.g.size()), "%s: header has other DH parameters", w)) return false; }
    auto pubq = [&](void* o, size_t* n) { return CALL(A, sa_key_get_public, o, n, h); };
    if (e.type == SA_KEY_TYPE_SYMMETRIC) {
        for (int d = 0; d < 4; d++) { auto q = [&](void* o, size_t* n) { return CALL(A, sa_key_digest, o, n, h, (sa_digest_algorithm) d); };
            Bytes want; if (e.known) want = ref_digest(dname(d), e.material); else { want = get_dig(A, h, d); if (!r.check(want.size() == dlen(d), "%s: digest %d: %zu bytes", w, d, want.size())) return false; }
            if (!sizes(r, A, what + strf(" digest %d", d), want, q, all)) return false; r.state(hash(want.data(), want.size())); }
        for (unsigned d : {4u, 255u, 256u, 0x7fffffffu, 0xffffffffu}) if (!refused_all(r, what + strf(" digest %u", d), [&](void* o, size_t* n) { return CALL(A, sa_key_digest, o, n, h, (sa_digest_algorithm) d); })) return false;
        return refused_all(r, what + " public key", pubq);
    }
    for (int d = 0; d < 5; d++) if (!refused_all(r, what + strf(" digest %d", d), [&](void* o, size_t* n) { return CALL(A, sa_key_digest, o, n, h, (sa_digest_algorithm) d); })) return false;
    Bytes pub = get_pub(A, h); if (!r.check(!pub.empty(), "%s: no public key", w)) return false; r.state(hash(pub.data(), pub.size()));
    if (e.known && !r.check(pub == e.pub, "%s: other public key", w)) return false;
    const uint8_t* q = pub.data(); EVP_PKEY* pk = d2i_PUBKEY(nullptr, &q, (long) pub.size()); ERR_clear_error(); if (!r.check(pk && q == pub.data() + pub.size(), "%s: the public key is not a standard encoding", w)) { EVP_PKEY_free(pk); return false; }
    bool ok = true;
    if (e.type == SA_KEY_TYPE_RSA) ok = r.check(EVP_PKEY_id(pk) == EVP_PKEY_RSA && EVP_PKEY_bits(pk) == (int) e.size * 8, "%s: public key of %d bits", w, EVP_PKEY_bits(pk));
    else if (e.type == SA_KEY_TYPE_EC) { char g[64] = ""; size_t gl = 0; if (curve_is_nist(e.curve)) { EVP_PKEY_get_group_name(pk, g, sizeof g, &gl); ok = r.check(OBJ_sn2nid(g) == EC_curve_nist2nid(curve_name(e.curve)), "%s: public key of curve %s", w, g); } else ok = r.check(EVP_PKEY_id(pk) == EVP_PKEY_id(ec_pkey(e.curve)), "%s: public key of another curve", w); }
    else { const BIGNUM* y = nullptr; ok = EVP_PKEY_id(pk) == EVP_PKEY_DH; if (ok) { DH_get0_key(EVP_PKEY_get0_DH(pk), &y, nullptr); ok = pub == dh_spki(e.p, e.g, y); } r.check(ok, "%s: public key of another group", w); }
    if (ok) ok = r.check(pkey_pub_der(pk) == pub, "%s: the public key is not in the standard encoding", w);
    if (ok && (rt.usage_flags & KEY_FLAGS) == KEY_FLAGS) { std::string x = pairs(A, h, e, pk); ok = r.check(x.empty(), "%s: %s", w, x.c_str()); }
    EVP_PKEY_free(pk); return ok && sizes(r, A, what + " public key", pub, pubq, all);
}
struct Grp { const char* n; Bytes p, g; };
static Bytes bnb(BIGNUM* b) { Bytes o((size_t) BN_num_bytes(b)); BN_bn2bin(b, o.data()); BN_free(b); return o; }
static std::vector<Grp> groups() { std::vector<Grp> v; Bytes g2(1, 2);
    BIGNUM* b = nullptr; BN_hex2bn(&b, "CD142C1ADB669C0F331AE64F11E01446A2A13060AF5C66BC0A93A5A5BE4DBA4C8A559B98BF399A1881A3E48830E3A887A4A50D0A134103878CDECAF5A61EC21F"); v.push_back({"safe512", bnb(b), g2});
    v.push_back({"modp768", bnb(BN_get_rfc2409_prime_768(nullptr)), g2}); v.push_back({"modp1024", bnb(BN_get_rfc2409_prime_1024(nullptr)), g2}); v.push_back({"modp1536", bnb(BN_get_rfc3526_prime_1536(nullptr)), g2});
    v.push_back({"modp2048", bnb(BN_get_rfc3526_prime_2048(nullptr)), g2}); v.push_back({"modp3072", bnb(BN_get_rfc3526_prime_3072(nullptr)), g2}); v.push_back({"modp4096", bnb(BN_get_rfc3526_prime_4096(nullptr)), g2});
    Bytes big(128, 0x31); v.push_back({"modp1024-long-generator", v[2].p, big}); return v; }
static std::vector<std::pair<std::string, sa_rights>> rightsets() {
    std::vector<std::pair<std::string, sa_rights>> v; v.push_back({"all rights", rights_all()});
    sa_rights a = rights_all(F(SA_USAGE_FLAG_SIGN) | F(SA_USAGE_FLAG_SVP_OPTIONAL), 0); memset(a.id, 'x', sizeof a.id - 1); a.id[sizeof a.id - 1] = 0; a.not_before = 1600000000; a.not_on_or_after = 1800000000; v.push_back({"a long name and a window", a});
    sa_rights b = rights_all(ALL_FLAGS, F(3)); for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++) b.allowed_tas[i] = uuid_of((uint8_t) (i ? 100 + i : 1)); v.push_back({"a list of applications", b}); sa_rights c = rights_all(0, 0); v.push_back({"no rights", c}); return v;
}
static sa_status gen(Api& A, sa_handle* h, const sa_rights& rt, const Exp& e) {
    *h = INVALID_HANDLE;
    if (e.type == SA_KEY_TYPE_SYMMETRIC) { sa_generate_parameters_symmetric p = {e.size}; return CALL(A, sa_key_generate, h, &rt, SA_KEY_TYPE_SYMMETRIC, &p); }
    if (e.type == SA_KEY_TYPE_RSA) { sa_generate_parameters_rsa p = {e.size}; return CALL(A, sa_key_generate, h, &rt, SA_KEY_TYPE_RSA, &p); }
    if (e.type == SA_KEY_TYPE_EC) { sa_generate_parameters_ec p = {(sa_elliptic_curve) e.curve}; return CALL(A, sa_key_generate, h, &rt, SA_KEY_TYPE_EC, &p); }
    Blk p(e.p), g(e.g); sa_generate_parameters_dh q = {p.p, p.n, g.p, g.n}; return CALL(A, sa_key_generate, h, &rt, SA_KEY_TYPE_DH, &q);
}
static Exp esym(size_t n) { Exp e{SA_KEY_TYPE_SYMMETRIC, n}; return e; }
static Exp ersa(size_t n) { Exp e{SA_KEY_TYPE_RSA, n}; return e; }
static Exp eec(int c) { Exp e{SA_KEY_TYPE_EC, curve_size(c)}; e.curve = c; return e; }
static Exp edh(const Grp& g) { Exp e{SA_KEY_TYPE_DH, g.p.size()}; e.p = g.p; e.g = g.g; return e; }
static void generated(Run& r, bool ta, const Exp& e, const std::string& what, const std::pair<std::string, sa_rights>& rs, bool all) {
    SETUP(ta); sa_handle h; sa_status s = gen(A, &h, rs.second, e); r.transitions();
    if (!r.check(s == SA_STATUS_OK, "%s: generation: %s", what.c_str(), sn(s))) return;
    sa_rights rt = rs.second; reports(r, A, h, e, rt, what, all); rel(A, K_KEY, h); r.traces();
}
// every symmetric length is accepted or refused, and each byte of the key is random: it depends on as many random bytes
static void gen_len(Run& r, bool ta, size_t n, bool bytes) {
    SETUP(ta); sa_handle h; sa_rights rt = rights_all(); bool ok = n >= 16 && n <= 512; uint64_t seed = env::rand_state = 77777 + n; sa_status s = gen(A, &h, rt, esym(n)); r.transitions();
    if (!ok) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "a symmetric key of %zu bytes: %s", n, sn(s)); return; }
    if (!r.check(s == SA_STATUS_OK, "a symmetric key of %zu bytes: %s", n, sn(s))) return;
    uint64_t drawn = env::rand_drawn, calls = env::rand_calls; sa_header hd; CALL(A, sa_key_header, &hd, h); r.check(hd.size == n && hd.type == SA_KEY_TYPE_SYMMETRIC, "a symmetric key of %zu bytes: header says %d", n, hd.size); Bytes d0 = get_dig(A, h); rel(A, K_KEY, h);
    if (!r.check(drawn >= n, "a symmetric key of %zu bytes is made of %llu random bytes", n, (unsigned long long) drawn)) return;
    std::set<Bytes> seen = {d0}; uint64_t influential = 0;
    if (bytes) { for (uint64_t i = 1; i <= drawn && i <= 2 * n + 64; i++) { env::reset(); env::caller = uuid_of(1); env::rand_state = seed; env::rand_flip = i; s = gen(A, &h, rt, esym(n)); r.transitions(); if (!r.check(s == SA_STATUS_OK, "a symmetric key of %zu bytes: %s", n, sn(s))) return; Bytes d = get_dig(A, h); rel(A, K_KEY, h); if (d != d0) influential++; if (d != d0 && !r.check(seen.insert(d).second, "a symmetric key of %zu bytes: changing different random bytes gives one key", n)) return; r.beat(); }
        r.check(influential >= n, "a symmetric key of %zu bytes depends on %llu random bytes only", n, (unsigned long long) influential); }
    for (uint64_t i = 1; i <= calls; i++) { env::reset(); env::caller = uuid_of(1); env::rand_fail_at = i; s = gen(A, &h, rt, esym(n)); r.transitions(); if (s == SA_STATUS_OK) rel(A, K_KEY, h); r.check(s != SA_STATUS_OK, "a symmetric key of %zu bytes is generated although the random number generator fails", n); }
    r.traces();
}
// keys are never repeated: by generations in a row, mixed with releases and other sizes
static void distinct(Run& r, bool ta, const Exp& e, const std::string& what, int rounds) {
    SETUP(ta); std::set<Bytes> seen; sa_rights rt = rights_all(); sa_handle keep = INVALID_HANDLE;
    for (int i = 0; i < rounds; i++) { sa_handle h, o = INVALID_HANDLE; if (i % 3 == 1) gen(A, &o, rt, esym(16 + (size_t) i % 20)); sa_status s = gen(A, &h, rt, e); r.transitions(); r.beat(); if (!r.check(s == SA_STATUS_OK, "%s: %s", what.c_str(), sn(s))) break;
        Bytes d = e.type == SA_KEY_TYPE_SYMMETRIC ? get_dig(A, h) : get_pub(A, h); r.state(hash(d.data(), d.size())); if (!r.check(!d.empty() && seen.insert(d).second, "%s: generation %d repeats an earlier key", what.c_str(), i)) break;
        if (o != INVALID_HANDLE) rel(A, K_KEY, o); if (i % 4 == 2 && keep == INVALID_HANDLE) keep = h; else rel(A, K_KEY, h); }
    // another session draws other keys
    if (ta) { Session S2(true, uuid_of(1)); for (int i = 0; i < 3; i++) { sa_handle h; if (gen(S2.A, &h, rt, e) != SA_STATUS_OK) break; Bytes d = e.type == SA_KEY_TYPE_SYMMETRIC ? get_dig(S2.A, h) : get_pub(S2.A, h); r.check(seen.insert(d).second, "%s: another session repeats a key", what.c_str()); rel(S2.A, K_KEY, h); } }
    if (keep != INVALID_HANDLE) rel(A, K_KEY, keep); r.traces();
}
static void gen_bad(Run& r, bool ta) {
    SETUP(ta); sa_rights rt = rights_all(); sa_handle h; auto no = [&](const char* w, sa_status s) { r.transitions(); if (s == SA_STATUS_OK) rel(A, K_KEY, h); r.check(s != SA_STATUS_OK, "%s accepted", w); h = INVALID_HANDLE; };
    sa_handle aes; mkkey(A, &aes, pattern(16, 1), rt); int before = slots_free(A, K_KEY, aes); h = INVALID_HANDLE;
    for (unsigned t : {4u, 5u, 255u, 256u, 0x7fffffffu, 0xffffffffu}) { sa_generate_parameters_symmetric p = {16}; no("an unknown key type", CALL(A, sa_key_generate, &h, &rt, (sa_key_type) t, &p)); }
    for (int t = 0; t < 4; t++) no("no parameters", CALL(A, sa_key_generate, &h, &rt, (sa_key_type) t, nullptr));
    for (unsigned c : {9u, 10u, 255u, 256u, 257u, 258u, 259u, 260u, 264u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { sa_generate_parameters_ec p = {(sa_elliptic_curve) c}; no("an unknown curve", CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_EC, &p)); }
    for (size_t n : {(size_t) 0, (size_t) 1, (size_t) 63, (size_t) 64, (size_t) 65, (size_t) 96, (size_t) 127, (size_t) 129, (size_t) 130, (size_t) 192, (size_t) 255, (size_t) 257, (size_t) 0x100000080, (size_t) 0x20000080, (size_t) 0x80000000, SIZE_MAX, SIZE_MAX - 127, (size_t) 0x1000000000000080}) { sa_generate_parameters_rsa p = {n}; r.beat(); no(strf("an RSA key of %zu bytes", n).c_str(), CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_RSA, &p)); }
    for (size_t n : {(size_t) 0x100000010, SIZE_MAX, (size_t) 1 << 63}) { sa_generate_parameters_symmetric p = {n}; no("a huge symmetric key", CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_SYMMETRIC, &p)); }
    Bytes P = dh_p(), g1(1, 2), big(600, 1); auto dh = [&](const void* p, size_t pl, const void* g, size_t gl) { sa_generate_parameters_dh q = {(void*) p, pl, (void*) g, gl}; return CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_DH, &q); }; uint8_t z[600] = {0}; memcpy(z, P.data(), P.size());
    no("DH without a modulus", dh(nullptr, 128, g1.data(), 1)); no("DH without a generator", dh(P.data(), P.size(), nullptr, 1)); no("DH with an empty modulus", dh(z, 0, g1.data(), 1)); no("DH with an empty generator", dh(P.data(), P.size(), g1.data(), 0)); no("DH with a modulus of 513 bytes", dh(big.data(), 513, g1.data(), 1)); no("DH with a modulus of 600 bytes", dh(big.data(), 600, g1.data(), 1)); no("DH with a generator longer than the modulus", dh(P.data(), P.size(), big.data(), P.size() + 1));
    no("NULL rights", CALL(A, sa_key_generate, &h, nullptr, SA_KEY_TYPE_SYMMETRIC, (void*) z)); sa_generate_parameters_symmetric ps = {16}; sa_rights bad = rt; memset(bad.id, 'y', sizeof bad.id); no("a name without end", CALL(A, sa_key_generate, &h, &bad, SA_KEY_TYPE_SYMMETRIC, &ps));
    no("NULL key", CALL(A, sa_key_generate, nullptr, &rt, SA_KEY_TYPE_SYMMETRIC, &ps));
    sa_header hd; memset(&hd, 0xa7, sizeof hd); sa_header hd0 = hd; size_t n = 5; sa_handle badh[] = {INVALID_HANDLE, 255, 256, aes + 1, aes + 256, aes + ((sa_handle) 1 << 32)}; uint8_t b[64]; memset(b, 0xa7, 64); uint8_t b0[64]; memset(b0, 0xa7, 64);
    for (auto k : badh) { if (k == aes) continue; sa_status s = CALL(A, sa_key_header, &hd, k); r.check(s != SA_STATUS_OK && !memcmp(&hd, &hd0, sizeof hd), "header of no key %llx: %s", (unsigned long long) k, sn(s)); n = 64; s = CALL(A, sa_key_digest, b, &n, k, SA_DIGEST_ALGORITHM_SHA256); r.check(s != SA_STATUS_OK && !memcmp(b, b0, 64), "digest of no key: %s", sn(s)); s = CALL(A, sa_key_get_public, b, &n, k); r.check(s != SA_STATUS_OK && !memcmp(b, b0, 64), "public key of no key: %s", sn(s)); s = CALL(A, sa_key_get_public, nullptr, &n, k); r.check(s != SA_STATUS_OK, "size of the public key of no key"); s = CALL(A, sa_key_digest, nullptr, &n, k, SA_DIGEST_ALGORITHM_SHA256); r.check(s != SA_STATUS_OK, "size of the digest of no key"); }
    r.check(CALL(A, sa_key_header, nullptr, aes) != SA_STATUS_OK, "NULL header accepted"); r.check(CALL(A, sa_key_digest, b, nullptr, aes, SA_DIGEST_ALGORITHM_SHA256) != SA_STATUS_OK, "NULL length accepted"); r.check(CALL(A, sa_key_get_public, b, nullptr, aes) != SA_STATUS_OK, "NULL length accepted");
    r.check(slots_free(A, K_KEY, aes) == before, "refused generations use up keys"); rel(A, K_KEY, aes); r.traces();
}
// keys of every other origin
static void origin(Run& r, bool ta, int o, int v, bool all) {
    SETUP(ta); sa_rights rt = rights_all(); strcpy(rt.id, "origin"); sa_handle h = INVALID_HANDLE, w = INVALID_HANDLE, b = INVALID_HANDLE; Exp e{}; sa_status s = SA_STATUS_OK; e.known = true; std::string what;
    auto set = [&](const AnyKey& k) { e.type = k.type; e.size = k.size; e.curve = k.curve; e.material = k.material; e.pub = k.pub; what = k.name; };
    static const size_t SZ[] = {16, 17, 24, 31, 32, 33, 48, 64, 100, 128, 255, 256, 257, 511, 512};
    AnyKey k; if (v < 15) k = k_sym(SZ[v], (unsigned) o); else if (v < 24) { k = k_ec(v - 15); if (!k.pk) return; } else k = k_rsa((size_t) (v == 27 ? 512 : 128 * (v - 23)));
    bool sym = v < 15;
    if (o == 0) { s = ak_make(A, &h, k, rt); set(k); what += " imported"; }
    else if (o == 1) { s = ak_make(A, &b, k, rt); set(k); what += " re-imported"; uint8_t c[8192]; size_t n = sizeof c; if (s == SA_STATUS_OK) s = CALL(A, sa_key_export, c, &n, nullptr, 0, b); if (!r.check(s == SA_STATUS_OK, "%s: export: %s", what.c_str(), sn(s))) return; h = INVALID_HANDLE; s = CALL(A, sa_key_import, &h, SA_KEY_FORMAT_EXPORTED, c, n, nullptr); rel(A, K_KEY, b); }
    else if (o == 2) { mkkey(A, &w, pattern(32, 77), rights_all()); Bytes iv = pattern(16, 5), ct = ref_cipher("AES-256-CBC", true, pattern(32, 77), iv, k.material, true); sa_unwrap_parameters_aes_cbc p = {iv.data(), 16}; sa_unwrap_type_parameters_ec te = {(sa_elliptic_curve) k.curve}; s = CALL(A, sa_key_unwrap, &h, &rt, (sa_key_type) k.type, k.type == SA_KEY_TYPE_EC ? &te : nullptr, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, &p, w, ct.data(), ct.size()); set(k); what += " unwrapped"; }
    else if (o == 3) { if (!sym) return; mkkey(A, &w, pattern(32, 5), rights_all()); sa_kdf_parameters_hkdf p; memset(&p, 0, sizeof p); p.key_length = k.size; p.digest_algorithm = SA_DIGEST_ALGORITHM_SHA512; p.parent = w; Bytes salt = pattern(8, 1), info = pattern(9, 2); p.salt = salt.data(); p.salt_length = 8; p.info = info.data(); p.info_length = 9; s = CALL(A, sa_key_derive, &h, &rt, SA_KDF_ALGORITHM_HKDF, &p);
        Bytes prk = ref_hmac("SHA512", salt, pattern(32, 5)), t, okm; for (uint8_t i = 1; okm.size() < k.size; i++) { t = ref_hmac("SHA512", prk, cat({t, info, Bytes(1, i)})); okm.insert(okm.end(), t.begin(), t.end()); } okm.resize(k.size); k.material = okm; set(k); what += " derived"; }
    else if (o == 4) { if (sym || k.type != SA_KEY_TYPE_EC) return; if (k.curve == SA_ELLIPTIC_CURVE_ED25519 || k.curve == SA_ELLIPTIC_CURVE_ED448) return; s = ak_make(A, &w, k, rights_all()); Bytes pub = pkey_pub_der(ec_pkey(k.curve, 3)); if (s == SA_STATUS_OK) s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_ECDH, w, pub.data(), pub.size(), nullptr); AnyKey z; z.type = SA_KEY_TYPE_SYMMETRIC; z.material = ref_ecdh(k.pk, ec_pkey(k.curve, 3)); z.size = z.material.size(); z.name = k.name; set(z); what += " exchanged"; }
    else if (o == 5) { if (!sym || k.size > 100) return; AnyKey R = k_rsa(256); s = ak_make(A, &w, R, rights_all()); Bytes ct = rsa_enc(256, false, k.material); if (s == SA_STATUS_OK) s = CALL(A, sa_key_unwrap, &h, &rt, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, nullptr, w, ct.data(), ct.size()); set(k); what += " unwrapped by RSA"; }
    r.transitions(); if (!r.check(s == SA_STATUS_OK, "%s: %s", what.c_str(), sn(s))) return;
    reports(r, A, h, e, rt, what, all);
    // the reports are the same again after the key was used, and after the clock moved
    env::now += 1000; sa_header h1, h2; CALL(A, sa_key_header, &h1, h); CALL(A, sa_key_header, &h2, h); r.check(!memcmp(&h1, &h2, sizeof h1), "%s: headers differ", what.c_str());
    rel(A, K_KEY, h); if (w != INVALID_HANDLE) rel(A, K_KEY, w); r.traces();
}
int main(int argc, char** argv) {
    Spec s; s.property = "C28";
    s.rule = "for every key type, size, curve and group crossed with every origin (generated with several sets of rights, imported, exported and re-imported, unwrapped by AES and RSA, derived, exchanged): every field of the header against the request, the digest by every algorithm against an independent one, the public key decoded and re-encoded by OpenSSL and matched to the private key by signing, decryption or key agreement, and each query with every buffer size from 0 past the required one. Every symmetric length 0..600 is generated or refused; for generated symmetric keys each byte drawn from the random number generator is changed in turn and each of its requests is failed; keys of repeated generations are compared pairwise. A case is non-trivial by its arguments.";
    s.assumptions = {"the random number generator of the porting layer is replaced by a deterministic one for symmetric keys; asymmetric keys are drawn inside OpenSSL", "RSA key sizes that OpenSSL generates slowly (above 512 bytes) are not tried as refused sizes"};
    s.setup = [](Run&) { sah_setup(); };
    s.explore = [](Run& r) {
        auto T = [&](const std::string& d) { return !r.stop() && r.take("%s", d.c_str()) && (r.nontrivial(hash(r.current())), true); };
        for (int ta = 0; ta < 2; ta++) { const char* n = ta ? "trusted" : "client";
            if (T(strf("%s refused generations", n))) gen_bad(r, ta);
            auto rs = rightsets();
            for (size_t i = 0; i < rs.size(); i++) { bool all = i == 0 || r.thorough;
                for (size_t z : {(size_t) 16, (size_t) 17, (size_t) 31, (size_t) 32, (size_t) 33, (size_t) 63, (size_t) 64, (size_t) 65, (size_t) 127, (size_t) 128, (size_t) 255, (size_t) 256, (size_t) 257, (size_t) 300, (size_t) 511, (size_t) 512}) if (T(strf("%s generated sym-%zu %s", n, z, rs[i].first.c_str()))) generated(r, ta, esym(z), strf("sym-%zu generated", z), rs[i], all);
                for (int c = 0; c < 9; c++) if (T(strf("%s generated curve %d %s", n, c, rs[i].first.c_str()))) { if (ec_pkey(c)) for (int q = 0; q < (r.thorough ? 20 : 3); q++) generated(r, ta, eec(c), strf("%s generated", curve_name(c)), rs[i], all && !q); }
                for (size_t z : {(size_t) 128, (size_t) 256, (size_t) 384, (size_t) 512}) if ((z <= 256 || (i == 0 && (r.thorough || (z == 384 && ta)))) && T(strf("%s generated rsa-%zu %s", n, z, rs[i].first.c_str()))) generated(r, ta, ersa(z), strf("rsa-%zu generated", z), rs[i], all);
                for (auto& g : groups()) if (T(strf("%s generated dh %s %s", n, g.n, rs[i].first.c_str()))) generated(r, ta, edh(g), strf("dh %s generated", g.n), rs[i], all && (r.thorough || g.p.size() <= 192)); }
            for (size_t z = 0; z <= 600; z++) { bool by = r.thorough || z <= 40 || z % 32 == 0 || z % 32 == 1 || z % 32 == 31; if (T(strf("%s generation of %zu bytes", n, z))) gen_len(r, ta, z, by); }
            for (size_t z : {(size_t) 16, (size_t) 32, (size_t) 64, (size_t) 512}) if (T(strf("%s repeated sym-%zu", n, z))) distinct(r, ta, esym(z), strf("sym-%zu", z), r.thorough ? 4000 : 600);
            for (int c = 0; c < 9; c++) if (T(strf("%s repeated curve %d", n, c)) && ec_pkey(c)) distinct(r, ta, eec(c), curve_name(c), r.thorough ? 300 : 20);
            if (T(strf("%s repeated rsa", n))) distinct(r, ta, ersa(128), "rsa-128", r.thorough ? 60 : 8);
            for (auto& g : groups()) if (g.p.size() <= 128 && T(strf("%s repeated dh %s", n, g.n))) distinct(r, ta, edh(g), g.n, r.thorough ? 300 : 20);
            for (int o = 0; o < 6; o++) for (int v = 0; v < 28; v++) if (T(strf("%s origin %d key %d", n, o, v))) origin(r, ta, o, v, r.thorough || v < 21 || v == 24);
        }
    };
    return mc::main(argc, argv, s);
}
