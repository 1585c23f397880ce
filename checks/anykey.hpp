// A key of any type with known material: how to make it, and how to tell whether a handle reaches exactly that key.
#pragma once
#include "ops.hpp"
struct AnyKey {
    int type = 0; int curve = 0; size_t size = 0; Bytes material; std::string name; // material: bytes, or PKCS8 of a private key
    EVP_PKEY* pk = nullptr; Bytes pub, dh_shared;                                    // dh: learnt when it is generated
    int dhi = 0;
};
static inline AnyKey k_sym(size_t n, unsigned salt = 0) { AnyKey k; k.type = SA_KEY_TYPE_SYMMETRIC; k.size = n; k.material = pattern(n, 1000 + salt); k.name = "sym-" + std::to_string(n); return k; }
static inline AnyKey k_rsa(size_t n) { AnyKey k; k.type = SA_KEY_TYPE_RSA; k.size = n; k.pk = rsa_pkey(n); k.material = rsa_der(n); k.pub = pkey_pub_der(k.pk); k.name = "rsa-" + std::to_string(n); return k; }
static inline AnyKey k_ec(int c, int idx = 0) { AnyKey k; k.type = SA_KEY_TYPE_EC; k.curve = c; k.size = curve_size(c); k.pk = ec_pkey(c, idx); if (k.pk) { k.material = pkcs8(k.pk); k.pub = pkey_pub_der(k.pk); } k.name = curve_name(c); return k; }
static inline AnyKey k_dh() { AnyKey k; k.type = SA_KEY_TYPE_DH; k.size = 128; k.name = "dh-128"; return k; }
static inline sa_status ak_shared(Api& A, sa_handle h, bool dh, const Bytes& peer, Bytes* digest) { // digest of the secret agreed with a peer
    sa_rights r = rights_all(); sa_handle s = INVALID_HANDLE; Blk p(peer);
    sa_status st = CALL(A, sa_key_exchange, &s, &r, dh ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, h, p.p, p.n, nullptr);
    if (st != SA_STATUS_OK) return st;
    uint8_t d[32]; size_t n = 32; st = CALL(A, sa_key_digest, d, &n, s, SA_DIGEST_ALGORITHM_SHA256); digest->assign(d, d + 32); rel(A, K_KEY, s);
    return st;
}
static inline Bytes ref_ecdh(EVP_PKEY* a, EVP_PKEY* b) { EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(a, nullptr); size_t n = 0; if (EVP_PKEY_derive_init(x) != 1 || EVP_PKEY_derive_set_peer(x, b) != 1) { EVP_PKEY_CTX_free(x); return {}; } if (EVP_PKEY_id(a) == EVP_PKEY_DH) EVP_PKEY_CTX_set_dh_pad(x, 1); EVP_PKEY_derive(x, nullptr, &n); Bytes o(n); EVP_PKEY_derive(x, o.data(), &n); o.resize(n); EVP_PKEY_CTX_free(x); return o; }
static inline sa_status ak_make(Api& A, sa_handle* h, AnyKey& k, const sa_rights& r) {
    *h = INVALID_HANDLE; Blk m(k.material);
    if (k.type == SA_KEY_TYPE_SYMMETRIC) { sa_import_parameters_symmetric p = {&r}; return CALL(A, sa_key_import, h, SA_KEY_FORMAT_SYMMETRIC_BYTES, m.p, m.n, &p); }
    if (k.type == SA_KEY_TYPE_RSA) { sa_import_parameters_rsa_private_key_info p = {&r}; return CALL(A, sa_key_import, h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.p, m.n, &p); }
    if (k.type == SA_KEY_TYPE_EC) { sa_import_parameters_ec_private_bytes p = {&r, (sa_elliptic_curve) k.curve}; return CALL(A, sa_key_import, h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.p, m.n, &p); }
    Bytes p = dh_p(); uint8_t g = 2; sa_generate_parameters_dh q = {p.data(), p.size(), &g, 1};
    sa_status s = CALL(A, sa_key_generate, h, &r, SA_KEY_TYPE_DH, &q);
    if (s == SA_STATUS_OK) { uint8_t b[1024]; size_t n = sizeof b; if (CALL(A, sa_key_get_public, b, &n, *h) == SA_STATUS_OK) k.pub.assign(b, b + n); k.dh_shared.clear(); }
    return s;
}
// "" if the handle reaches exactly key k with rights r; deep: exercise the private material, as far as the rights allow
static inline std::string ak_is(Api& A, sa_handle h, const AnyKey& k, const sa_rights& r, bool deep) {
    sa_header hd; memset(&hd, 0xa5, sizeof hd); sa_status s = CALL(A, sa_key_header, &hd, h);
    if (s != SA_STATUS_OK) return std::string("header: ") + sn(s);
    if (memcmp(hd.magic, "sak0", 4)) return "magic";
    if (memcmp(&hd.rights, &r, sizeof r)) return mc::strf("rights differ (usage %llx, expected %llx)", (unsigned long long) hd.rights.usage_flags, (unsigned long long) r.usage_flags);
    if (hd.type != k.type) return mc::strf("type %d, expected %d", hd.type, k.type);
    if (hd.size != k.size) return mc::strf("size %d, expected %zu", hd.size, k.size);
    if (k.type == SA_KEY_TYPE_EC && hd.type_parameters.curve != k.curve) return mc::strf("curve %d, expected %d", hd.type_parameters.curve, k.curve);
    if (k.type == SA_KEY_TYPE_DH) { Bytes p = dh_p(); auto& d = hd.type_parameters.dh_parameters; if (d.p_length != p.size() || memcmp(d.p, p.data(), p.size()) || d.g_length != 1 || d.g[0] != 2) return "DH parameters"; }
    if (k.type == SA_KEY_TYPE_SYMMETRIC) {
        uint8_t d[32]; size_t n = 32; s = CALL(A, sa_key_digest, d, &n, h, SA_DIGEST_ALGORITHM_SHA256);
        if (s != SA_STATUS_OK) return std::string("digest: ") + sn(s);
        if (Bytes(d, d + 32) != ref_digest("SHA256", k.material)) return "other key material";
        return "";
    }
    uint8_t b[1024]; size_t n = sizeof b; s = CALL(A, sa_key_get_public, b, &n, h);
    if (s != SA_STATUS_OK) return std::string("public key: ") + sn(s);
    if (Bytes(b, b + n) != k.pub) return "other public key";
    if (!deep) return "";
    Bytes msg = pattern(33, 7);
    if (k.type == SA_KEY_TYPE_RSA || (k.type == SA_KEY_TYPE_EC && k.curve != SA_ELLIPTIC_CURVE_X25519 && k.curve != SA_ELLIPTIC_CURVE_X448)) {
        bool ed = k.type == SA_KEY_TYPE_EC && !curve_is_nist(k.curve), ec = k.type == SA_KEY_TYPE_EC && !ed;
        sa_sign_parameters_rsa_pkcs1v15 p1 = {SA_DIGEST_ALGORITHM_SHA256, false}; sa_sign_parameters_ecdsa p2 = {SA_DIGEST_ALGORITHM_SHA256, false};
        uint8_t sig[1024]; n = sizeof sig;
        s = CALL(A, sa_crypto_sign, sig, &n, ed ? SA_SIGNATURE_ALGORITHM_EDDSA : ec ? SA_SIGNATURE_ALGORITHM_ECDSA : SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, h, msg.data(), msg.size(), ed ? nullptr : ec ? (void*) &p2 : (void*) &p1);
        if (s != SA_STATUS_OK) return r.usage_flags & F(SA_USAGE_FLAG_SIGN) ? std::string("sign: ") + sn(s) : "";
        Bytes sg(sig, sig + n);
        if (ec) { BIGNUM *x = BN_bin2bn(sig, (int) n / 2, nullptr), *y = BN_bin2bn(sig + n / 2, (int) n / 2, nullptr); ECDSA_SIG* q = ECDSA_SIG_new(); ECDSA_SIG_set0(q, x, y); uint8_t* o = nullptr; int l = i2d_ECDSA_SIG(q, &o); sg.assign(o, o + l); OPENSSL_free(o); ECDSA_SIG_free(q); }
        EVP_MD_CTX* c = EVP_MD_CTX_new(); bool ok = EVP_DigestVerifyInit(c, nullptr, ed ? nullptr : EVP_sha256(), nullptr, k.pk) == 1 && EVP_DigestVerify(c, sg.data(), sg.size(), msg.data(), msg.size()) == 1; EVP_MD_CTX_free(c); ERR_clear_error();
        return ok ? "" : "its signature does not verify";
    }
    bool dh = k.type == SA_KEY_TYPE_DH; EVP_PKEY* peer = dh ? dh_peer() : ec_pkey(k.curve, 7); Bytes d;
    s = ak_shared(A, h, dh, pkey_pub_der(peer), &d);
    if (s != SA_STATUS_OK) return r.usage_flags & F(SA_USAGE_FLAG_KEY_EXCHANGE) ? std::string("exchange: ") + sn(s) : "";
    if (dh) {
        // the secret of a generated key is known from the peer's side
        const uint8_t* q = k.pub.data(); EVP_PKEY* mine = d2i_PUBKEY(nullptr, &q, (long) k.pub.size()); if (!mine) return "public key not readable";
        Bytes z = ref_ecdh(dh_peer(), mine); EVP_PKEY_free(mine); ERR_clear_error();
        return d == ref_digest("SHA256", z) ? "" : "other private key";
    }
    return d == ref_digest("SHA256", ref_ecdh(k.pk, peer)) ? "" : "other private key";
}
