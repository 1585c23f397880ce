#include "sah.hpp"
#include <openssl/pem.h>
#include <openssl/provider.h>
#include <map>
extern "C" void log_set_level(size_t);
std::string g_repo = "/repo";
const char* const STATUS_NAME[] = {"OK", "NO_AVAILABLE_RESOURCE_SLOT", "INVALID_KEY_FORMAT", "INVALID_KEY_TYPE", "NULL_PARAMETER",
        "INVALID_PARAMETER", "OPERATION_NOT_ALLOWED", "INVALID_SVP_BUFFER", "OPERATION_NOT_SUPPORTED", "SELF_TEST", "VERIFICATION_FAILED", "INTERNAL_ERROR", "HW_ERROR"};
const char* sn(int s) { return s >= 0 && s < 13 ? STATUS_NAME[s] : "?"; }

sa_rights rights_all(uint64_t usage, uint64_t child) {
    sa_rights r;
    memset(&r, 0, sizeof r);
    strcpy(r.id, "mc-rights");
    r.usage_flags = usage;
    r.child_usage_flags = child;
    r.not_before = 0;
    r.not_on_or_after = UINT64_MAX;
    memset(&r.allowed_tas[MAX_NUM_ALLOWED_TA_IDS - 1], 0xff, sizeof(sa_uuid));
    return r;
}
Bytes pattern(size_t n, unsigned salt) {
    Bytes b(n);
    uint64_t x = 0x9E3779B97F4A7C15ULL * (salt + 1) + 12345;
    for (auto& c : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (uint8_t) (x >> 32); }
    return b;
}
sa_buffer cbuf(void* p, size_t len, size_t off) {
    sa_buffer b; memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_CLEAR; b.context.clear.buffer = p; b.context.clear.length = len; b.context.clear.offset = off;
    return b;
}
sa_buffer sbuf(sa_svp_buffer s, size_t off) {
    sa_buffer b; memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_SVP; b.context.svp.buffer = s; b.context.svp.offset = off;
    return b;
}
sa_key import_sym(const Bytes& k, const sa_rights& r, sa_status* st) {
    sa_key key = INVALID_HANDLE; sa_rights rr = r;
    sa_import_parameters_symmetric p = {&rr};
    Blk b(k);
    sa_status s = sa_key_import(&key, SA_KEY_FORMAT_SYMMETRIC_BYTES, b.p, b.n, &p);
    if (st) *st = s;
    return s == SA_STATUS_OK ? key : INVALID_HANDLE;
}
sa_key import_ec(sa_elliptic_curve c, const Bytes& k, const sa_rights& r, sa_status* st) {
    sa_key key = INVALID_HANDLE; sa_rights rr = r;
    sa_import_parameters_ec_private_bytes p = {&rr, c};
    Blk b(k);
    sa_status s = sa_key_import(&key, SA_KEY_FORMAT_EC_PRIVATE_BYTES, b.p, b.n, &p);
    if (st) *st = s;
    return s == SA_STATUS_OK ? key : INVALID_HANDLE;
}
sa_key import_rsa_der(const Bytes& der, const sa_rights& r, sa_status* st) {
    sa_key key = INVALID_HANDLE; sa_rights rr = r;
    sa_import_parameters_rsa_private_key_info p = {&rr};
    Blk b(der);
    sa_status s = sa_key_import(&key, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, b.p, b.n, &p);
    if (st) *st = s;
    return s == SA_STATUS_OK ? key : INVALID_HANDLE;
}
Bytes ref_cipher(const char* name, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in, bool pad) {
    EVP_CIPHER* c = EVP_CIPHER_fetch(nullptr, name, nullptr);
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    Bytes out(in.size() + 64);
    int n = 0, m = 0; bool ok = c && EVP_CipherInit_ex(x, c, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc) == 1;
    if (ok) { EVP_CIPHER_CTX_set_padding(x, pad); ok = EVP_CipherUpdate(x, out.data(), &n, in.data(), (int) in.size()) == 1 && EVP_CipherFinal_ex(x, out.data() + n, &m) == 1; }
    EVP_CIPHER_CTX_free(x); EVP_CIPHER_free(c);
    if (!ok) { fprintf(stderr, "ref_cipher %s failed\n", name); abort(); }
    out.resize(n + m);
    return out;
}
Aead ref_aead(const char* name, bool enc, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, const Bytes& tag, size_t tag_len) {
    Aead r{false, Bytes(in.size() + 16), Bytes(tag_len)};
    EVP_CIPHER* c = EVP_CIPHER_fetch(nullptr, name, nullptr);
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    int n = 0, m = 0;
    EVP_CipherInit_ex(x, c, nullptr, nullptr, nullptr, enc);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, (int) iv.size(), nullptr);
    EVP_CipherInit_ex(x, nullptr, nullptr, key.data(), iv.data(), enc);
    if (!enc) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, (int) tag.size(), (void*) tag.data());
    if (!aad.empty()) EVP_CipherUpdate(x, nullptr, &n, aad.data(), (int) aad.size());
    n = 0;
    if (!in.empty()) EVP_CipherUpdate(x, r.out.data(), &n, in.data(), (int) in.size());
    r.ok = EVP_CipherFinal_ex(x, r.out.data() + n, &m) == 1;
    if (enc) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, (int) tag_len, r.tag.data());
    r.out.resize(n + m);
    EVP_CIPHER_CTX_free(x); EVP_CIPHER_free(c);
    ERR_clear_error();
    return r;
}
Bytes ref_hmac(const char* d, const Bytes& key, const Bytes& in) {
    Bytes o(64); unsigned n = 0; static const uint8_t z = 0;
    HMAC(EVP_get_digestbyname(d), key.empty() ? &z : key.data(), (int) key.size(), in.empty() ? &z : in.data(), in.size(), o.data(), &n);
    o.resize(n); return o;
}
Bytes ref_cmac(const Bytes& key, const Bytes& in) {
    EVP_MAC* m = EVP_MAC_fetch(nullptr, "CMAC", nullptr);
    EVP_MAC_CTX* x = EVP_MAC_CTX_new(m);
    const char* cn = key.size() == 16 ? "AES-128-CBC" : "AES-256-CBC";
    OSSL_PARAM p[] = {OSSL_PARAM_construct_utf8_string("cipher", (char*) cn, 0), OSSL_PARAM_construct_end()};
    Bytes o(16); size_t n = 16;
    if (EVP_MAC_init(x, key.data(), key.size(), p) != 1) abort();
    if (!in.empty()) EVP_MAC_update(x, in.data(), in.size());
    EVP_MAC_final(x, o.data(), &n, 16);
    EVP_MAC_CTX_free(x); EVP_MAC_free(m);
    return o;
}
Bytes ref_digest(const char* d, const Bytes& in) {
    Bytes o(64); unsigned n = 0; static const uint8_t z = 0;
    EVP_Digest(in.empty() ? &z : in.data(), in.size(), o.data(), &n, EVP_get_digestbyname(d), nullptr);
    o.resize(n); return o;
}
const char* dname(int d) { static const char* n[] = {"SHA1", "SHA256", "SHA384", "SHA512"}; return n[d]; }
size_t dlen(int d) { static const size_t n[] = {20, 32, 48, 64}; return n[d]; }
extern const char* const RSA_PEM[4];
EVP_PKEY* rsa_pkey(size_t bytes) {
    static std::map<size_t, EVP_PKEY*> cache;
    auto& k = cache[bytes];
    if (!k) {
        int i = bytes == 128 ? 0 : bytes == 256 ? 1 : bytes == 384 ? 2 : 3;
        BIO* b = BIO_new_mem_buf(RSA_PEM[i], -1);
        k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
        BIO_free(b);
        if (!k) abort();
    }
    return k;
}
Bytes rsa_der(size_t bytes) {
    PKCS8_PRIV_KEY_INFO* p8 = EVP_PKEY2PKCS8(rsa_pkey(bytes));
    uint8_t* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o);
    Bytes r(o, o + n);
    OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(p8);
    return r;
}
const char* curve_name(int c) { static const char* n[] = {"P-256", "P-384", "P-521", "ED25519", "X25519", "ED448", "X448", "P-192", "P-224"}; return n[c]; }
size_t curve_size(int c) { static const size_t n[] = {32, 48, 66, 32, 32, 57, 56, 24, 28}; return n[c]; }
bool curve_is_nist(int c) { return c <= 2 || c >= 7; }
Bytes pkey_pub_der(EVP_PKEY* k) {
    uint8_t* o = nullptr; int n = i2d_PUBKEY(k, &o);
    if (n <= 0) return {};
    Bytes r(o, o + n); OPENSSL_free(o); return r;
}
Bytes pkcs8(EVP_PKEY* k) {
    PKCS8_PRIV_KEY_INFO* p8 = EVP_PKEY2PKCS8(k);
    if (!p8) return {};
    uint8_t* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o);
    Bytes r(o, o + n);
    OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(p8);
    return r;
}
EVP_PKEY* ec_pkey_from_scalar(int curve, const Bytes& d) {
    if (!curve_is_nist(curve)) {
        int id = curve == 3 ? EVP_PKEY_ED25519 : curve == 4 ? EVP_PKEY_X25519 : curve == 5 ? EVP_PKEY_ED448 : EVP_PKEY_X448;
        return EVP_PKEY_new_raw_private_key(id, nullptr, d.data(), d.size());
    }
    int nid = EC_curve_nist2nid(curve_name(curve));
    EC_GROUP* g = EC_GROUP_new_by_curve_name(nid);
    if (!g) { ERR_clear_error(); return nullptr; }
    BIGNUM* n = BN_bin2bn(d.data(), (int) d.size(), nullptr);
    EC_POINT* p = EC_POINT_new(g);
    EVP_PKEY* k = nullptr;
    if (EC_POINT_mul(g, p, n, nullptr, nullptr, nullptr) == 1 && !EC_POINT_is_at_infinity(g, p)) {
        EC_KEY* e = EC_KEY_new_by_curve_name(nid);
        if (EC_KEY_set_private_key(e, n) == 1 && EC_KEY_set_public_key(e, p) == 1) {
            k = EVP_PKEY_new(); EVP_PKEY_set1_EC_KEY(k, e);
        }
        EC_KEY_free(e);
    }
    EC_POINT_free(p); BN_free(n); EC_GROUP_free(g); ERR_clear_error();
    return k;
}
EVP_PKEY* ec_pkey(int curve, int idx) {
    static std::map<std::pair<int, int>, EVP_PKEY*> cache;
    auto it = cache.find({curve, idx});
    if (it != cache.end()) return it->second;
    Bytes d = pattern(curve_size(curve), 300 + curve * 10 + idx);
    if (curve == 2) d[0] = 0; // P-521: keep below the order
    d[0] &= 0x3f;
    return cache[{curve, idx}] = ec_pkey_from_scalar(curve, d);
}
sa_key import_ec_key(int curve, const sa_rights& r, int idx) {
    EVP_PKEY* k = ec_pkey(curve, idx);
    if (!k) return INVALID_HANDLE;
    return import_ec((sa_elliptic_curve) curve, pkcs8(k), r);
}
bool header_of(sa_key k, sa_header* h) { memset(h, 0, sizeof *h); return sa_key_header(h, k) == SA_STATUS_OK; }
int free_slots(Kind kind, sa_key aes) {
    std::vector<sa_handle> v; static uint8_t mem[16];
    for (;;) {
        sa_handle h = INVALID_HANDLE; sa_status s;
        if (kind == K_KEY) {
            sa_rights r = rights_all(); static const uint8_t kb[16] = {1};
            sa_import_parameters_symmetric p = {&r};
            s = sa_key_import(&h, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb, 16, &p);
        } else if (kind == K_CIPHER) s = sa_crypto_cipher_init(&h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, aes, nullptr);
        else if (kind == K_MAC) s = sa_crypto_mac_init(&h, SA_MAC_ALGORITHM_CMAC, aes, nullptr);
        else s = sa_svp_buffer_create(&h, mem, sizeof mem);
        if (s != SA_STATUS_OK) break;
        v.push_back(h);
        if (v.size() > 100000) break;
    }
    for (auto h : v) {
        if (kind == K_KEY) sa_key_release(h);
        else if (kind == K_CIPHER) sa_crypto_cipher_release(h);
        else if (kind == K_MAC) sa_crypto_mac_release(h);
        else { void* m; size_t n; sa_svp_buffer_release(&m, &n, h); }
    }
    return (int) v.size();
}
void sah_setup() {
    // OpenSSL allocates before the trusted side installs its allocator, so allocation faults hit only its own allocations
    OPENSSL_init_crypto(OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_ADD_ALL_DIGESTS, nullptr);
    setenv("ROOT_KEYSTORE", (g_repo + "/reference/test/root_keystore.p12").c_str(), 1);
    log_set_level(getenv("MC_LOG") ? 0 : 99);
    env::reset();
}
