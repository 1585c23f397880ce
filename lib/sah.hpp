// Helpers over the public client API.
#pragma once
#include "env.hpp"
#include "mc.hpp"
extern "C" {
#include "sa.h"
}
#include <openssl/bn.h>
#include <openssl/cmac.h>
#include <openssl/core_names.h>
#include <openssl/dh.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/params.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <memory>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;
constexpr uint64_t F(int b) { return (uint64_t) 1 << b; }
constexpr uint64_t OUT_FLAGS = F(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED) | F(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA) |
        F(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED) | F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14) |
        F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22) | F(SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP) | F(SA_USAGE_FLAG_SVP_OPTIONAL);
constexpr uint64_t KEY_FLAGS = F(0) | F(1) | F(2) | F(3) | F(4) | F(5);
constexpr uint64_t ALL_FLAGS = KEY_FLAGS | OUT_FLAGS | F(SA_USAGE_FLAG_CACHEABLE);

extern const char* const STATUS_NAME[];
const char* sn(int s);

// a heap block of exactly n bytes (so that the sanitizer sees any access beyond it), n may be 0
struct Blk {
    uint8_t* p; size_t n;
    explicit Blk(size_t n_, uint8_t fill = 0xee) : p((uint8_t*) malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_ ? n_ : 1); if (!n_) { free(p); p = (uint8_t*) malloc(1); } }
    explicit Blk(const Bytes& b) : Blk(b.size()) { if (n) memcpy(p, b.data(), n); }
    Blk(const Blk&) = delete; Blk& operator=(const Blk&) = delete;
    ~Blk() { free(p); }
    Bytes bytes() const { return Bytes(p, p + n); }
    bool all(uint8_t v, size_t from = 0) const { for (size_t i = from; i < n; i++) if (p[i] != v) return false; return true; }
};

sa_rights rights_all(uint64_t usage = ALL_FLAGS, uint64_t child = ALL_FLAGS);
Bytes pattern(size_t n, unsigned salt = 0);      // deterministic non-repeating test bytes
sa_buffer cbuf(void* p, size_t len, size_t off = 0);
sa_buffer sbuf(sa_svp_buffer b, size_t off = 0);

sa_key import_sym(const Bytes& k, const sa_rights& r, sa_status* st = nullptr);
sa_key import_ec(sa_elliptic_curve c, const Bytes& k, const sa_rights& r, sa_status* st = nullptr);
sa_key import_rsa_der(const Bytes& der, const sa_rights& r, sa_status* st = nullptr);

// reference implementations (OpenSSL, independent of the code under test)
Bytes ref_cipher(const char* name, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in, bool pad);
struct Aead { bool ok; Bytes out, tag; };
Aead ref_aead(const char* name, bool enc, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, const Bytes& tag, size_t tag_len);
Bytes ref_hmac(const char* digest, const Bytes& key, const Bytes& in);
Bytes ref_cmac(const Bytes& key, const Bytes& in);
Bytes ref_digest(const char* digest, const Bytes& in);
const char* dname(int sa_digest); size_t dlen(int sa_digest);
// fixed asymmetric test keys
EVP_PKEY* rsa_pkey(size_t bytes);                // 128, 256, 384, 512
Bytes rsa_der(size_t bytes);                     // PKCS8
const char* curve_name(int c); size_t curve_size(int c); bool curve_is_nist(int c);
Bytes pkey_pub_der(EVP_PKEY*);
Bytes pkcs8(EVP_PKEY*);
EVP_PKEY* ec_pkey(int curve, int idx = 0);         // fixed test keys; nullptr if the curve is not available
EVP_PKEY* ec_pkey_from_scalar(int curve, const Bytes& scalar);
sa_key import_ec_key(int curve, const sa_rights& r, int idx = 0);
bool header_of(sa_key k, sa_header* h);
// free slots of a kind, measured by filling up (and releasing again)
enum Kind { K_KEY, K_CIPHER, K_MAC, K_SVP };
int free_slots(Kind k, sa_key aes_key);
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes o; for (auto& b : l) o.insert(o.end(), b.begin(), b.end()); return o; }
inline Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
void sah_setup();                                // keystore location, warm-up
extern std::string g_repo;
