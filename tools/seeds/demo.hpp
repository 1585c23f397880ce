// Shared by the demonstrations: a few helpers over the public API and the trusted-application API.
#pragma once
#include "sa.h"
#include "ta_sa.h"
#include "sa_rights.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <openssl/evp.h>
typedef std::vector<uint8_t> Bytes;
#define MUST(c) do { if (!(c)) { printf("DEMO FAILS at line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static inline Bytes bytes(size_t n, int seed = 1) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (i * 7 + seed * 31 + (i >> 4)); return b; }
static inline sa_rights all_rights() { sa_rights r; sa_rights_set_allow_all(&r); return r; }
static inline sa_uuid ta_uuid(uint8_t last, uint8_t first = 0xa0) { sa_uuid u; memset(&u, 0x11, sizeof u); u.id[0] = first; u.id[15] = last; return u; }
static inline sa_buffer clear_buf(void* p, size_t n, size_t off = 0) { sa_buffer b; memset(&b, 0, sizeof b); b.buffer_type = SA_BUFFER_TYPE_CLEAR; b.context.clear.buffer = p; b.context.clear.length = n; b.context.clear.offset = off; return b; }
static inline sa_buffer svp_buf(sa_svp_buffer h, size_t off = 0) { sa_buffer b; memset(&b, 0, sizeof b); b.buffer_type = SA_BUFFER_TYPE_SVP; b.context.svp.buffer = h; b.context.svp.offset = off; return b; }
// a session: the public API (ta == false) or a trusted application's own
struct S {
    bool ta; ta_client c; sa_uuid u;
    S() : ta(false), c(0) {}
    S(sa_uuid id) : ta(true), c(0), u(id) { MUST(ta_sa_init(&c, &u) == SA_STATUS_OK); }
    void close() { if (ta) MUST(ta_sa_close(c, &u) == SA_STATUS_OK); }
};
#define CALL(s, f, ...) ((s).ta ? ta_##f(__VA_ARGS__, (s).c, &(s).u) : f(__VA_ARGS__))
static inline sa_status import_st(S& s, sa_key* k, const Bytes& v, sa_rights r) { sa_import_parameters_symmetric p = {&r}; *k = INVALID_HANDLE; return CALL(s, sa_key_import, k, SA_KEY_FORMAT_SYMMETRIC_BYTES, v.data(), v.size(), &p); }
static inline sa_key import_sym(S& s, const Bytes& v, sa_rights r = all_rights()) { sa_key k; MUST(import_st(s, &k, v, r) == SA_STATUS_OK); return k; }
static inline Bytes evp(const EVP_CIPHER* e, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in, bool pad = false) {
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 32); int n = 0, m = 0;
    MUST(EVP_CipherInit_ex(x, e, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc)); EVP_CIPHER_CTX_set_padding(x, pad);
    MUST(EVP_CipherUpdate(x, o.data(), &n, in.data(), (int) in.size())); MUST(EVP_CipherFinal_ex(x, o.data() + n, &m)); EVP_CIPHER_CTX_free(x); o.resize(n + m); return o;
}
