// Reference model shared by the cipher checks.
#pragma once
#include "sah.hpp"
#include "ta_sa.h"
enum CAlg { ECB, ECBP, CBC, CBCP, CTR, GCM, CHACHA, CHAPOLY, NCALG };
static const char* CALGN[] = {"ecb", "ecb-pkcs7", "cbc", "cbc-pkcs7", "ctr", "gcm", "chacha20", "chacha20-poly1305"};
static const sa_cipher_algorithm CALG[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC,
        SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305};
static inline bool c_block(int a) { return a <= CBCP; }
static inline bool c_pad(int a) { return a == ECBP || a == CBCP; }
static inline bool c_aead(int a) { return a == GCM || a == CHAPOLY; }
static inline bool c_aes(int a) { return a <= GCM; }
static inline bool c_iv16(int a) { return a == CBC || a == CBCP || a == CTR; }
static inline size_t c_ivlen(int a) { return a == ECB || a == ECBP ? 0 : c_iv16(a) || a == CHACHA ? 16 : 12; }
struct CParam { int alg; bool enc; size_t klen; Bytes key, iv, aad; };
static inline CParam cparam(int alg, bool enc, size_t klen, unsigned salt = 0, int aadlen = 20) {
    CParam p{alg, enc, klen, pattern(klen, 40 + salt), pattern(c_ivlen(alg), 50 + salt), c_aead(alg) ? pattern(aadlen, 60 + salt) : Bytes()};
    return p;
}
static inline std::string cdesc(const CParam& p) { return mc::strf("%s-%zu %s", CALGN[p.alg], p.klen * 8, p.enc ? "encrypt" : "decrypt"); }
static inline sa_status cinit(sa_crypto_cipher_context* c, const CParam& p, sa_key k) {
    Blk iv(p.iv), aad(p.aad);
    *c = INVALID_HANDLE;
    sa_cipher_mode m = p.enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT;
    switch (p.alg) {
        case CBC: case CBCP: { sa_cipher_parameters_aes_cbc q = {iv.p, iv.n}; return sa_crypto_cipher_init(c, CALG[p.alg], m, k, &q); }
        case CTR: { sa_cipher_parameters_aes_ctr q = {iv.p, iv.n}; return sa_crypto_cipher_init(c, CALG[p.alg], m, k, &q); }
        case GCM: { sa_cipher_parameters_aes_gcm q = {iv.p, iv.n, aad.n ? aad.p : nullptr, aad.n}; return sa_crypto_cipher_init(c, CALG[p.alg], m, k, &q); }
        case CHACHA: { Blk ctr(Bytes(p.iv.begin(), p.iv.begin() + 4)), nonce(Bytes(p.iv.begin() + 4, p.iv.end()));
            sa_cipher_parameters_chacha20 q = {ctr.p, 4, nonce.p, 12}; return sa_crypto_cipher_init(c, CALG[p.alg], m, k, &q); }
        case CHAPOLY: { sa_cipher_parameters_chacha20_poly1305 q = {iv.p, iv.n, aad.n ? aad.p : nullptr, aad.n}; return sa_crypto_cipher_init(c, CALG[p.alg], m, k, &q); }
        default: return sa_crypto_cipher_init(c, CALG[p.alg], m, k, nullptr);
    }
}
static inline const char* c_ossl(int a, size_t klen) {
    bool k16 = klen == 16;
    switch (a) {
        case ECB: case ECBP: return k16 ? "AES-128-ECB" : "AES-256-ECB";
        case CBC: case CBCP: return k16 ? "AES-128-CBC" : "AES-256-CBC";
        case CTR: return k16 ? "AES-128-CTR" : "AES-256-CTR";
        case GCM: return k16 ? "AES-128-GCM" : "AES-256-GCM";
        case CHACHA: return "ChaCha20";
        default: return "ChaCha20-Poly1305";
    }
}
// the whole-message result without padding (block multiples for the block modes)
static inline Bytes c_raw(const CParam& p, const Bytes& in) {
    if (in.empty()) return {};
    if (c_aead(p.alg)) return ref_aead(c_ossl(p.alg, p.klen), p.enc, p.key, p.iv, p.aad, in, Bytes(16), 16).out;
    return ref_cipher(c_ossl(p.alg, p.klen), p.enc, p.key, p.iv, in, false);
}
static inline Bytes c_pad_add(const Bytes& in) { Bytes o = in; size_t n = 16 - in.size() % 16; o.insert(o.end(), n, (uint8_t) n); return o; }
static inline bool c_pad_ok(const Bytes& padded) {
    if (padded.empty() || padded.size() % 16) return false;
    uint8_t n = padded.back();
    if (n < 1 || n > 16) return false;
    for (size_t i = padded.size() - n; i < padded.size(); i++) if (padded[i] != n) return false;
    return true;
}
// the tag over a complete message (plaintext side)
static inline Bytes c_tag(const CParam& p, const Bytes& plain, size_t n = 16) { return ref_aead(c_ossl(p.alg, p.klen), true, p.key, p.iv, p.aad, plain, Bytes(), n).tag; }
// ciphertext of a plaintext, for building decryption inputs
static inline Bytes c_encrypt(const CParam& p, const Bytes& plain) {
    CParam q = p; q.enc = true;
    return c_raw(q, c_pad(p.alg) ? c_pad_add(plain) : plain);
}
// One process/process_last call; the chunk is the whole of an exact-size input block, out is exact-size too.
struct CRes { sa_status s; Bytes out; size_t n; bool offsets_ok; bool slack_ok; };
static inline sa_status craw_call(bool last, sa_buffer* o, sa_crypto_cipher_context c, sa_buffer* i, size_t* n, void* par) {
    return last ? sa_crypto_cipher_process_last(o, c, i, n, par) : sa_crypto_cipher_process(o, c, i, n);
}
// mode 0: separate clear buffers with offsets; mode 1: in place, clear
static inline CRes ccall(bool last, sa_crypto_cipher_context c, const Bytes& in, size_t outcap, int mode, void* par, size_t slack = 0) {
    CRes r{}; r.n = in.size();
    size_t oo = mode == 2 ? 5 : 0, io = mode == 2 ? 3 : 0;
    if (mode == 1) {
        size_t cap = std::max(in.size(), outcap);
        Blk b(cap + slack); if (!in.empty()) memcpy(b.p, in.data(), in.size());
        Bytes before = b.bytes();
        sa_buffer o = cbuf(b.p, cap), i = cbuf(b.p, cap);
        r.s = craw_call(last, &o, c, &i, &r.n, par);
        r.offsets_ok = r.s == SA_STATUS_OK ? o.context.clear.offset == r.n && i.context.clear.offset == in.size() : o.context.clear.offset == 0 && i.context.clear.offset == 0;
        r.slack_ok = b.all(0xee, cap);
        if (r.s == SA_STATUS_OK) r.out.assign(b.p, b.p + std::min(r.n, cap)); else r.out = b.bytes() == before ? Bytes() : Bytes(1);
        return r;
    }
    Blk ib(in.size() + io), ob(outcap + oo + slack);
    if (!in.empty()) memcpy(ib.p + io, in.data(), in.size());
    sa_buffer o = cbuf(ob.p, outcap + oo, oo), i = cbuf(ib.p, in.size() + io, io);
    r.s = craw_call(last, &o, c, &i, &r.n, par);
    r.offsets_ok = r.s == SA_STATUS_OK ? o.context.clear.offset == oo + r.n && i.context.clear.offset == io + in.size() : o.context.clear.offset == oo && i.context.clear.offset == io;
    r.slack_ok = ob.all(0xee, outcap + oo);
    for (size_t k = 0; k < oo; k++) r.slack_ok &= ob.p[k] == 0xee;
    if (r.s == SA_STATUS_OK) r.out.assign(ob.p + oo, ob.p + oo + std::min(r.n, outcap)); else r.out = ob.all(0xee) ? Bytes() : Bytes(1);
    return r;
}
// 4 GB and more of memory that can be read and written and takes up 2 MB: the same pages again and again
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
static const size_t GIANT = (1ull << 32) + (1 << 21);
static inline uint8_t* giant(int which) {
    static uint8_t* g[2]; if (g[which]) return g[which];
    const size_t M = 1 << 21; int fd = (int) syscall(SYS_memfd_create, "giant", 0); if (fd < 0 || ftruncate(fd, M)) abort();
    uint8_t* a = (uint8_t*) mmap(nullptr, GIANT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) abort();
    for (size_t i = 0; i < GIANT; i += M) if (mmap(a + i, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    close(fd); return g[which] = a;
}
// a session of the trusted API with one key (the trusted API is given the caller's memory as it is)
struct TaKey {
    ta_client T = 0; sa_uuid u; sa_key key = INVALID_HANDLE; bool ok;
    explicit TaKey(const Bytes& k) { memset(&u, 0, sizeof u); u.id[0] = 0xa0; u.id[15] = 1; sa_rights rt = rights_all(); sa_import_parameters_symmetric ip = {&rt}; ok = ta_sa_init(&T, &u) == SA_STATUS_OK && ta_sa_key_import(&key, SA_KEY_FORMAT_SYMMETRIC_BYTES, k.data(), k.size(), &ip, T, &u) == SA_STATUS_OK; }
    ~TaKey() { if (ok) ta_sa_close(T, &u); }
};
