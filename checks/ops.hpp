// Catalogue of the operations of the API over named fixture objects. Every argument passes through Args, which can replace
// one (or two) of them by an invalid variant; every call goes either to the client API or to the trusted API of a session.
#pragma once
#include "cipher.hpp"
#include "containers.hpp"
#include <map>
extern "C" {
#include "ta_sa.h"
}
struct Api { bool ta = false; ta_client c = INVALID_HANDLE; sa_uuid u{}; };
// faults are injected only inside the calls of the system, not in the harness
#define CALL(A, fn, ...) ({ env::in_call = true; sa_status s_ = (A).ta ? ta_##fn(__VA_ARGS__, (A).c, &(A).u) : fn(__VA_ARGS__); env::in_call = false; s_; })
static inline sa_uuid uuid_of(uint8_t n) { sa_uuid u; memset(&u, 0, sizeof u); u.id[0] = 0xa0; u.id[15] = n; return u; }
static const char* KINDN[] = {"key", "cipher", "mac", "svp"};

static inline sa_status rel(Api& A, Kind k, sa_handle h) {
    if (k == K_KEY) return CALL(A, sa_key_release, h);
    if (k == K_CIPHER) return CALL(A, sa_crypto_cipher_release, h);
    if (k == K_MAC) return CALL(A, sa_crypto_mac_release, h);
    void* m = nullptr; size_t n = 0;
    return CALL(A, sa_svp_buffer_release, &m, &n, h);
}
static inline sa_status mkkey(Api& A, sa_handle* h, const Bytes& k, const sa_rights& r) {
    *h = INVALID_HANDLE; sa_import_parameters_symmetric p = {&r};
    return CALL(A, sa_key_import, h, SA_KEY_FORMAT_SYMMETRIC_BYTES, k.data(), k.size(), &p);
}
// number of objects of a kind that can still be created; aes: a usable AES key for ciphers and MACs
static inline int slots_free(Api& A, Kind kind, sa_handle aes) {
    std::vector<sa_handle> v; static uint8_t mem[16]; sa_rights r = rights_all(); static const Bytes kb(16, 1);
    for (;;) {
        sa_handle h = INVALID_HANDLE; sa_status s;
        if (kind == K_KEY) s = mkkey(A, &h, kb, r);
        else if (kind == K_CIPHER) s = CALL(A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, aes, nullptr);
        else if (kind == K_MAC) s = CALL(A, sa_crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, aes, nullptr);
        else s = CALL(A, sa_svp_buffer_create, &h, mem, sizeof mem);
        if (s != SA_STATUS_OK) break;
        v.push_back(h);
        if (v.size() > 1000) break;
    }
    for (auto h : v) rel(A, kind, h);
    return (int) v.size();
}

struct Fix;
struct Args {
    int site = -1, var = -1, site2 = -1, var2 = -1, n = 0;
    struct S { std::string name; int nv; };
    std::vector<S> sites; bool hit = false;
    int at(const char* name, int nv) {
        int i = n++;
        if ((int) sites.size() <= i) sites.push_back({name, nv});
        if (i == site && var < nv) { hit = true; return var; }
        if (i == site2 && var2 < nv) { hit = true; return var2; }
        return -1;
    }
    template<class T> T* P(const char* nm, T* p) { return at(nm, 1) >= 0 ? nullptr : p; }
    // v as a length: zero, one less, one more, and the given values
    size_t L(const char* nm, size_t v, std::vector<size_t> extra = {}) {
        std::vector<size_t> c = {v + 1};
        if (v) c.push_back(0);
        if (v > 1) c.push_back(v - 1);
        for (auto e : extra) if (e != v) c.push_back(e);
        int i = at(nm, (int) c.size());
        return i < 0 ? v : c[i];
    }
    template<class E> E En(const char* nm, E v, int count) {
        unsigned c[] = {(unsigned) count, 255, 0x7fffffff, 0xffffffff};
        int i = at(nm, 4);
        return i < 0 ? v : (E) c[i];
    }
    sa_handle H(const char* nm, sa_handle h, Kind k, Fix& f);
    sa_buffer* B(const char* nm, sa_buffer* b, Fix& f);
};
struct Obj {
    Kind kind; sa_handle h; std::string name;
    sa_header hdr; Bytes id;                 // key
    CParam cp; size_t pos = 0;               // cipher: bytes already processed of pattern(·, 5)
    int special = 0;                         // 1 rsa pkcs1, 2 rsa oaep, 3 elgamal
    bool cmac = false; Bytes sofar;          // mac
    uint8_t* mem = nullptr; Bytes want;      // svp
};
struct Arena { // buffers with slack behind them
    std::vector<uint8_t*> v;
    uint8_t* in(const Bytes& b) { uint8_t* p = (uint8_t*) malloc(b.size() + 16); memset(p, 0x5c, b.size() + 16); if (!b.empty()) memcpy(p, b.data(), b.size()); v.push_back(p); return p; }
    uint8_t* out(size_t n) { uint8_t* p = (uint8_t*) malloc(n + 16); memset(p, 0xee, n + 16); v.push_back(p); return p; }
    ~Arena() { for (auto p : v) free(p); }
};
// asymmetric reference encryption
static inline Bytes rsa_enc(size_t ks, bool oaep, const Bytes& m) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(rsa_pkey(ks), nullptr);
    EVP_PKEY_encrypt_init(x);
    EVP_PKEY_CTX_set_rsa_padding(x, oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING);
    if (oaep) { EVP_PKEY_CTX_set_rsa_oaep_md(x, EVP_sha256()); EVP_PKEY_CTX_set_rsa_mgf1_md(x, EVP_sha256()); EVP_PKEY_CTX_set0_rsa_oaep_label(x, OPENSSL_memdup("label", 5), 5); }
    Bytes ct(ks); size_t cl = ks;
    if (EVP_PKEY_encrypt(x, ct.data(), &cl, m.data(), m.size()) != 1) abort();
    EVP_PKEY_CTX_free(x);
    return ct;
}
// EC ElGamal: encrypts the point mm*G under the fixed key of the curve; ex receives its x coordinate
static inline Bytes elg_enc(int curve, unsigned salt, Bytes& ex) {
    size_t n = curve_size(curve);
    EC_GROUP* g = EC_GROUP_new_by_curve_name(EC_curve_nist2nid(curve_name(curve)));
    EC_POINT *M = EC_POINT_new(g), *C1 = EC_POINT_new(g), *C2 = EC_POINT_new(g);
    BN_CTX* bc = BN_CTX_new(); BIGNUM *k = BN_new(), *mm = BN_new(), *x = BN_new(), *y = BN_new();
    Bytes kb = pattern(n - 1, 900 + salt), mb = pattern(n - 1, 700 + salt);
    BN_bin2bn(kb.data(), (int) kb.size(), k); BN_bin2bn(mb.data(), (int) mb.size(), mm);
    EC_POINT_mul(g, M, mm, nullptr, nullptr, bc);
    EC_POINT_mul(g, C1, k, nullptr, nullptr, bc);
    EC_POINT_mul(g, C2, nullptr, EC_KEY_get0_public_key(EVP_PKEY_get0_EC_KEY(ec_pkey(curve))), k, bc);
    EC_POINT_add(g, C2, C2, M, bc);
    Bytes in(4 * n); ex.assign(n, 0);
    EC_POINT_get_affine_coordinates(g, C1, x, y, bc); BN_bn2binpad(x, in.data(), (int) n); BN_bn2binpad(y, in.data() + n, (int) n);
    EC_POINT_get_affine_coordinates(g, C2, x, y, bc); BN_bn2binpad(x, in.data() + 2 * n, (int) n); BN_bn2binpad(y, in.data() + 3 * n, (int) n);
    EC_POINT_get_affine_coordinates(g, M, x, y, bc); BN_bn2binpad(x, ex.data(), (int) n);
    EC_POINT_free(M); EC_POINT_free(C1); EC_POINT_free(C2); BN_free(k); BN_free(mm); BN_free(x); BN_free(y); BN_CTX_free(bc); EC_GROUP_free(g);
    return in;
}
// RFC 2409 group 2 (1024 bit), cheap enough to use everywhere
static inline Bytes dh_p() {
    BIGNUM* b = BN_get_rfc2409_prime_1024(nullptr); Bytes o(BN_num_bytes(b)); BN_bn2bin(b, o.data()); BN_free(b); return o;
}
static inline EVP_PKEY* dh_peer() {
    static EVP_PKEY* k;
    if (!k) {
        BIGNUM *p = BN_get_rfc2409_prime_1024(nullptr), *g = BN_new(), *priv = BN_new(), *pub = BN_new(); BN_set_word(g, 2);
        Bytes pr = pattern(64, 91); BN_bin2bn(pr.data(), 64, priv); BN_CTX* c = BN_CTX_new(); BN_mod_exp(pub, g, priv, p, c); BN_CTX_free(c);
        DH* d = DH_new(); DH_set0_pqg(d, p, nullptr, g); DH_set0_key(d, pub, priv);
        k = EVP_PKEY_new(); EVP_PKEY_assign_DH(k, d);
    }
    return k;
}
static const int SVPN = 64;
// memory behind protected buffers; a check can place it elsewhere
static uint8_t* (*svp_alloc)(size_t) = [](size_t n) { return (uint8_t*) malloc(n); };
static void (*svp_free)(uint8_t*) = [](uint8_t* p) { free(p); };
struct KeyDef { const char* name; int type; Bytes val; };
static inline Bytes keyval(const std::string& n) {
    if (n == "aes") return pattern(16, 40);
    if (n == "kc") return pattern(16, 43);
    if (n == "aes32") return pattern(32, 41);
    if (n == "kh") return pattern(32, 44);
    return pattern(32, 42); // "hm"
}
struct Fix {
    Api& A; std::map<std::string, Obj> o; sa_handle dead_[4]; bool have_dead[4] = {};
    std::function<void(const std::string&, sa_rights&)> rights;
    std::string err;
    std::vector<uint8_t*> mems;
    explicit Fix(Api& a) : A(a) {}
    ~Fix() { for (auto m : mems) svp_free(m); }
    sa_rights rts(const std::string& n) {
        sa_rights r = rights_all(); snprintf(r.id, sizeof r.id, "fx-%s", n.c_str());
        if (rights) rights(n, r);
        return r;
    }
    bool ok(sa_status s, const std::string& what) { if (s != SA_STATUS_OK && err.empty()) err = "fixture " + what + ": " + sn(s); return s == SA_STATUS_OK; }
    sa_handle key(const std::string& n) {
        auto it = o.find(n); if (it != o.end()) return it->second.h;
        Obj b{}; b.kind = K_KEY; b.name = n; b.h = INVALID_HANDLE; sa_status s;
        sa_rights r = rts(n);
        if (n == "rsa") { Bytes d = rsa_der(128); sa_import_parameters_rsa_private_key_info p = {&r}; s = CALL(A, sa_key_import, &b.h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, d.data(), d.size(), &p); }
        else if (n == "ec" || n == "x255" || n == "ed") {
            int c = n == "ec" ? 0 : n == "ed" ? 3 : 4; Bytes d = pkcs8(ec_pkey(c));
            sa_import_parameters_ec_private_bytes p = {&r, (sa_elliptic_curve) c}; s = CALL(A, sa_key_import, &b.h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, d.data(), d.size(), &p);
        } else if (n == "dh") { Bytes p = dh_p(); uint8_t g = 2; sa_generate_parameters_dh q = {p.data(), p.size(), &g, 1}; s = CALL(A, sa_key_generate, &b.h, &r, SA_KEY_TYPE_DH, &q); }
        else s = mkkey(A, &b.h, keyval(n), r);
        if (!ok(s, n)) return INVALID_HANDLE;
        b.id.clear(); describe(b.h, &b.hdr, &b.id);
        o[n] = b; return b.h;
    }
    // header and identity (digest or public key) of a key; false if not available
    bool describe(sa_handle h, sa_header* hdr, Bytes* id) {
        memset(hdr, 0, sizeof *hdr);
        struct Quiet { bool was = env::alloc_armed, wasc = env::crypto_armed; Quiet() { env::alloc_armed = env::crypto_armed = false; } ~Quiet() { env::alloc_armed = was; env::crypto_armed = wasc; } } quiet;
        if (CALL(A, sa_key_header, hdr, h) != SA_STATUS_OK) return false;
        uint8_t buf[1024]; size_t n = sizeof buf;
        sa_status s = hdr->type == SA_KEY_TYPE_SYMMETRIC ? CALL(A, sa_key_digest, buf, &n, h, SA_DIGEST_ALGORITHM_SHA256) : CALL(A, sa_key_get_public, buf, &n, h);
        if (s == SA_STATUS_OK) id->assign(buf, buf + n); else { id->assign(1, (uint8_t) s); }
        return true;
    }
    sa_status cinit_(Args& g, sa_handle* h, const CParam& p, sa_handle k) {
        Arena ar; *h = INVALID_HANDLE;
        sa_cipher_mode m = p.enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT;
        sa_cipher_parameters_aes_cbc q1; sa_cipher_parameters_aes_gcm q2; sa_cipher_parameters_chacha20 q3; void* q = nullptr;
        uint8_t *iv = ar.in(p.iv), *aad = ar.in(p.aad);
        switch (p.alg) {
            case CBC: case CBCP: case CTR: q1 = {g.P("iv", iv), g.L("iv_length", 16)}; q = g.P("parameters", &q1); break;
            case GCM: case CHAPOLY: q2 = {g.P("iv", iv), g.L("iv_length", 12), g.P("aad", aad), g.L("aad_length", p.aad.size())}; q = g.P("parameters", &q2); break;
            case CHACHA: q3 = {g.P("counter", iv), g.L("counter_length", 4), g.P("nonce", iv + 4), g.L("nonce_length", 12)}; q = g.P("parameters", &q3); break;
            default: break;
        }
        sa_cipher_algorithm a = g.En("algorithm", CALG[p.alg], 12); m = g.En("mode", m, 2);
        sa_handle* hp = g.P("context", h); k = g.H("key", k, K_KEY, *this);
        return CALL(A, sa_crypto_cipher_init, hp, a, m, k, q);
    }
    static CParam cparam_of(const std::string& n) { // "<alg>-enc" / "<alg>-dec"
        int a = 0; bool enc = n.substr(n.size() - 3) == "enc"; std::string s = n.substr(0, n.size() - 4);
        for (int i = 0; i < NCALG; i++) if (s == CALGN[i]) a = i;
        bool c = !c_aes(a);
        CParam p = cparam(a, enc, c ? 32 : 16); p.key = keyval(c ? "aes32" : "aes"); return p;
    }
    static const char* ckey(const std::string& n) { return n == "rsa-dec" || n == "oaep-dec" ? "rsa" : n == "elg-dec" ? "ec" : c_aes(cparam_of(n).alg) ? "aes" : "aes32"; }
    static Bytes stream(const CParam& p) { Bytes pt = pattern(64, 5); return p.enc ? pt : c_raw([&] { CParam q = p; q.enc = true; return q; }(), pt); }
    // output produced so far after processing n bytes: decryption with padding holds the last block back
    static size_t shown(const CParam& p, size_t n) { return c_pad(p.alg) && !p.enc && n >= 16 ? n - 16 : n; }
    // a context with its first block processed
    sa_handle cipher(const std::string& n, bool advance = true) {
        auto it = o.find(n); if (it != o.end()) return it->second.h;
        Obj b{}; b.kind = K_CIPHER; b.name = n; b.h = INVALID_HANDLE; sa_status s; Args none;
        sa_handle k = key(ckey(n));
        if (n == "rsa-dec") { b.special = 1; s = CALL(A, sa_crypto_cipher_init, &b.h, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_MODE_DECRYPT, k, nullptr); }
        else if (n == "oaep-dec") { b.special = 2; sa_cipher_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, (void*) "label", 5}; s = CALL(A, sa_crypto_cipher_init, &b.h, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_MODE_DECRYPT, k, &p); }
        else if (n == "elg-dec") { b.special = 3; s = CALL(A, sa_crypto_cipher_init, &b.h, SA_CIPHER_ALGORITHM_EC_ELGAMAL, SA_CIPHER_MODE_DECRYPT, k, nullptr); }
        else { b.cp = cparam_of(n); s = cinit_(none, &b.h, b.cp, k); }
        if (!ok(s, n)) return INVALID_HANDLE;
        if (!b.special && advance) {
            Bytes in = sub(stream(b.cp), 0, 16), out(16); sa_buffer I = cbuf(in.data(), 16), O = cbuf(out.data(), 16); size_t m = 16;
            if (!ok(CALL(A, sa_crypto_cipher_process, &O, b.h, &I, &m), n + " first block")) return INVALID_HANDLE;
            b.pos = 16;
        }
        o[n] = b; return b.h;
    }
    sa_handle mac(const std::string& n) { // "hmac" / "cmac"
        auto it = o.find(n); if (it != o.end()) return it->second.h;
        Obj b{}; b.kind = K_MAC; b.name = n; b.h = INVALID_HANDLE; b.cmac = n == "cmac"; sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256};
        sa_handle k = key(b.cmac ? "aes" : "hm");
        if (!ok(CALL(A, sa_crypto_mac_init, &b.h, b.cmac ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, k, b.cmac ? nullptr : (void*) &p), n)) return INVALID_HANDLE;
        b.sofar = pattern(11, 3);
        ok(CALL(A, sa_crypto_mac_process, b.h, b.sofar.data(), b.sofar.size()), n + " first data");
        o[n] = b; return b.h;
    }
    sa_handle svp(const std::string& n) { // "svpA" / "svpB"
        auto it = o.find(n); if (it != o.end()) return it->second.h;
        Obj b{}; b.kind = K_SVP; b.name = n; b.h = INVALID_HANDLE; b.mem = svp_alloc(SVPN); mems.push_back(b.mem);
        b.want = pattern(SVPN, n == "svpA" ? 11 : 12);
        if (!ok(CALL(A, sa_svp_buffer_create, &b.h, b.mem, SVPN), n)) return INVALID_HANDLE;
        memcpy(b.mem, b.want.data(), SVPN); // the memory behind the buffer, written by the display hardware as it were
        o[n] = b; return b.h;
    }
    sa_handle dead(Kind k) { // a handle that was valid once
        if (!have_dead[k]) {
            sa_handle h[40]; int n = 0; static uint8_t mem[8]; Bytes kb(16, 1); sa_handle ak = k == K_CIPHER || k == K_MAC ? key("aes") : 0;
            for (; n < 40; n++) { sa_status s = k == K_KEY ? mkkey(A, &h[n], kb, rights_all()) : k == K_CIPHER ? CALL(A, sa_crypto_cipher_init, &h[n], SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, ak, nullptr) :
                    k == K_MAC ? CALL(A, sa_crypto_mac_init, &h[n], SA_MAC_ALGORITHM_CMAC, ak, nullptr) : CALL(A, sa_svp_buffer_create, &h[n], mem, 8); if (s) break; }
            dead_[k] = h[n - 1]; have_dead[k] = true;
            for (int i = 0; i < n; i++) rel(A, k, h[i]);
        }
        return dead_[k];
    }
    // continues every object and compares; empty string if everything behaves as if nothing had happened
    std::string intact(const std::string& skip = "") { return intact(std::vector<std::string>{skip}); }
    std::string intact(const std::vector<std::string>& skip) {
        for (auto& e : o) {
            Obj& b = e.second;
            if (std::find(skip.begin(), skip.end(), e.first) != skip.end()) continue;
            if (b.kind == K_KEY) {
                sa_header h; Bytes id;
                if (!describe(b.h, &h, &id)) return "key " + b.name + " not usable";
                if (memcmp(&h, &b.hdr, sizeof h) || id != b.id) return "key " + b.name + " changed";
            } else if (b.kind == K_CIPHER && !b.special) {
                Bytes st = stream(b.cp), exp = c_raw(b.cp, st);
                // two blocks with process, the rest with process_last where the mode has one
                size_t left = 32; Bytes in = sub(st, b.pos, left), out(left + 32); sa_buffer I = cbuf(in.data(), left), O = cbuf(out.data(), out.size()); size_t m = left;
                sa_status s = CALL(A, sa_crypto_cipher_process, &O, b.h, &I, &m);
                if (s != SA_STATUS_OK) return "cipher " + b.name + " refuses its next data: " + sn(s);
                size_t from = shown(b.cp, b.pos), to = shown(b.cp, b.pos + left);
                if (m != to - from || memcmp(out.data(), exp.data() + from, m)) return "cipher " + b.name + " gives wrong output";
                if (c_aead(b.cp.alg) && b.cp.enc) {
                    Bytes tag(16); sa_cipher_end_parameters_aes_gcm q = {tag.data(), 16}; sa_buffer I2 = cbuf(in.data(), 0), O2 = cbuf(out.data(), out.size()); m = 0;
                    s = CALL(A, sa_crypto_cipher_process_last, &O2, b.h, &I2, &m, &q);
                    if (s != SA_STATUS_OK) return "cipher " + b.name + " refuses its last data: " + sn(s);
                    if (tag != c_tag(b.cp, sub(st, 0, b.pos + 32))) return "cipher " + b.name + " gives a wrong tag";
                }
            } else if (b.kind == K_CIPHER) {
                Bytes ex, ct;
                if (b.special == 3) ct = elg_enc(0, 2, ex); else { ex = pattern(20, 9); ct = rsa_enc(128, b.special == 2, ex); }
                Bytes out(256); sa_buffer I = cbuf(ct.data(), ct.size()), O = cbuf(out.data(), out.size()); size_t m = ct.size();
                sa_status s = CALL(A, sa_crypto_cipher_process, &O, b.h, &I, &m);
                if (s != SA_STATUS_OK) return "cipher " + b.name + " refuses data: " + sn(s);
                if (m != ex.size() || memcmp(out.data(), ex.data(), m)) return "cipher " + b.name + " gives wrong output";
            } else if (b.kind == K_MAC) {
                Bytes more = pattern(7, 4), tag(64); size_t n = 64; Bytes all = cat({b.sofar, more});
                sa_status s = CALL(A, sa_crypto_mac_process, b.h, more.data(), more.size());
                if (s == SA_STATUS_OK) s = CALL(A, sa_crypto_mac_compute, tag.data(), &n, b.h);
                if (s != SA_STATUS_OK) return "mac " + b.name + " refuses data: " + sn(s);
                tag.resize(n);
                if (tag != (b.cmac ? ref_cmac(keyval("aes"), all) : ref_hmac("SHA256", keyval("hm"), all))) return "mac " + b.name + " gives a wrong result";
            } else {
                if (memcmp(b.mem, b.want.data(), SVPN)) return "buffer " + b.name + " changed";
                Bytes d = ref_digest("SHA256", b.want);
                sa_status s = CALL(A, sa_svp_buffer_check, b.h, 0, SVPN, SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size());
                if (s != SA_STATUS_OK) return "buffer " + b.name + " not usable: " + sn(s);
            }
        }
        return "";
    }
    std::string release_all() {
        std::string e;
        for (int pass = 0; pass < 2; pass++) for (auto& x : o) {
            Obj& b = x.second; if ((b.kind == K_KEY) != (pass == 1) || b.h == INVALID_HANDLE) continue;
            sa_status s;
            if (b.kind == K_SVP) { void* m = nullptr; size_t n = 0; s = CALL(A, sa_svp_buffer_release, &m, &n, b.h); if (s == SA_STATUS_OK && (m != b.mem || n != SVPN) && e.empty()) e = "buffer " + b.name + " released with other memory"; }
            else s = rel(A, b.kind, b.h);
            if (s != SA_STATUS_OK && e.empty()) e = std::string("release of ") + KINDN[b.kind] + " " + b.name + ": " + sn(s);
        }
        o.clear();
        return e;
    }
};
inline sa_handle Args::H(const char* nm, sa_handle h, Kind k, Fix& f) {
    int i = at(nm, 4);
    if (i < 0) return h;
    return i == 0 ? INVALID_HANDLE : i == 1 ? 255 : i == 2 ? 256 : f.dead(k);
}
inline sa_buffer* Args::B(const char* nm, sa_buffer* b, Fix& f) {
    bool svp = b->buffer_type == SA_BUFFER_TYPE_SVP;
    int i = at(nm, 9);
    switch (i) {
        case 0: return nullptr;
        case 1: b->buffer_type = (sa_buffer_type) 2; break;
        case 2: b->buffer_type = (sa_buffer_type) -1; break;
        case 3: if (svp) b->context.svp.buffer = INVALID_HANDLE; else b->context.clear.buffer = nullptr; break;
        case 4: if (svp) b->context.svp.buffer = f.dead(K_SVP); else b->context.clear.length = 0; break;
        case 5: if (svp) b->context.svp.offset = SIZE_MAX; else b->context.clear.offset = SIZE_MAX; break;
        case 6: if (svp) b->context.svp.offset = SVPN; else b->context.clear.offset = b->context.clear.length; break;
        case 7: if (svp) b->context.svp.offset = SVPN + 1; else b->context.clear.offset = b->context.clear.length + 1; break;
        case 8: if (svp) b->context.svp.buffer = 255; else { void* p = b->context.clear.buffer; (void) p; b->buffer_type = SA_BUFFER_TYPE_SVP; b->context.svp.buffer = INVALID_HANDLE; b->context.svp.offset = 0; } break;
        default: break;
    }
    return b;
}
struct Res { sa_status s; Bytes out; Kind ck = K_KEY; sa_handle created = INVALID_HANDLE, created2 = INVALID_HANDLE, created3 = INVALID_HANDLE; };
struct Op {
    std::string name; int flag;                 // usage flag the key needs, -1 if none
    std::string key;                            // the key whose rights govern the operation
    std::string obj;                            // the object the operation changes when it succeeds
    std::vector<std::string> uses;              // all fixture objects referenced
    std::function<Res(Fix&, Args&)> run;
    bool random = false;                        // output depends on random numbers
};
enum { FL_EXCHANGE = SA_USAGE_FLAG_KEY_EXCHANGE, FL_DERIVE = SA_USAGE_FLAG_DERIVE, FL_UNWRAP = SA_USAGE_FLAG_UNWRAP, FL_ENCRYPT = SA_USAGE_FLAG_ENCRYPT,
    FL_DECRYPT = SA_USAGE_FLAG_DECRYPT, FL_SIGN = SA_USAGE_FLAG_SIGN, FL_CACHEABLE = SA_USAGE_FLAG_CACHEABLE };
static const sa_rights* child_request; // what the catalogue requests for a key it creates; default: everything
static inline sa_rights child_rights() { if (child_request) return *child_request; sa_rights r = rights_all(); strcpy(r.id, "child"); return r; }
// header (without the random parts) of a created key, so that results can be compared
static inline void seal(Fix& f, Res& r, bool ident = true) {
    if (r.s != SA_STATUS_OK || r.created == INVALID_HANDLE) return;
    sa_header h; Bytes id;
    if (!f.describe(r.created, &h, &id)) { r.out = Bytes{'?'}; return; }
    r.out.assign((uint8_t*) &h, (uint8_t*) &h + sizeof h);
    if (ident) r.out.insert(r.out.end(), id.begin(), id.end());
}
static std::vector<Op> build_ops() {
    std::vector<Op> v;
    auto add = [&](const std::string& n, int flag, const std::string& key, const std::string& obj, std::vector<std::string> uses, std::function<Res(Fix&, Args&)> f, bool rnd = false) { v.push_back({n, flag, key, obj, uses, f, rnd}); };
    // ---- keys without a parent
    add("import-symmetric", -1, "", "", {}, [](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); sa_import_parameters_symmetric p = {g.P("rights", &rt)};
        auto* kp = g.P("key", &r.created); auto fm = g.En("format", SA_KEY_FORMAT_SYMMETRIC_BYTES, 7); auto* in = g.P("in", a.in(pattern(16, 70))); size_t n = g.L("in_length", 16, {513, 15}); if (n > 32) in = a.in(pattern(n, 1)); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_import, kp, fm, in, n, q); seal(f, r); return r; });
    for (int c : {0, 4}) add(std::string("import-ec-") + curve_name(c), -1, "", "", {}, [c](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); Bytes d = pkcs8(ec_pkey(c, 1));
        sa_import_parameters_ec_private_bytes p = {g.P("rights", &rt), g.En("curve", (sa_elliptic_curve) c, 9)}; auto* kp = g.P("key", &r.created); auto* in = g.P("in", a.in(d)); size_t n = g.L("in_length", d.size()); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_import, kp, SA_KEY_FORMAT_EC_PRIVATE_BYTES, in, n, q); seal(f, r); return r; });
    add("import-rsa", -1, "", "", {}, [](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); Bytes d = rsa_der(128);
        sa_import_parameters_rsa_private_key_info p = {g.P("rights", &rt)}; auto* kp = g.P("key", &r.created); auto* in = g.P("in", a.in(d)); size_t n = g.L("in_length", d.size()); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_import, kp, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, in, n, q); seal(f, r); return r; });
    add("import-exported", FL_CACHEABLE, "aes", "", {"aes"}, [](Fix& f, Args& g) { Res r; Arena a; uint8_t blob[4096]; size_t n = sizeof blob; sa_handle k = f.key("aes");
        r.s = CALL(f.A, sa_key_export, blob, &n, nullptr, 0, k); if (r.s) return r;
        auto* kp = g.P("key", &r.created); auto* in = g.P("in", a.in(Bytes(blob, blob + n))); n = g.L("in_length", n, {16, 64, 16 + sizeof(sa_header)});
        r.s = CALL(f.A, sa_key_import, kp, SA_KEY_FORMAT_EXPORTED, in, n, nullptr); seal(f, r); return r; }, true);
    for (int ver : {1, 2, 3}) add("import-typej-v" + std::to_string(ver), FL_UNWRAP, "kc", "", {"kc", "kh"}, [ver](Fix& f, Args& g) { Res r; Arena a; TypeJ t; t.kc = keyval("kc"); t.kh = keyval("kh"); t.version = ver; if (ver == 3) { t.alg = "aesCbcPkcs5"; t.has_tas = true; t.tas = {"00000000-0000-0000-0000-000000000001", "ffffffff-ffff-ffff-ffff-ffffffffffff"}; }
        Bytes d = t.make(); sa_handle kc = f.key("kc"), kh = f.key("kh");
        sa_import_parameters_typej p = {g.H("kcipher", kc, K_KEY, f), g.H("khmac", kh, K_KEY, f)}; auto* kp = g.P("key", &r.created); auto* in = g.P("in", a.in(d)); size_t n = g.L("in_length", d.size(), {10, 50}); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_import, kp, SA_KEY_FORMAT_TYPEJ, in, n, q); seal(f, r); return r; });
    for (int kind = 0; kind < 3; kind++) add(kind == 0 ? "import-soc" : kind == 1 ? "import-soc-ec" : "import-soc-params", -1, "", "", {}, [kind](Fix& f, Args& g) { Res r; Arena a; Soc s; if (kind == 1) { s.type = "ECC-P256"; s.key = pkcs8(ec_pkey(0, 1)); s.version = 5; s.root = "common"; s.has_tas = true; s.tas = {"ffffffff-ffff-ffff-ffff-ffffffffffff"}; }
        Bytes d = s.make(); sa_import_parameters_soc p; memset(&p, 0, sizeof p); p.length[0] = sizeof p >> 8; p.length[1] = sizeof p & 255; p.version = 3; p.object_id = 0x0102030405060708ULL; p.default_rights = child_rights();
        auto* kp = g.P("key", &r.created); auto* in = g.P("in", a.in(d)); size_t n = g.L("in_length", d.size(), {10, 50});
        if (kind == 2) p.version = (uint8_t) g.L("version", 3, {255});
        r.s = CALL(f.A, sa_key_import, kp, SA_KEY_FORMAT_SOC, in, n, kind == 2 ? (void*) &p : nullptr); seal(f, r); return r; });
    add("generate-symmetric", -1, "", "", {}, [](Fix& f, Args& g) { Res r; sa_rights rt = child_rights(); sa_generate_parameters_symmetric p = {g.L("key_length", 16, {513})}; auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto t = g.En("type", SA_KEY_TYPE_SYMMETRIC, 4); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_generate, kp, rp, t, q); seal(f, r, false); return r; }, true);
    for (int c : {0, 3}) add(std::string("generate-ec-") + curve_name(c), -1, "", "", {}, [c](Fix& f, Args& g) { Res r; sa_rights rt = child_rights(); sa_generate_parameters_ec p = {g.En("curve", (sa_elliptic_curve) c, 9)}; auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_generate, kp, rp, SA_KEY_TYPE_EC, q); seal(f, r, false); return r; }, true);
    add("generate-rsa", -1, "", "", {}, [](Fix& f, Args& g) { Res r; sa_rights rt = child_rights(); sa_generate_parameters_rsa p = {g.L("modulus_length", 128, {1, 64})}; auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_generate, kp, rp, SA_KEY_TYPE_RSA, q); seal(f, r, false); return r; }, true);
    add("generate-dh", -1, "", "", {}, [](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); Bytes p = dh_p(); sa_generate_parameters_dh d = {g.P("p", a.in(p)), g.L("p_length", p.size(), {513}), g.P("g", a.in({2})), g.L("g_length", 1, {129})}; if (d.p_length > 140) d.p = a.in(pattern(513, 1)); if (d.g_length > 16) d.g = a.in(pattern(129, 1));
        auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto* q = g.P("parameters", &d);
        r.s = CALL(f.A, sa_key_generate, kp, rp, SA_KEY_TYPE_DH, q); seal(f, r, false); return r; }, true);
    // ---- reading keys
    for (auto kn : {"aes", "rsa", "ec", "dh"}) {
        std::string k = kn;
        add("header-" + k, -1, k, "", {k}, [k](Fix& f, Args& g) { Res r; sa_header h; memset(&h, 0, sizeof h); auto* hp = g.P("header", &h); auto kh = g.H("key", f.key(k), K_KEY, f); r.s = CALL(f.A, sa_key_header, hp, kh); r.out.assign((uint8_t*) &h, (uint8_t*) &h + sizeof h); return r; });
        add("export-" + k, FL_CACHEABLE, k, "", {k}, [k](Fix& f, Args& g) { Res r; Arena a; size_t n = 2500; auto* op = g.P("out", a.out(2500)); bool q = !op; n = g.L("out_length", n, {100}); auto* np = g.P("out_length_ptr", &n); auto* mx = g.P("mixin", a.in(pattern(16, 1))); size_t ml = g.L("mixin_length", 16); auto kh = g.H("key", f.key(k), K_KEY, f);
            r.s = CALL(f.A, sa_key_export, op, np, mx, ml, kh); if (!r.s) { r.out = {(uint8_t) n, (uint8_t) (n >> 8)}; (void) q; } return r; }, true);
        if (k != "aes") add("public-" + k, -1, k, "", {k}, [k](Fix& f, Args& g) { Res r; Arena a; size_t n = 600; auto* op = g.P("out", a.out(600)); n = g.L("out_length", n, {20}); auto* np = g.P("out_length_ptr", &n); auto kh = g.H("key", f.key(k), K_KEY, f);
            r.s = CALL(f.A, sa_key_get_public, op, np, kh); if (!r.s && op && n < 600) r.out.assign(op, op + n); return r; }, k == "dh");
    }
    add("digest", -1, "aes", "", {"aes"}, [](Fix& f, Args& g) { Res r; Arena a; size_t n = g.L("out_length", 32); auto* op = g.P("out", a.out(48)); auto* np = g.P("out_length_ptr", &n); auto kh = g.H("key", f.key("aes"), K_KEY, f); auto d = g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4);
        r.s = CALL(f.A, sa_key_digest, op, np, kh, d); if (!r.s && op && n <= 48) r.out.assign(op, op + n); return r; });
    // ---- derivation
    auto kd = [](Fix& f, Args& g, Res& r, sa_kdf_algorithm alg, void* p) { sa_rights rt = child_rights(); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto al = g.En("algorithm", alg, 7); auto* q = g.P("parameters", (char*) p);
        r.s = CALL(f.A, sa_key_derive, kp, rp, al, q); seal(f, r); };
    for (int com = 0; com < 2; com++) add(com ? "derive-common-ladder" : "derive-ladder", -1, "", "", {}, [kd, com](Fix& f, Args& g) { Res r; Arena a; sa_kdf_parameters_root_key_ladder p = {g.P("c1", a.in(pattern(16, 1))), g.L("c1_length", 16), g.P("c2", a.in(pattern(16, 2))), g.L("c2_length", 16), g.P("c3", a.in(pattern(16, 3))), g.L("c3_length", 16), g.P("c4", a.in(pattern(16, 4))), g.L("c4_length", 16)};
        kd(f, g, r, com ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &p); return r; });
    add("derive-hkdf", FL_DERIVE, "hm", "", {"hm"}, [kd](Fix& f, Args& g) { Res r; Arena a; sa_kdf_parameters_hkdf p = {g.L("key_length", 40, {513}), g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4), g.H("parent", f.key("hm"), K_KEY, f), g.P("salt", a.in(pattern(9, 1))), g.L("salt_length", 9), g.P("info", a.in(pattern(7, 2))), g.L("info_length", 7)}; kd(f, g, r, SA_KDF_ALGORITHM_HKDF, &p); return r; });
    add("derive-concat", FL_DERIVE, "hm", "", {"hm"}, [kd](Fix& f, Args& g) { Res r; Arena a; sa_kdf_parameters_concat p = {g.L("key_length", 40, {513}), g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4), g.H("parent", f.key("hm"), K_KEY, f), g.P("info", a.in(pattern(7, 2))), g.L("info_length", 7)}; kd(f, g, r, SA_KDF_ALGORITHM_CONCAT, &p); return r; });
    add("derive-x963", FL_DERIVE, "hm", "", {"hm"}, [kd](Fix& f, Args& g) { Res r; Arena a; sa_kdf_parameters_ansi_x963 p = {g.L("key_length", 40, {513}), g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4), g.H("parent", f.key("hm"), K_KEY, f), g.P("info", a.in(pattern(7, 2))), g.L("info_length", 7)}; kd(f, g, r, SA_KDF_ALGORITHM_ANSI_X963, &p); return r; });
    add("derive-cmac", FL_DERIVE, "aes", "", {"aes"}, [kd](Fix& f, Args& g) { Res r; Arena a; sa_kdf_parameters_cmac p = {g.L("key_length", 32, {80}), g.H("parent", f.key("aes"), K_KEY, f), g.P("other", a.in(pattern(7, 2))), g.L("other_length", 7), (uint8_t) g.L("counter", 1, {5, 4})}; kd(f, g, r, SA_KDF_ALGORITHM_CMAC, &p); return r; });
    add("derive-netflix", FL_DERIVE, "kc", "", {"kc", "kh"}, [kd](Fix& f, Args& g) { Res r; sa_kdf_parameters_netflix p = {g.H("kenc", f.key("kc"), K_KEY, f), g.H("khmac", f.key("kh"), K_KEY, f)}; kd(f, g, r, SA_KDF_ALGORITHM_NETFLIX, &p); return r; });
    // ---- exchange
    auto ex = [](Fix& f, Args& g, Res& r, sa_key_exchange_algorithm alg, const std::string& kn, const Bytes& pub) { Arena a; sa_rights rt = child_rights(); auto kh = g.H("private_key", f.key(kn), K_KEY, f); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto al = g.En("algorithm", alg, 3); auto* pp = g.P("other_public", a.in(pub)); auto pl = g.L("other_public_length", pub.size());
        r.s = CALL(f.A, sa_key_exchange, kp, rp, al, kh, pp, pl, nullptr); seal(f, r); };
    add("exchange-ecdh", FL_EXCHANGE, "ec", "", {"ec"}, [ex](Fix& f, Args& g) { Res r; ex(f, g, r, SA_KEY_EXCHANGE_ALGORITHM_ECDH, "ec", pkey_pub_der(ec_pkey(0, 1))); return r; });
    add("exchange-x25519", FL_EXCHANGE, "x255", "", {"x255"}, [ex](Fix& f, Args& g) { Res r; ex(f, g, r, SA_KEY_EXCHANGE_ALGORITHM_ECDH, "x255", pkey_pub_der(ec_pkey(4, 1))); return r; });
    add("exchange-dh", FL_EXCHANGE, "dh", "", {"dh"}, [ex](Fix& f, Args& g) { Res r; ex(f, g, r, SA_KEY_EXCHANGE_ALGORITHM_DH, "dh", pkey_pub_der(dh_peer())); return r; }, true);
    add("exchange-netflix-dh", FL_EXCHANGE, "dh", "", {"dh", "kc"}, [](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(), rt2 = rt, rt3 = rt; Bytes pub = pkey_pub_der(dh_peer()); sa_handle kw = f.key("kc");
        sa_key_exchange_parameters_netflix_authenticated_dh p = {g.H("in_kw", kw, K_KEY, f), g.P("out_ke", &r.created2), g.P("rights_ke", &rt2), g.P("out_kh", &r.created3), g.P("rights_kh", &rt3)};
        auto kh = g.H("private_key", f.key("dh"), K_KEY, f); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto* pp = g.P("other_public", a.in(pub)); auto pl = g.L("other_public_length", pub.size()); auto* q = g.P("parameters", &p);
        r.s = CALL(f.A, sa_key_exchange, kp, rp, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, kh, pp, pl, q); seal(f, r, false); return r; }, true);
    // ---- unwrap
    for (int al = 0; al < NCALG; al++) add(std::string("unwrap-") + CALGN[al], FL_UNWRAP, c_aes(al) ? "aes" : "aes32", "", {c_aes(al) ? "aes" : "aes32"}, [al](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); std::string kn = c_aes(al) ? "aes" : "aes32";
        CParam p = cparam(al, true, c_aes(al) ? 16 : 32); p.key = keyval(kn); Bytes k = pattern(16, 71), ct = c_encrypt(p, k);
        void* q = nullptr; sa_unwrap_parameters_aes_cbc q1; sa_unwrap_parameters_aes_gcm q2; sa_unwrap_parameters_chacha20 q3; uint8_t *iv = a.in(p.iv), *aad = a.in(p.aad);
        if (c_iv16(al)) { q1 = {g.P("iv", iv), g.L("iv_length", 16)}; q = g.P("algorithm_parameters", &q1); }
        else if (c_aead(al)) { q2 = {g.P("iv", iv), g.L("iv_length", 12), g.P("aad", aad), g.L("aad_length", p.aad.size()), g.P("tag", a.in(c_tag(p, k))), g.L("tag_length", 16)}; q = g.P("algorithm_parameters", &q2); }
        else if (al == CHACHA) { q3 = {g.P("counter", iv), g.L("counter_length", 4), g.P("nonce", iv + 4), g.L("nonce_length", 12)}; q = g.P("algorithm_parameters", &q3); }
        auto wk = g.H("wrapping_key", f.key(kn), K_KEY, f); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto t = g.En("key_type", SA_KEY_TYPE_SYMMETRIC, 4); auto ca = g.En("algorithm", CALG[al], 12); auto* in = g.P("in", a.in(ct)); auto n = g.L("in_length", ct.size(), {1});
        r.s = CALL(f.A, sa_key_unwrap, kp, rp, t, nullptr, ca, q, wk, in, n); seal(f, r); return r; });
    for (int t = 0; t < 2; t++) add(t ? "unwrap-cbc-ec" : "unwrap-cbc-rsa", FL_UNWRAP, "aes", "", {"aes"}, [t](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); CParam p = cparam(CBCP, true, 16); p.key = keyval("aes"); Bytes ct = c_encrypt(p, t ? pkcs8(ec_pkey(0, 1)) : rsa_der(128)); sa_unwrap_parameters_aes_cbc q = {a.in(p.iv), 16};
        sa_unwrap_type_parameters_ec e = {t ? g.En("curve", SA_ELLIPTIC_CURVE_NIST_P256, 9) : SA_ELLIPTIC_CURVE_NIST_P256}; auto wk = f.key("aes"); auto* kp = g.P("key", &r.created); void* tp = nullptr; if (t) tp = g.P("type_parameters", &e); auto n = g.L("in_length", ct.size(), {16, 32}); auto* in = a.in(ct);
        r.s = CALL(f.A, sa_key_unwrap, kp, &rt, t ? SA_KEY_TYPE_EC : SA_KEY_TYPE_RSA, tp, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, &q, wk, in, n); seal(f, r); return r; });
    for (int o = 0; o < 2; o++) add(o ? "unwrap-rsa-oaep" : "unwrap-rsa-pkcs1", FL_UNWRAP, "rsa", "", {"rsa"}, [o](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); Bytes ct = rsa_enc(128, o, pattern(16, 71));
        sa_unwrap_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, (void*) "label", 5}; void* q = nullptr;
        if (o) { p.digest_algorithm = g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4); p.mgf1_digest_algorithm = g.En("mgf1", SA_DIGEST_ALGORITHM_SHA256, 4); p.label = g.P("label", (char*) a.in({'l', 'a', 'b', 'e', 'l'})); p.label_length = g.L("label_length", 5); q = g.P("algorithm_parameters", &p); }
        auto wk = g.H("wrapping_key", f.key("rsa"), K_KEY, f); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto t = g.En("key_type", SA_KEY_TYPE_SYMMETRIC, 4); auto* in = g.P("in", a.in(ct)); auto n = g.L("in_length", ct.size());
        r.s = CALL(f.A, sa_key_unwrap, kp, rp, t, nullptr, o ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15, q, wk, in, n); seal(f, r); return r; });
    add("unwrap-elgamal", FL_UNWRAP, "ec", "", {"ec"}, [](Fix& f, Args& g) { Res r; Arena a; sa_rights rt = child_rights(); Bytes x, ct = elg_enc(0, 1, x); sa_unwrap_parameters_ec_elgamal p = {g.L("offset", 0, {32, 17, SIZE_MAX}), g.L("key_length", 16, {33, SIZE_MAX})};
        auto wk = g.H("wrapping_key", f.key("ec"), K_KEY, f); auto* kp = g.P("key", &r.created); auto* rp = g.P("rights", &rt); auto* q = g.P("algorithm_parameters", &p); auto* in = g.P("in", a.in(ct)); auto n = g.L("in_length", ct.size());
        r.s = CALL(f.A, sa_key_unwrap, kp, rp, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_EC_ELGAMAL, q, wk, in, n); seal(f, r); return r; });
    // ---- ciphers
    std::vector<std::string> cn;
    for (int al = 0; al < NCALG; al++) for (auto m : {"-enc", "-dec"}) cn.push_back(std::string(CALGN[al]) + m);
    for (auto& n : cn) {
        CParam p = Fix::cparam_of(n); std::string k = Fix::ckey(n); int fl = p.enc ? FL_ENCRYPT : FL_DECRYPT;
        add("cipher-init-" + n, fl, k, "", {k}, [n, k](Fix& f, Args& g) { Res r; r.ck = K_CIPHER; r.s = f.cinit_(g, &r.created, Fix::cparam_of(n), f.key(k)); return r; });
        for (int b = 0; b < (c_aead(p.alg) ? 1 : 3); b++) { // clear to clear, protected to protected, clear to protected
            std::vector<std::string> us = {n}; if (b) us.push_back("svpB"); if (b == 1) us.push_back("svpA");
            add("cipher-process-" + n + (b == 0 ? "" : b == 1 ? "-svp" : "-to-svp"), fl, k, n, us, [n, b](Fix& f, Args& g) { Res r; Arena a; CParam p = Fix::cparam_of(n); sa_handle c = f.cipher(n); Bytes in = sub(Fix::stream(p), 16, 32);
                if (b == 1) { f.svp("svpA"); Obj& o = f.o["svpA"]; memcpy(o.mem, in.data(), 32); memcpy(o.want.data(), in.data(), 32); }
                uint8_t* op = a.out(32); sa_buffer I = b == 1 ? sbuf(f.svp("svpA")) : cbuf(a.in(in), 32), O = b ? sbuf(f.svp("svpB")) : cbuf(op, 32); size_t m = g.L("bytes_to_process", 32, {16, 1, 48, 65, SIZE_MAX});
                if (m == 48) { if (!b) O = cbuf(a.out(48), 48); }
                auto* bo = g.B("out", &O, f); auto* bi = g.B("in", &I, f); auto* mp = g.P("bytes", &m); auto ch = g.H("context", c, K_CIPHER, f);
                r.s = CALL(f.A, sa_crypto_cipher_process, bo, ch, bi, mp); if (!r.s && bo && m <= 32) { r.out = b ? Bytes(f.o["svpB"].mem, f.o["svpB"].mem + m) : Bytes(op, op + m); } return r; });
        }
        bool has_last = p.alg != ECB && p.alg != CBC;
        if (has_last) add("cipher-last-" + n, fl, k, n, {n}, [n](Fix& f, Args& g) { Res r; Arena a; CParam p = Fix::cparam_of(n); sa_handle c = f.cipher(n); Bytes st = Fix::stream(p), in;
                // a complete message: the first block was processed
                if (c_pad(p.alg) && !p.enc) { CParam q = p; q.enc = true; in = sub(c_encrypt(q, pattern(20, 5)), 16, 16); }
                else if (c_block(p.alg) && !c_pad(p.alg)) in = sub(st, 16, 16);
                else in = sub(st, 16, 9);
                Bytes tag(16); if (c_aead(p.alg) && !p.enc) { CParam q = p; q.enc = true; tag = c_tag(q, pattern(16 + in.size(), 5)); }
                uint8_t *op = a.out(32), *tp = a.in(tag); sa_buffer I = cbuf(a.in(in), in.size()), O = cbuf(op, 32); size_t m = g.L("bytes_to_process", in.size(), {SIZE_MAX});
                sa_cipher_end_parameters_aes_gcm q; void* qp = nullptr; if (c_aead(p.alg)) { q = {g.P("tag", tp), g.L("tag_length", 16, {17})}; qp = g.P("parameters", &q); }
                auto* bo = g.B("out", &O, f); auto* bi = g.B("in", &I, f); auto* mp = g.P("bytes", &m); auto ch = g.H("context", c, K_CIPHER, f);
                r.s = CALL(f.A, sa_crypto_cipher_process_last, bo, ch, bi, mp, qp); if (!r.s && bo && m <= 32) { r.out.assign(op, op + m); if (p.enc) r.out.insert(r.out.end(), tp, tp + (c_aead(p.alg) ? 16 : 0)); } return r; });
        if (c_iv16(p.alg) && p.alg != CTR || p.alg == CTR) add("cipher-iv-" + n, fl, k, n, {n}, [n](Fix& f, Args& g) { Res r; Arena a; sa_handle c = f.cipher(n); auto ch = g.H("context", c, K_CIPHER, f); auto* iv = g.P("iv", a.in(pattern(16, 8))); auto l = g.L("iv_length", 16);
                r.s = CALL(f.A, sa_crypto_cipher_update_iv, ch, iv, l); return r; });
    }
    for (auto n0 : {"rsa-dec", "oaep-dec", "elg-dec"}) {
        std::string n = n0, k = Fix::ckey(n); int sp = n == "rsa-dec" ? 1 : n == "oaep-dec" ? 2 : 3;
        add("cipher-init-" + n, FL_DECRYPT, k, "", {k}, [n, k, sp](Fix& f, Args& g) { Res r; r.ck = K_CIPHER; sa_handle kh = f.key(k); sa_cipher_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, (void*) "label", 5}; void* q = nullptr; Arena a;
            if (sp == 2) { p.digest_algorithm = g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4); p.mgf1_digest_algorithm = g.En("mgf1", SA_DIGEST_ALGORITHM_SHA256, 4); p.label = g.P("label", (char*) a.in({'l', 'a', 'b', 'e', 'l'})); p.label_length = g.L("label_length", 5); q = g.P("parameters", &p); }
            auto* cp = g.P("context", &r.created); kh = g.H("key", kh, K_KEY, f); auto m = g.En("mode", SA_CIPHER_MODE_DECRYPT, 2);
            r.s = CALL(f.A, sa_crypto_cipher_init, cp, sp == 1 ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : sp == 2 ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_EC_ELGAMAL, m, kh, q); return r; });
        add("cipher-process-" + n, FL_DECRYPT, k, n, {n}, [n, sp](Fix& f, Args& g) { Res r; Arena a; sa_handle c = f.cipher(n); Bytes e = pattern(24, 3), ct = sp == 3 ? elg_enc(0, 1, e) : rsa_enc(128, sp == 2, e); uint8_t* op = a.out(128); sa_buffer I = cbuf(a.in(ct), ct.size()), O = cbuf(op, 128); size_t m = g.L("bytes_to_process", ct.size(), {SIZE_MAX});
            auto* bo = g.B("out", &O, f); auto* bi = g.B("in", &I, f); auto* mp = g.P("bytes", &m); auto ch = g.H("context", c, K_CIPHER, f);
            r.s = CALL(f.A, sa_crypto_cipher_process, bo, ch, bi, mp); if (!r.s && bo && m <= 128) r.out.assign(op, op + m); return r; });
    }
    add("cipher-release", -1, "aes", "ctr-enc", {"ctr-enc"}, [](Fix& f, Args& g) { Res r; auto ch = g.H("context", f.cipher("ctr-enc"), K_CIPHER, f); r.s = CALL(f.A, sa_crypto_cipher_release, ch); if (!r.s && ch == f.o["ctr-enc"].h) f.o.erase("ctr-enc"); return r; });
    // ---- MACs
    for (auto n0 : {"hmac", "cmac"}) {
        std::string n = n0, k = n == "cmac" ? "aes" : "hm";
        add("mac-init-" + n, FL_SIGN, k, "", {k}, [n, k](Fix& f, Args& g) { Res r; r.ck = K_MAC; sa_handle kh = f.key(k); sa_mac_parameters_hmac p = {g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4)}; void* q = nullptr; if (n == "hmac") q = g.P("parameters", &p); auto* cp = g.P("context", &r.created); kh = g.H("key", kh, K_KEY, f); auto al = g.En("algorithm", n == "cmac" ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, 2);
            r.s = CALL(f.A, sa_crypto_mac_init, cp, al, kh, q); return r; });
        add("mac-process-" + n, -1, k, n, {n}, [n](Fix& f, Args& g) { Res r; Arena a; auto c = g.H("context", f.mac(n), K_MAC, f); auto* in = g.P("in", a.in(pattern(20, 2))); auto l = g.L("in_length", 20); r.s = CALL(f.A, sa_crypto_mac_process, c, in, l); return r; });
        add("mac-process-key-" + n, -1, "aes32", n, {n, "aes32"}, [n](Fix& f, Args& g) { Res r; sa_handle kh = f.key("aes32"), mh = f.mac(n); auto c = g.H("context", mh, K_MAC, f); kh = g.H("key", kh, K_KEY, f); r.s = CALL(f.A, sa_crypto_mac_process_key, c, kh); return r; });
        add("mac-compute-" + n, -1, k, n, {n}, [n](Fix& f, Args& g) { Res r; Arena a; sa_handle mh = f.mac(n); size_t full = n == "cmac" ? 16 : 32, l = g.L("out_length", full); auto* op = g.P("out", a.out(48)); auto* lp = g.P("out_length_ptr", &l); auto c = g.H("context", mh, K_MAC, f); r.s = CALL(f.A, sa_crypto_mac_compute, op, lp, c); if (!r.s && op && l <= 48) r.out.assign(op, op + l); return r; });
        add("mac-release-" + n, -1, k, n, {n}, [n](Fix& f, Args& g) { Res r; auto c = g.H("context", f.mac(n), K_MAC, f); r.s = CALL(f.A, sa_crypto_mac_release, c); if (!r.s && c == f.o[n].h) f.o.erase(n); return r; });
    }
    // ---- signatures
    for (int t = 0; t < 4; t++) {
        static const char* sname[] = {"sign-rsa-pkcs1", "sign-rsa-pss", "sign-ecdsa", "sign-eddsa"}; static const char* kn[] = {"rsa", "rsa", "ec", "ed"};
        std::string k = kn[t];
        add(sname[t], FL_SIGN, k, "", {k}, [t, k](Fix& f, Args& g) { Res r; Arena a; sa_handle kh = f.key(k); size_t full = t < 2 ? 128 : 64; sa_sign_parameters_rsa_pss ps = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, false, 16}; sa_sign_parameters_rsa_pkcs1v15 pk = {SA_DIGEST_ALGORITHM_SHA256, false}; sa_sign_parameters_ecdsa pe = {SA_DIGEST_ALGORITHM_SHA256, false};
            if (t == 1) { ps.digest_algorithm = g.En("digest", ps.digest_algorithm, 4); ps.mgf1_digest_algorithm = g.En("mgf1", ps.mgf1_digest_algorithm, 4); ps.salt_length = g.L("salt_length", 16, {95, 94, SIZE_MAX}); ps.precomputed_digest = g.at("precomputed", 1) >= 0; }
            if (t == 0) { pk.digest_algorithm = g.En("digest", pk.digest_algorithm, 4); pk.precomputed_digest = g.at("precomputed", 1) >= 0; }
            if (t == 2) { pe.digest_algorithm = g.En("digest", pe.digest_algorithm, 4); pe.precomputed_digest = g.at("precomputed", 1) >= 0; }
            const void* q = t == 0 ? (void*) &pk : t == 1 ? (void*) &ps : t == 2 ? (void*) &pe : nullptr; if (t < 3) q = g.P("parameters", (const char*) q);
            size_t l = g.L("out_length", full); auto* op = g.P("out", a.out(full)); auto* lp = g.P("out_length_ptr", &l); auto al = g.En("algorithm", (sa_signature_algorithm) t, 4); kh = g.H("key", kh, K_KEY, f); auto* in = g.P("in", a.in(pattern(21, 2))); auto n = g.L("in_length", 21);
            r.s = CALL(f.A, sa_crypto_sign, op, lp, al, kh, in, n, q); if (!r.s && op && t != 2 && t != 1 && l <= full) r.out.assign(op, op + l); return r; }, t == 1 || t == 2);
    }
    add("random", -1, "", "", {}, [](Fix& f, Args& g) { Res r; Arena a; auto* op = g.P("out", a.out(20)); auto l = g.L("length", 20); r.s = CALL(f.A, sa_crypto_random, op, l); return r; }, true);
    // ---- protected buffers
    add("svp-create", -1, "", "", {}, [](Fix& f, Args& g) { Res r; r.ck = K_SVP; uint8_t* m = svp_alloc(SVPN); f.mems.push_back(m); auto* hp = g.P("svp_buffer", &r.created); auto* mp = g.P("memory", m); auto l = g.L("size", SVPN, {SIZE_MAX}); if (l == SVPN + 1) l = SVPN - 1; r.s = CALL(f.A, sa_svp_buffer_create, hp, mp, l); return r; });
    add("svp-release", -1, "", "svpA", {"svpA"}, [](Fix& f, Args& g) { Res r; void* m = nullptr; size_t n = 0; sa_handle b = f.svp("svpA"); auto* mp = g.P("memory", &m); auto* np = g.P("size", &n); auto h = g.H("svp_buffer", b, K_SVP, f); r.s = CALL(f.A, sa_svp_buffer_release, mp, np, h); if (!r.s && h == b) { r.out = {(uint8_t) (m == f.o["svpA"].mem), (uint8_t) n}; f.o.erase("svpA"); } return r; });
    add("svp-write", -1, "", "svpA", {"svpA"}, [](Fix& f, Args& g) { Res r; Arena a; sa_handle b = f.svp("svpA"); sa_svp_offset of[2] = {{g.L("out_offset0", 4, {64, SIZE_MAX}), 0, 8}, {20, g.L("in_offset1", 8, {25, SIZE_MAX}), g.L("length1", 16, {45, SIZE_MAX})}};
        auto* op = g.P("offsets", of); auto ol = g.L("offsets_length", 2) ; if (ol > 2) ol = 2; auto h = g.H("out", b, K_SVP, f); auto* in = g.P("in", a.in(pattern(24, 6))); auto n = g.L("in_length", 24); if (n > 24) n = 24;
        r.s = CALL(f.A, sa_svp_buffer_write, h, in, n, op, ol); if (!r.s) r.out.assign(f.o["svpA"].mem, f.o["svpA"].mem + SVPN); return r; });
    add("svp-copy", -1, "", "svpA", {"svpA", "svpB"}, [](Fix& f, Args& g) { Res r; sa_handle b = f.svp("svpA"), b2 = f.svp("svpB"); sa_svp_offset of[2] = {{g.L("out_offset0", 4, {64, SIZE_MAX}), 0, 8}, {20, g.L("in_offset1", 8, {57, SIZE_MAX}), g.L("length1", 16, {45, SIZE_MAX})}};
        auto* op = g.P("offsets", of); auto ol = g.L("offsets_length", 2); if (ol > 2) ol = 2; auto h = g.H("out", b, K_SVP, f); auto h2 = g.H("in", b2, K_SVP, f); r.s = CALL(f.A, sa_svp_buffer_copy, h, h2, op, ol); if (!r.s) r.out.assign(f.o["svpA"].mem, f.o["svpA"].mem + SVPN); return r; });
    add("svp-check", -1, "", "", {"svpA"}, [](Fix& f, Args& g) { Res r; Arena a; sa_handle b = f.svp("svpA"); auto h = g.H("svp_buffer", b, K_SVP, f); auto of = g.L("offset", 3, {64, 65, SIZE_MAX}), l = g.L("length", 20, {62, SIZE_MAX}); auto d = g.En("digest", SA_DIGEST_ALGORITHM_SHA256, 4); auto* hp = g.P("hash", a.in(ref_digest("SHA256", sub(f.o["svpA"].want, 3, 20)))); auto hl = g.L("hash_length", 32);
        r.s = CALL(f.A, sa_svp_buffer_check, h, of, l, d, hp, hl); return r; });
    add("svp-key-check", FL_DECRYPT, "aes", "", {"aes"}, [](Fix& f, Args& g) { Res r; Arena a; sa_handle k = f.key("aes"); CParam p = cparam(ECB, true, 16); p.key = keyval("aes"); Bytes pt = pattern(16, 1), ct = c_raw(p, pt); sa_buffer I = cbuf(a.in(ct), 16); k = g.H("key", k, K_KEY, f); auto* bi = g.B("in", &I, f); auto n = g.L("bytes_to_process", 16, {SIZE_MAX}); auto* e = g.P("expected", a.in(pt)); auto el = g.L("expected_length", 16);
        r.s = CALL(f.A, sa_svp_key_check, k, bi, n, e, el); return r; });
    add("svp-key-check-svp", FL_DECRYPT, "aes", "", {"aes", "svpA"}, [](Fix& f, Args& g) { Res r; Arena a; sa_handle k = f.key("aes"); CParam p = cparam(ECB, true, 16); p.key = keyval("aes"); Bytes pt = pattern(16, 1), ct = c_raw(p, pt); f.svp("svpA"); Obj& o = f.o["svpA"]; memcpy(o.mem, ct.data(), 16); memcpy(o.want.data(), ct.data(), 16); sa_buffer I = sbuf(f.svp("svpA")); k = g.H("key", k, K_KEY, f); auto* bi = g.B("in", &I, f);
        auto* ex = a.in(pt); r.s = CALL(f.A, sa_svp_key_check, k, bi, 16, ex, 16); return r; });
    // ---- common encryption
    for (int b = 0; b < 3; b++) for (int cb = 0; cb < 2; cb++) {
        std::string n = cb ? "cbc-dec" : "ctr-dec"; std::vector<std::string> us = {n}; if (b) us.push_back("svpB"); if (b == 1) us.push_back("svpA");
        add(std::string("cenc-") + (cb ? "cbc" : "ctr") + (b == 0 ? "" : b == 1 ? "-svp" : "-to-svp"), FL_DECRYPT, "aes", n, us, [n, b, cb](Fix& f, Args& g) { Res r; Arena a; CParam p = Fix::cparam_of(n); sa_handle c = f.cipher(n); Bytes in = pattern(60, 21);
            if (b == 1) { f.svp("svpA"); Obj& o = f.o["svpA"]; memcpy(o.mem, in.data(), 60); memcpy(o.want.data(), in.data(), 60); }
            uint8_t* op = a.out(60); sa_buffer I = b == 1 ? sbuf(f.svp("svpA")) : cbuf(a.in(in), 60), O = b ? sbuf(f.svp("svpB")) : cbuf(op, 60);
            sa_subsample_length ss[2] = {{g.L("clear0", 6, {61, SIZE_MAX}), 16}, {6, g.L("protected1", 32, {SIZE_MAX})}}; sa_sample s; memset(&s, 0, sizeof s); s.iv = g.P("iv", a.in(pattern(16, 8))); s.iv_length = g.L("iv_length", 16); s.crypt_byte_block = g.L("crypt_byte_block", 1, {10, 65536, SIZE_MAX}); s.skip_byte_block = g.L("skip_byte_block", 1, {65536, SIZE_MAX}); s.subsample_count = g.L("subsample_count", 2); if (s.subsample_count > 2) s.subsample_count = 1; s.subsample_lengths = g.P("subsample_lengths", ss); s.context = g.H("context", c, K_CIPHER, f);
            s.out = g.B("out", &O, f); s.in = g.B("in", &I, f); auto n2 = g.L("samples_length", 1); if (n2 > 1) n2 = 0; auto* sp = g.P("samples", &s);
            r.s = CALL(f.A, sa_process_common_encryption, n2, sp); if (!r.s) r.out = b ? Bytes(f.o["svpB"].mem, f.o["svpB"].mem + 60) : Bytes(op, op + 60); return r; });
    }
    add("key-release", -1, "hm", "hm", {"hm"}, [](Fix& f, Args& g) { Res r; auto h = g.H("key", f.key("hm"), K_KEY, f); r.s = CALL(f.A, sa_key_release, h); if (!r.s && h == f.o["hm"].h) f.o.erase("hm"); return r; });
    return v;
}
static inline void drop_created(Fix& f, Res& r) { // releases what a successful call created
    if (r.s != SA_STATUS_OK) return;
    for (auto h : {r.created, r.created2, r.created3}) if (h != INVALID_HANDLE) rel(f.A, r.ck, h);
}
