// C16: every operation sequence on a cipher context against a reference automaton.
#include "cipher.hpp"
using namespace mc;
enum Op { P0, P1, P15, P16, P17, P32, P48, L0, L1, L15, L16, L17, L32, LNOPAR, QP, QL, IVOK, IVBAD, IVNULL, SHORT, LSHORT, INOFF, BADTYPE, BADTYPEIN, NULLIN, MODE, REL, KREL, OTHER, NOPS };
static const char* OPN[] = {"p0", "p1", "p15", "p16", "p17", "p32", "p48", "l0", "l1", "l15", "l16", "l17", "l32", "l-nopar", "qp", "ql", "iv", "iv-bad", "iv-null", "short", "lshort", "in-off", "badtype", "badtype-in", "nullin", "svp", "rel", "krel", "other"};

struct Model {
    CParam p; Bytes iv0; Bytes in; size_t produced = 0; // since the last (re)start
    bool finished = false, released = false, broken = false, keyrel = false;
};
// The data a decryption context is fed is an arbitrary byte stream; for padded decryption and tags the harness chooses
// the last chunk so that both verdicts occur.
static Bytes chunk(const Model& m, size_t n, int salt) { return pattern(n, 100 + salt + (unsigned) m.in.size()); }

struct W { Run& r; sa_crypto_cipher_context c; sa_key key; Model m; sa_key other_key; };

// whether a process/process_last call of n bytes is allowed by the documented rules of the algorithm in this state
static bool allowed(const Model& m, bool last, size_t n, bool par) {
    int a = m.p.alg;
    if (m.released || m.finished) return false;
    if (!last) return !c_block(a) || n % 16 == 0;
    if (a == ECB || a == CBC) return false;
    if (c_pad(a)) return m.p.enc ? n <= 16 : n == 16 || n == 0;
    if (c_aead(a) && !par) return false;
    if (a == GCM) return n <= 16;
    if (!m.p.enc && a != CHAPOLY) return n <= 16;
    return true;
}
static void data_call(W& w, bool last, size_t n, bool par, int salt) {
    Run& r = w.r; Model& m = w.m;
    int a = m.p.alg;
    bool ok = allowed(m, last, n, par);
    Bytes d = chunk(m, n, salt), total = m.in; 
    bool verdict = true;
    Bytes tag(16);
    if (ok && last && n && c_pad(a) && !m.p.enc && salt % 3) { // make the last block well-padded
        CParam q = m.p; q.enc = true;
        Bytes plain = m.in.empty() ? Bytes() : c_raw(m.p, m.in);
        Bytes pl(16, (uint8_t) (1 + salt % 16)); for (int i = 0; i < 16 - (1 + salt % 16); i++) pl[i] = (uint8_t) (i * 7 + salt);
        plain.insert(plain.end(), pl.begin(), pl.end());
        Bytes ct = c_raw(q, plain); d = sub(ct, ct.size() - 16, 16);
    }
    total.insert(total.end(), d.begin(), d.end());
    Bytes exp;
    if (ok) {
        exp = m.p.enc && last && c_pad(a) ? c_raw(m.p, c_pad_add(total)) : c_raw(m.p, total);
        if (last && c_pad(a) && !m.p.enc) { verdict = c_pad_ok(exp); if (verdict) exp.resize(exp.size() - exp.back()); }
        if (last && c_aead(a)) { tag = c_tag(m.p, m.p.enc ? total : exp); if (!m.p.enc && salt % 3 == 0) { tag[salt % 16] ^= 0x40; verdict = false; } }
    }
    Bytes tagin = tag;
    Blk tb(tagin); if (m.p.enc) memset(tb.p, 0, 16);
    sa_cipher_end_parameters_aes_gcm ep = {tb.p, 16};
    size_t cap = n + (last && c_pad(a) ? 16 - n % 16 : 0); 
    CRes res = ccall(last, w.c, d, cap, salt % 2 ? 0 : 2, par ? &ep : nullptr, 8);
    r.transitions();
    r.check(res.slack_ok, "wrote outside the output range");
    r.check(res.offsets_ok, "offsets wrong after %s", sn(res.s));
    if (!ok) {
        r.check(res.s != SA_STATUS_OK, "%s of %zu bytes succeeded in a state where it is not allowed", last ? "process_last" : "process", n);
        r.check(res.out.empty(), "refused call wrote output");
        if (last && m.finished && !m.released) r.check(res.s == SA_STATUS_INVALID_PARAMETER, "second process_last returned %s", sn(res.s));
        return;
    }
    if (!verdict) {
        r.check(res.s == SA_STATUS_VERIFICATION_FAILED, "last part that must not verify returned %s", sn(res.s));
        m.finished = true;
        return;
    }
    if (!r.check(res.s == SA_STATUS_OK, "%s of %zu bytes returned %s", last ? "process_last" : "process", n, sn(res.s))) { m.broken = true; return; }
    size_t base = m.produced, got = res.n;
    if (!c_pad(a) || m.p.enc) r.check(base + got == exp.size(), "%zu bytes in gave %zu bytes out", n, got);
    else if (last) r.check(base + got == exp.size(), "last part gave %zu bytes, expected %zu", got, exp.size() - base);
    else r.check(base + got <= exp.size() && base + got + 16 >= exp.size(), "%zu bytes in gave %zu out", n, got);
    r.check(base + got <= exp.size() && !memcmp(res.out.data(), exp.data() + base, std::min(got, exp.size() - base)), "output %s, expected %s",
            hex(res.out.data(), res.out.size()).c_str(), hex(exp.data() + std::min(base, exp.size()), exp.size() - std::min(base, exp.size())).c_str());
    if (last && c_aead(a) && m.p.enc) r.check(!memcmp(tb.p, tag.data(), 16), "tag %s, expected %s", hex(tb.p, 16).c_str(), hex(tag.data(), 16).c_str());
    m.in = total; m.produced += got;
    if (last) m.finished = true;
    if (got) r.nontrivial(mc::hash(exp.data(), exp.size()));
}
static void refused_raw(W& w, const char* what, sa_status s) { w.r.transitions(); w.r.check(s != SA_STATUS_OK, "%s succeeded", what); }
static void step(W& w, Op op, int salt) {
    Run& r = w.r; Model& m = w.m; int a = m.p.alg;
    static const size_t PN[] = {0, 1, 15, 16, 17, 32, 48}, LN[] = {0, 1, 15, 16, 17, 32};
    if (op <= P48) data_call(w, false, PN[op - P0], true, salt);
    else if (op <= L32) data_call(w, true, LN[op - L0], true, salt);
    else switch (op) {
        case LNOPAR: data_call(w, true, c_pad(a) && !m.p.enc ? 16 : 0, false, salt); break;
        case QP: case QL: {
            Bytes d = pattern(16, 1); sa_buffer I = cbuf(d.data(), 16); size_t n = 16;
            uint8_t t[16]; sa_cipher_end_parameters_aes_gcm ep = {t, 16};
            sa_status s = craw_call(op == QL, nullptr, w.c, &I, &n, op == QL ? &ep : nullptr);
            r.transitions();
            if (m.released) r.check(s != SA_STATUS_OK, "size query on a released context");
            r.check(I.context.clear.offset == 0, "size query moved an offset");
            if (s == SA_STATUS_OK && (op == QP || (a != ECB && a != CBC))) r.check(n >= 16 && n <= 32, "size query says %zu", n);
            break;
        }
        case IVOK: {
            Bytes iv = pattern(16, 200 + salt); Blk b(iv);
            sa_status s = sa_crypto_cipher_update_iv(w.c, b.p, 16);
            r.transitions();
            bool ok = c_iv16(a) && !m.released;
            r.check((s == SA_STATUS_OK) == ok, "update_iv returned %s", sn(s));
            if (s == SA_STATUS_OK && ok) { m.p.iv = iv; m.in.clear(); m.produced = 0; m.finished = false; }
            break;
        }
        case IVBAD: for (size_t n : {0, 12, 15, 17, 32}) { Blk b(n); refused_raw(w, "update_iv with a wrong length", sa_crypto_cipher_update_iv(w.c, b.p, n)); } break;
        case IVNULL: refused_raw(w, "update_iv without an iv", sa_crypto_cipher_update_iv(w.c, nullptr, 16)); break;
        case SHORT: case LSHORT: {
            Blk i(pattern(16, 3)), o(op == LSHORT && c_pad(a) && m.p.enc ? 31 : 15);
            uint8_t t[16] = {}; sa_cipher_end_parameters_aes_gcm ep = {t, 16};
            sa_buffer I = cbuf(i.p, 16), O = cbuf(o.p, o.n); size_t n = 16;
            refused_raw(w, "call with a short output buffer", craw_call(op == LSHORT, &O, w.c, &I, &n, op == LSHORT ? &ep : nullptr));
            r.check(o.all(0xee), "wrote into the short buffer"); r.check(O.context.clear.offset == 0 && I.context.clear.offset == 0, "offset moved");
            break;
        }
        case INOFF: { // more than the input holds, also by wrap-around
            Blk i(pattern(16, 3)), o(64);
            for (int k = 0; k < 5; k++) {
                size_t n = k == 1 ? 16 : k == 4 ? SIZE_MAX - 15 : 32;
                sa_buffer I = cbuf(i.p, 16, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? SIZE_MAX - 15 : k == 3 ? 17 : 16), O = cbuf(o.p, 64);
                refused_raw(w, "call with an input range outside the buffer", sa_crypto_cipher_process(&O, w.c, &I, &n));
            }
            r.check(o.all(0xee), "wrote output");
            break;
        }
        case BADTYPE: case BADTYPEIN: {
            Blk i(pattern(16, 3)), o(32);
            for (int l = 0; l < 2; l++) {
                sa_buffer I = cbuf(i.p, 16), O = cbuf(o.p, 32); (op == BADTYPE ? O : I).buffer_type = (sa_buffer_type) 7; size_t n = 16;
                uint8_t t[16] = {}; sa_cipher_end_parameters_aes_gcm ep = {t, 16};
                refused_raw(w, "call with an unknown buffer type", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr));
            }
            break;
        }
        case NULLIN: {
            Blk o(32); sa_buffer O = cbuf(o.p, 32), I = cbuf(nullptr, 16); size_t n = 16; Blk i(16); sa_buffer I2 = cbuf(i.p, 16), O2 = cbuf(nullptr, 32);
            uint8_t t[16] = {}; sa_cipher_end_parameters_aes_gcm ep = {t, 16}, ep0 = {nullptr, 16};
            for (int l = 0; l < 2; l++) {
                refused_raw(w, "call without input", craw_call(l, &O, w.c, nullptr, &n, l ? &ep : nullptr));
                refused_raw(w, "call without a byte count", craw_call(l, &O, w.c, &I2, nullptr, l ? &ep : nullptr));
                refused_raw(w, "call with a null input buffer", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr));
                refused_raw(w, "call with a null output buffer", craw_call(l, &O2, w.c, &I2, &n, l ? &ep : nullptr));
            }
            if (c_aead(a)) refused_raw(w, "last call with a null tag", craw_call(true, &O, w.c, &I2, &n, &ep0));
            break;
        }
        case MODE: { // protected-buffer output where the algorithm forbids it, and protected to clear
            Blk i(pattern(16, 3)), o(32), mem(32);
            sa_svp_buffer h = INVALID_HANDLE;
            r.check(sa_svp_buffer_create(&h, mem.p, 32) == SA_STATUS_OK, "svp create");
            uint8_t t[16] = {}; sa_cipher_end_parameters_aes_gcm ep = {t, 16};
            for (int l = 0; l < 2; l++) {
                size_t n = 16;
                sa_buffer I = sbuf(h), O = cbuf(o.p, 32);
                refused_raw(w, "protected input to clear output", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr));
                if (c_aead(a)) { I = cbuf(i.p, 16); O = sbuf(h); refused_raw(w, "protected output of an authenticated cipher", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr)); }
                I = cbuf(i.p, 16); O = sbuf(h, 17); refused_raw(w, "output beyond the protected buffer", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr));
                O = sbuf(h + 1); refused_raw(w, "output to an unknown protected buffer", craw_call(l, &O, w.c, &I, &n, l ? &ep : nullptr));
            }
            r.check(o.all(0xee) && mem.all(0xee), "refused call wrote output");
            void* p; size_t n; r.check(sa_svp_buffer_release(&p, &n, h) == SA_STATUS_OK, "svp release");
            break;
        }
        case REL: {
            sa_status s = sa_crypto_cipher_release(w.c);
            r.transitions();
            r.check((s == SA_STATUS_OK) == !m.released, "release returned %s", sn(s));
            m.released = true;
            break;
        }
        case KREL: if (!m.keyrel) { r.check(sa_key_release(w.key) == SA_STATUS_OK, "key release"); m.keyrel = true; r.transitions();
            sa_key k2 = import_sym(pattern(m.p.klen, 999), rights_all()); sa_key_release(k2); } break; // the slot is overwritten by another key
        case OTHER: {
            CParam q = cparam(a, !m.p.enc, m.p.klen, 17);
            sa_crypto_cipher_context c2;
            sa_key k2 = import_sym(q.key, rights_all());
            sa_status s = cinit(&c2, q, k2);
            r.transitions(3);
            if (r.check(s == SA_STATUS_OK, "second context: init %s", sn(s))) {
                if (!m.released) r.check(c2 != w.c, "two live contexts share a handle");
                Bytes d = pattern(32, 55);
                CRes x = ccall(false, c2, d, 32, 0, nullptr, 0);
                Bytes e = c_raw(q, d);
                r.check(x.s == SA_STATUS_OK && x.n <= 32 && !memcmp(x.out.data(), e.data(), x.n), "second context: wrong output");
                r.check(sa_crypto_cipher_release(c2) == SA_STATUS_OK, "second context: release");
            }
            sa_key_release(k2);
            break;
        }
        default: break;
    }
    uint64_t st = m.in.size() * 8 + m.finished * 4 + m.released * 2 + m.keyrel;
    r.state(st * 64 + a * 8 + m.p.enc * 4 + (m.p.klen == 16));
}
static void explore(Run& r) {
    for (int alg = 0; alg < NCALG; alg++)
        for (int enc = 0; enc < 2; enc++)
            for (size_t klen : {16, 32}) {
                if (klen == 16 && !c_aes(alg)) continue;
                int depth = (klen == 32 || r.thorough) ? 3 : 2;
                if (r.thorough && klen == 32) depth = 4;
                for (int pass = 0; pass < (r.thorough ? 1 : 2); pass++) {
                    // pass 1 (quick): a smaller alphabet one deeper
                    std::vector<int> A;
                    for (int o = 0; o < NOPS; o++) if (!pass || o == P1 || o == P16 || o == P17 || o == L0 || o == L1 || o == L16 || o == IVOK || o == QL || o == KREL || o == OTHER) A.push_back(o);
                    int D = depth + pass; if (pass && klen == 16) continue;
                    std::vector<int> ix(D, 0);
                    for (;;) {
                        std::string d;
                        for (int i : ix) { d += ' '; d += OPN[A[i]]; }
                        CParam p = cparam(alg, enc, klen);
                        if (r.take("%s:%s", cdesc(p).c_str(), d.c_str())) {
                            sa_key key = import_sym(p.key, rights_all());
                            W w{r, INVALID_HANDLE, key, {}, INVALID_HANDLE};
                            w.m.p = p;
                            sa_status s = cinit(&w.c, p, key);
                            if (r.check(s == SA_STATUS_OK, "init returned %s", sn(s))) {
                                for (int i = 0; i < D && !w.m.broken; i++) step(w, (Op) A[ix[i]], i * 5 + 1 + ix[0]);
                                if (!w.m.released) {
                                    // the context still does what its state says
                                    if (!w.m.broken) data_call(w, false, 16, true, 1);
                                    r.check(sa_crypto_cipher_release(w.c) == SA_STATUS_OK, "final release");
                                }
                                r.check(sa_crypto_cipher_release(w.c) != SA_STATUS_OK, "released twice");
                            }
                            if (!w.m.keyrel) r.check(sa_key_release(key) == SA_STATUS_OK, "key release");
                            r.traces();
                            if (ix[0] == 3 && ix[1] == 8) r.sample("%s", r.current());
                        }
                        int i = D - 1;
                        while (i >= 0 && ++ix[i] == (int) A.size()) ix[i--] = 0;
                        if (i < 0) break;
                    }
                }
            }
    // initialisation: which parameters are admissible
    for (int alg = -1; alg < 12; alg++)
        for (int mode = -1; mode < 3; mode++)
            for (size_t klen : {1, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 512}) {
                if (!r.take("init alg=%d mode=%d klen=%zu", alg, mode, klen)) continue;
                sa_key key = import_sym(pattern(klen, 1), rights_all());
                if (key == INVALID_HANDLE) continue;
                int m = -1; for (int i = 0; i < NCALG; i++) if ((int) CALG[i] == alg) m = i;
                for (size_t ivl : {0, 1, 4, 8, 11, 12, 13, 15, 16, 17, 32})
                    for (size_t ctl : {0, 3, 4, 5})
                        for (int null = 0; null < 3; null++) {
                            if (ctl != 0 && m != CHACHA) continue;
                            Blk iv(ivl), ct(ctl), aad(5);
                            sa_crypto_cipher_context c = INVALID_HANDLE; sa_status s;
                            bool pn = null == 1; void* ivp = null == 2 ? nullptr : iv.p;
                            sa_cipher_parameters_aes_cbc cb = {ivp, ivl}; sa_cipher_parameters_aes_gcm gc = {ivp, ivl, aad.p, 5};
                            sa_cipher_parameters_chacha20 cc = {ct.p, ctl, ivp, ivl}; sa_cipher_parameters_chacha20_poly1305 cp = {ivp, ivl, aad.p, 5};
                            sa_cipher_parameters_rsa_oaep oa = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, nullptr, 0};
                            void* par = alg == (int) SA_CIPHER_ALGORITHM_RSA_OAEP ? (void*) &oa : m == GCM ? (void*) &gc : m == CHACHA ? (void*) &cc : m == CHAPOLY ? (void*) &cp : (void*) &cb;
                            s = sa_crypto_cipher_init(&c, (sa_cipher_algorithm) alg, (sa_cipher_mode) mode, key, pn ? nullptr : par);
                            bool ok = m >= 0 && (mode == 0 || mode == 1) && (c_aes(m) ? klen == 16 || klen == 32 : klen == 32);
                            if (m >= CBC) ok = ok && !pn && null != 2;
                            if (m == CBC || m == CBCP || m == CTR) ok = ok && ivl == 16;
                            if (m == GCM || m == CHAPOLY) ok = ok && ivl == 12;
                            if (m == CHACHA) ok = ok && ivl == 12 && ctl == 4;
                            r.transitions();
                            r.check((s == SA_STATUS_OK) == ok, "init with iv %zu counter %zu null %d returned %s", ivl, ctl, null, sn(s));
                            if (s == SA_STATUS_OK) r.check(sa_crypto_cipher_release(c) == SA_STATUS_OK, "release");
                            else r.check(c == INVALID_HANDLE || sa_crypto_cipher_release(c) != SA_STATUS_OK, "failed init returned a live context");
                        }
                r.traces(); r.state(alg * 100 + klen);
                r.check(sa_key_release(key) == SA_STATUS_OK, "key release");
            }
    // asymmetric contexts: sequences of process with good and bad input sizes are independent of each other
    for (int kind = 0; kind < 3; kind++)
        for (int seq = 0; seq < 5 * 5 * 5; seq++) {
            if (!r.take("%s sequence %d", kind == 0 ? "rsa-pkcs1v15" : kind == 1 ? "rsa-oaep" : "elgamal", seq)) continue;
            sa_key key = kind < 2 ? import_rsa_der(rsa_der(128), rights_all()) : import_ec_key(0, rights_all());
            sa_cipher_parameters_rsa_oaep op = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, nullptr, 0};
            sa_cipher_algorithm A = kind == 0 ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : kind == 1 ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_EC_ELGAMAL;
            sa_crypto_cipher_context c = INVALID_HANDLE;
            r.check(sa_crypto_cipher_init(&c, A, SA_CIPHER_MODE_ENCRYPT, key, kind == 1 ? &op : nullptr) != SA_STATUS_OK, "encryption context with a private key");
            sa_status s = sa_crypto_cipher_init(&c, A, SA_CIPHER_MODE_DECRYPT, key, kind == 1 ? &op : nullptr);
            if (!r.check(s == SA_STATUS_OK, "init %s", sn(s))) continue;
            size_t ks = 128; Bytes plain = pattern(32, 4), ct(ks);
            if (kind < 2) {
                EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(rsa_pkey(ks), nullptr); EVP_PKEY_encrypt_init(x);
                EVP_PKEY_CTX_set_rsa_padding(x, kind ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING);
                size_t cl = ks; EVP_PKEY_encrypt(x, ct.data(), &cl, plain.data(), 32); EVP_PKEY_CTX_free(x);
            } else { // the generator as both points: C1 = G, C2 = pub + M
                EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1); EC_POINT* M = EC_POINT_new(g); BN_CTX* bc = BN_CTX_new(); BIGNUM *X = BN_new(), *Y = BN_new();
                EC_POINT_copy(M, EC_GROUP_get0_generator(g)); EC_POINT_get_affine_coordinates(g, M, X, Y, bc);
                BN_bn2binpad(X, ct.data(), 32); BN_bn2binpad(Y, ct.data() + 32, 32); BN_bn2binpad(X, plain.data(), 32);
                EC_POINT_add(g, M, M, EC_KEY_get0_public_key(EVP_PKEY_get0_EC_KEY(ec_pkey(0))), bc); EC_POINT_get_affine_coordinates(g, M, X, Y, bc);
                BN_bn2binpad(X, ct.data() + 64, 32); BN_bn2binpad(Y, ct.data() + 96, 32);
                EC_POINT_free(M); BN_free(X); BN_free(Y); BN_CTX_free(bc); EC_GROUP_free(g);
            }
            for (int i = 0, q = seq; i < 3; i++, q /= 5) {
                int o = q % 5; size_t n = ks; Blk ob(ks);
                Bytes in = ct; if (o == 1) in.resize(ks - 1); if (o == 2) in.push_back(0); if (o == 3) in[5] ^= 0x10;
                Blk ib(in); sa_buffer I = cbuf(ib.p, in.size()), O = cbuf(ob.p, ks); n = in.size();
                if (o == 4) { uint8_t t[16]; sa_cipher_end_parameters_aes_gcm ep = {t, 16}; s = sa_crypto_cipher_process_last(&O, c, &I, &n, &ep); r.check(s != SA_STATUS_OK, "process_last of an asymmetric cipher succeeded"); refused_raw(*(new W{r, c, key, {}, 0}), "update_iv of an asymmetric cipher", sa_crypto_cipher_update_iv(c, ct.data(), 16)); continue; }
                s = sa_crypto_cipher_process(&O, c, &I, &n);
                r.transitions();
                if (o == 0) r.check(s == SA_STATUS_OK && n == 32 && !memcmp(ob.p, plain.data(), 32), "decrypt returned %s (%zu bytes)", sn(s), n);
                else if (o < 3) r.check(s != SA_STATUS_OK, "input of %zu bytes accepted", in.size());
                else r.check(s != SA_STATUS_OK || memcmp(ob.p, plain.data(), 32), "damaged input decrypts");
            }
            r.check(sa_crypto_cipher_release(c) == SA_STATUS_OK, "release");
            r.check(sa_key_release(key) == SA_STATUS_OK, "key release");
            r.traces(); r.state(seq);
        }
}
int main(int argc, char** argv) {
    Spec s{};
    s.property = "C16";
    s.rule = "Every sequence over a 29-letter alphabet (process and process_last of 0..48 bytes, size queries, update IV good and bad, short or misplaced buffers, wrong buffer types, null arguments, protected buffers, release, key release with slot reuse, a second context in between) to depth 3 and an 11-letter alphabet to depth 4 (thorough: full alphabet to depth 4), for every symmetric algorithm, key size and direction; after each sequence one more call shows the state. All combinations of algorithm, mode, key and parameter sizes at initialisation. Non-trivial: distinct outputs compared with OpenSSL.";
    s.assumptions = {"OpenSSL one-shot operations are the oracle", "process_last is documented per chunk of at most one block for padded, GCM and CTR/ChaCha20 decryption"};
    s.explore = explore;
    s.setup = [](Run&) { sah_setup(); };
    return mc::main(argc, argv, s);
}
