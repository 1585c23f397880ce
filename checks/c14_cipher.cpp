// C14: every division of a message into calls, clear / in place / protected buffers, against OpenSSL's one-shot result.
#include "cipher.hpp"
#include <openssl/rsa.h>
using namespace mc;
// how the call's buffers are laid out
enum Lay { L_SEP, L_INPLACE, L_OFF, L_SVP, L_SVP_SAME, L_C2S, NLAY };
static const char* LAYN[] = {"separate", "inplace", "offset", "svp", "svp-inplace", "clear-to-svp"};

struct SvpMem { sa_svp_buffer h = INVALID_HANDLE; Blk* b; explicit SvpMem(size_t n) : b(new Blk(n)) { if (sa_svp_buffer_create(&h, b->p, b->n) != SA_STATUS_OK) h = INVALID_HANDLE; }
    ~SvpMem() { void* p; size_t n; if (h != INVALID_HANDLE) sa_svp_buffer_release(&p, &n, h); delete b; } };

// runs one message cut at the given places through one context and compares with the one-shot result
static void message(Run& r, const CParam& p, sa_key key, const Bytes& in, const Bytes& expect, const std::vector<size_t>& cuts, bool use_last, int lay, size_t taglen, const Bytes& tag) {
    sa_crypto_cipher_context c;
    sa_status s = cinit(&c, p, key);
    r.transitions();
    if (!r.check(s == SA_STATUS_OK, "init returned %s", sn(s))) return;
    bool grow = p.enc && c_pad(p.alg);
    size_t outmax = in.size() + (grow ? 16 : 0) + 32;
    Blk *ib = nullptr, *ob = nullptr; SvpMem *is = nullptr, *os = nullptr;
    sa_buffer I, O;
    size_t io = 0, oo = 0;
    switch (lay) {
        case L_SEP: ib = new Blk(in.size()); ob = new Blk(outmax); I = cbuf(ib->p, ib->n); O = cbuf(ob->p, ob->n); break;
        case L_INPLACE: ib = new Blk(outmax); ob = ib; I = cbuf(ib->p, outmax); O = I; break;
        case L_OFF: io = 7; oo = 3; ib = new Blk(in.size() + io); ob = new Blk(outmax + oo); I = cbuf(ib->p, ib->n, io); O = cbuf(ob->p, ob->n, oo); break;
        case L_SVP: io = 5; oo = 11; is = new SvpMem(in.size() + io); os = new SvpMem(outmax + oo); I = sbuf(is->h, io); O = sbuf(os->h, oo); ib = is->b; ob = os->b; break;
        case L_SVP_SAME: is = os = new SvpMem(outmax); I = sbuf(is->h); O = I; ib = ob = is->b; break;
        case L_C2S: oo = 4; ib = new Blk(in.size()); I = cbuf(ib->p, ib->n); os = new SvpMem(outmax + oo); O = sbuf(os->h, oo); ob = os->b; break;
    }
    if (!in.empty()) memcpy(ib->p + io, in.data(), in.size());
    auto ioff = [&] { return I.buffer_type == SA_BUFFER_TYPE_SVP ? I.context.svp.offset : I.context.clear.offset; };
    auto ooff = [&] { return O.buffer_type == SA_BUFFER_TYPE_SVP ? O.context.svp.offset : O.context.clear.offset; };
    size_t consumed = 0, produced = 0; bool ok = true;
    std::vector<size_t> ends(cuts); ends.push_back(in.size());
    // in place, output never overtakes input except in the padded last call of an encryption, which may grow past it
    for (size_t k = 0; k < ends.size() && ok; k++) {
        bool last = use_last && k + 1 == ends.size();
        size_t len = ends[k] - consumed, n = len;
        Blk tb(tag.empty() ? Bytes(taglen, 0) : tag); tb.n = taglen;
        sa_cipher_end_parameters_aes_gcm ep = {tb.p, taglen};
        void* par = last && c_aead(p.alg) ? &ep : nullptr;
        { // asking for the size first changes nothing and is enough
            size_t q = len; size_t before = ioff();
            s = craw_call(last, nullptr, c, &I, &q, par);
            r.transitions();
            r.check(s == SA_STATUS_OK && ioff() == before, "size query returned %s", sn(s));
            size_t need = last ? (grow ? 16 : len) : len;
            r.check(q >= need && q <= len + 16, "size query says %zu for %zu bytes", q, len);
        }
        s = craw_call(last, &O, c, &I, &n, par);
        r.transitions();
        if (!r.check(s == SA_STATUS_OK, "call %zu (%zu bytes%s) returned %s", k, len, last ? ", last" : "", sn(s))) { ok = false; break; }
        consumed += len; 
        r.check(ioff() == io + consumed, "input offset %zu after consuming %zu", ioff() - io, consumed);
        r.check(ooff() == oo + produced + n, "output offset %zu after producing %zu", ooff() - oo, produced + n);
        if (!c_pad(p.alg) || p.enc) r.check(last && grow ? n == (len / 16 + 1) * 16 : n == len, "call of %zu bytes reports %zu bytes of output", len, n);
        else r.check(produced + n <= consumed && (last || produced + n + 16 >= consumed), "produced %zu after consuming %zu", produced + n, consumed);
        produced += n;
        if (produced > outmax) { r.fail("produced %zu bytes", produced); ok = false; break; }
        if (last && p.enc && c_aead(p.alg)) {
            CParam q = p; Bytes t = c_tag(q, in, taglen);
            r.check(!memcmp(tb.p, t.data(), taglen), "tag is %s, expected %s", hex(tb.p, taglen).c_str(), hex(t.data(), taglen).c_str());
        }
        // compare as we go: everything produced so far
        if (lay != L_INPLACE && lay != L_SVP_SAME)
            r.check(produced <= expect.size() && !memcmp(ob->p + oo, expect.data(), produced), "output differs within the first %zu bytes", produced);
    }
    if (ok) {
        if (use_last || !c_pad(p.alg)) r.check(produced == expect.size(), "%zu bytes produced, expected %zu", produced, expect.size());
        r.check(!memcmp(ob->p + oo, expect.data(), std::min(produced, expect.size())), "output %s differs from %s", hex(ob->p + oo, std::min<size_t>(produced, 48)).c_str(), hex(expect.data(), std::min<size_t>(produced, 48)).c_str());
        for (size_t i = 0; i < oo; i++) r.check(ob->p[i] == 0xee, "wrote before the output offset");
        if (ib != ob) {
            size_t slack = c_pad(p.alg) && !p.enc ? 16 : 0; // padding bytes may pass through the output buffer
            r.check(ob->all(0xee, std::min(ob->n, oo + produced + slack)), "wrote behind the output");
            r.check(!memcmp(ib->p + io, in.data(), in.size()), "input was modified");
        }
        r.nontrivial(mc::hash(expect.data(), expect.size(), lay * 131 + ends.size()));
    }
    r.check(sa_crypto_cipher_release(c) == SA_STATUS_OK, "release");
    r.traces();
    if (is) { delete is; if (os != is) delete os; }
    else { delete ib; if (os) delete os; else if (ob != ib) delete ob; }
    r.state(mc::hash(&produced, 8, p.alg * 16 + lay));
    r.beat();
}
static Bytes flip_if(bool c, Bytes b) { if (c) std::reverse(b.begin(), b.end()); return b; }

static void explore(Run& r) {
    for (int alg = 0; alg < NCALG; alg++)
        for (size_t klen : {16, 32}) {
            if (klen == 16 && !c_aes(alg)) continue;
            for (int enc = 0; enc < 2; enc++)
                for (int lay = 0; lay < NLAY; lay++) {
                    if (lay >= L_SVP && c_aead(alg)) continue;
                    CParam p = cparam(alg, enc, klen);
                    size_t maxlen = r.thorough ? 82 : lay == L_SEP ? 50 : 35;
                    for (size_t len = 0; len <= maxlen; len++) {
                        if (c_block(alg) && !c_pad(alg) && len % 16) continue;
                        if (!r.take("%s %s len=%zu", cdesc(p).c_str(), LAYN[lay], len)) continue;
                        sa_key key = import_sym(p.key, rights_all());
                        Bytes plain = pattern(len, 70 + len), in = enc ? plain : c_encrypt(p, plain);
                        Bytes expect = enc ? c_encrypt(p, plain) : plain;
                        size_t L = in.size();
                        // with the last call; the final part may hold 0..16 bytes (any size for chacha20-poly1305 and plain stream encryption)
                        if (alg != ECB && alg != CBC) {
                            for (size_t a = 0; a <= L; a += c_block(alg) ? 16 : 1)
                                for (size_t b = a; b <= L; b += c_block(alg) ? 16 : 1) {
                                    size_t rest = L - b;
                                    if (rest > 16) continue;
                                    if (c_pad(alg) && (enc ? (rest == 16 && false) : rest != 16)) continue;
                                    Bytes tag = c_aead(alg) && !enc ? c_tag(p, plain) : Bytes();
                                    std::vector<size_t> cuts;
                                    if (a) cuts.push_back(a);
                                    if (b != a || !a) cuts.push_back(b);
                                    message(r, p, key, in, expect, cuts, true, lay, c_aead(alg) ? 16 : 0, tag);
                                }
                            if (L <= 16 && (!c_pad(alg) || enc || L == 16)) message(r, p, key, in, expect, {}, true, lay, c_aead(alg) ? 16 : 0, c_aead(alg) && !enc ? c_tag(p, plain) : Bytes());
                            if (alg == CHAPOLY) message(r, p, key, in, expect, {}, true, lay, 16, !enc ? c_tag(p, plain) : Bytes());
                        }
                        // without a last call: two cuts
                        if (!c_pad(alg) && !c_aead(alg))
                            for (size_t a = 0; a <= L; a += c_block(alg) ? 16 : 1)
                                for (size_t b = a; b <= L; b += c_block(alg) ? 16 : (r.thorough ? 1 : 3)) message(r, p, key, in, expect, {a, b}, false, lay, 0, Bytes());
                        // all divisions into unit pieces
                        {
                            std::vector<size_t> cuts; size_t unit = c_block(alg) ? 16 : 1;
                            for (size_t a = unit; a < L; a += unit) cuts.push_back(a);
                            if (alg == ECB || alg == CBC) message(r, p, key, in, expect, cuts, false, lay, 0, Bytes());
                            else if (!c_pad(alg) || enc || L) message(r, p, key, in, expect, cuts, true, lay, c_aead(alg) ? 16 : 0, c_aead(alg) && !enc ? c_tag(p, plain) : Bytes());
                        }
                        sa_key_release(key);
                    }
                }
        }
    // counter wrap: every distance of the initial counter from the wrap points, crossing inside one call or between calls
    for (int alg : {CTR, CHACHA})
        for (size_t klen : {16, 32}) {
            if (klen == 16 && alg == CHACHA) continue;
            for (int width = 1; width <= (alg == CTR ? 16 : 4); width++)
                for (int dist = 0; dist < 6; dist++) {
                    if (!r.take("%s-%zu counter wraps: low %d bytes ff, %d before", CALGN[alg], klen * 8, width, dist)) continue;
                    CParam p = cparam(alg, true, klen);
                    if (alg == CTR) { for (int i = 16 - width; i < 16; i++) p.iv[i] = 0xff; p.iv[15] = (uint8_t) (0xff - dist); }
                    else { for (int i = 0; i < width; i++) p.iv[i] = 0xff; p.iv[0] = (uint8_t) (0xff - dist); if (width == 4) { p.iv[4] = 0; } }
                    sa_key key = import_sym(p.key, rights_all());
                    Bytes in = pattern(6 * (alg == CTR ? 16 : 64) + 9, 3), ex = c_raw(p, in);
                    if (alg == CTR) { // independent of any counter code: ECB of the counter blocks
                        Bytes ctr = p.iv, ks;
                        while (ks.size() < in.size()) { Bytes b = ref_cipher(klen == 16 ? "AES-128-ECB" : "AES-256-ECB", true, p.key, Bytes(), ctr, false); ks.insert(ks.end(), b.begin(), b.end()); for (int i = 15; i >= 0 && !++ctr[i]; i--) {} }
                        for (size_t i = 0; i < in.size(); i++) ex[i] = in[i] ^ ks[i];
                    }
                    for (size_t a = 0; a <= in.size(); a += r.thorough ? 1 : 5) message(r, p, key, in, ex, {a}, false, L_SEP, 0, Bytes());
                    sa_key_release(key);
                }
        }
    // tag lengths and associated data sizes
    std::vector<int> AADS; for (int a = 0; a <= 66; a++) AADS.push_back(a);
    for (int a : {127, 128, 129, 255, 256, 257, 512, 4095, 4096, 4097, 65535, 65536, 65537, 70000}) AADS.push_back(a);
    for (int alg : {GCM, CHAPOLY})
        for (size_t klen : {16, 32})
            for (int enc = 0; enc < 2; enc++)
                for (int aad : AADS) {
                    if (klen == 16 && alg == CHAPOLY) continue;
                    CParam p = cparam(alg, enc, klen, 0, aad);
                    if (!r.take("%s aad=%d", cdesc(p).c_str(), aad)) continue;
                    sa_key key = import_sym(p.key, rights_all());
                    for (size_t tl = alg == GCM ? 1 : 16; tl <= 16; tl++)
                        for (size_t len : {0, 1, 16, 31, 32, 47}) {
                            Bytes plain = pattern(len, 9), in = enc ? plain : c_encrypt(p, plain), ex = enc ? c_encrypt(p, plain) : plain;
                            std::vector<size_t> cuts; if (len > 16) cuts.push_back(len - (len % 16 ? len % 16 : 16));
                            message(r, p, key, in, ex, cuts, true, L_SEP, tl, enc ? Bytes() : c_tag(p, plain, tl));
                        }
                    sa_key_release(key);
                }
    // long messages
    for (int alg = 0; alg < NCALG; alg++)
        for (int enc = 0; enc < 2; enc++)
            for (size_t len : {4096, 65536, 65552, 1048576}) {
                CParam p = cparam(alg, enc, 32);
                if (!r.take("%s long %zu", cdesc(p).c_str(), len)) continue;
                sa_key key = import_sym(p.key, rights_all());
                Bytes plain = pattern(len, 5), in = enc ? plain : c_encrypt(p, plain), ex = enc ? c_encrypt(p, plain) : plain;
                bool last = alg != ECB && alg != CBC;
                size_t L = in.size();
                for (size_t a : {(size_t) 16, (size_t) 4080, L - 16}) message(r, p, key, in, ex, last ? (a == L - 16 ? std::vector<size_t>{a} : std::vector<size_t>{a, L - 16}) : std::vector<size_t>{a}, last, len > 65536 ? L_INPLACE : L_SEP, c_aead(alg) ? 16 : 0, c_aead(alg) && !enc ? c_tag(p, plain) : Bytes());
                sa_key_release(key);
            }
    // lengths beyond what an int can hold: refused, or everything is processed
    for (int alg = 0; alg < NCALG; alg++)
        for (int enc = 0; enc < 2; enc++)
            for (size_t len : {(1ull << 31), (1ull << 32), (1ull << 32) + 16, (1ull << 32) + 4096}) {
                CParam p = cparam(alg, enc, 32);
                if (!r.take("%s giant %zu", cdesc(p).c_str(), len)) continue;
                TaKey K(p.key); sa_crypto_cipher_context c = INVALID_HANDLE; if (!r.check(K.ok, "no session")) continue;
                sa_cipher_parameters_aes_cbc q1 = {p.iv.data(), 16}; sa_cipher_parameters_aes_gcm q2 = {p.iv.data(), 12, p.aad.data(), p.aad.size()}; sa_cipher_parameters_chacha20 q3 = {p.iv.data(), 4, p.iv.data() + 4, 12};
                void* q = c_iv16(alg) ? (void*) &q1 : c_aead(alg) ? (void*) &q2 : alg == CHACHA ? (void*) &q3 : nullptr;
                sa_status s = ta_sa_crypto_cipher_init(&c, CALG[alg], enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, K.key, q, K.T, &K.u); r.check(s == SA_STATUS_OK, "init returned %s", sn(s));
                sa_buffer I = cbuf(giant(0), GIANT), O = cbuf(giant(1), GIANT); size_t n = len; memset(giant(0), 0x11, 64);
                s = ta_sa_crypto_cipher_process(&O, c, &I, &n, K.T, &K.u); r.transitions(); r.beat();
                size_t hold = c_pad(alg) && !enc ? 16 : 0;
                r.check(s != SA_STATUS_OK || (n + hold >= len && n <= len && I.context.clear.offset == len), "%zu bytes: reported as processed with %zu bytes of output, input offset %zu", len, n, I.context.clear.offset);
                r.count(s ? "refused" : "processed"); r.traces(); r.nontrivial(mc::hash(&s, sizeof s, len * 16 + alg * 2 + enc)); r.state(s);
            }
    // RSA decryption: every message length, every digest pair, labels
    for (size_t ks : {128, 256, 384, 512})
        for (int kind = 0; kind < 17; kind++) {
            int md = kind ? (kind - 1) / 4 : 0, mgf = kind ? (kind - 1) % 4 : 0;
            for (int label = 0; label < (kind ? 9 : 1); label++) {
                if (!r.take("rsa-%zu %s label=%d", ks * 8, kind ? strf("oaep %s/%s", dname(md), dname(mgf)).c_str() : "pkcs1v15", label)) continue;
                sa_key key = import_rsa_der(rsa_der(ks), rights_all());
                long maxm = kind ? (long) ks - 2 * (long) dlen(md) - 2 : (long) ks - 11;
                static const size_t LAB[] = {0, 1, 40, 255, 256, 257, 300, 65535, 65536 + 7}; Bytes lab = pattern(LAB[label], 8);
                for (long m = 0; m <= maxm; m += (label > 2 ? maxm > 16 ? maxm / 3 : 5 : ks == 128 ? 1 : r.thorough ? 5 : 43)) {
                    Bytes plain = pattern(m, (unsigned) m);
                    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(rsa_pkey(ks), nullptr);
                    EVP_PKEY_encrypt_init(x);
                    EVP_PKEY_CTX_set_rsa_padding(x, kind ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING);
                    if (kind) {
                        EVP_PKEY_CTX_set_rsa_oaep_md(x, EVP_get_digestbyname(dname(md))); EVP_PKEY_CTX_set_rsa_mgf1_md(x, EVP_get_digestbyname(dname(mgf)));
                        if (!lab.empty()) EVP_PKEY_CTX_set0_rsa_oaep_label(x, OPENSSL_memdup(lab.data(), lab.size()), (int) lab.size());
                    }
                    Bytes ct(ks); size_t cl = ks; uint8_t z = 0;
                    int e = EVP_PKEY_encrypt(x, ct.data(), &cl, m ? plain.data() : &z, m);
                    EVP_PKEY_CTX_free(x);
                    if (e != 1) { ERR_clear_error(); continue; }
                    sa_crypto_cipher_context c; sa_status s;
                    Blk lb(lab);
                    sa_cipher_parameters_rsa_oaep op = {(sa_digest_algorithm) md, (sa_digest_algorithm) mgf, lab.empty() ? nullptr : lb.p, lab.size()};
                    s = sa_crypto_cipher_init(&c, kind ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_MODE_DECRYPT, key, kind ? &op : nullptr);
                    if (!r.check(s == SA_STATUS_OK, "init returned %s", sn(s))) break;
                    for (int rep = 0; rep < 2; rep++) {
                        Blk ib(ct), ob(ks + 4);
                        sa_buffer I = cbuf(ib.p, ks), O = cbuf(ob.p, ks);
                        size_t n = ks;
                        s = sa_crypto_cipher_process(nullptr, c, &I, &n);
                        r.check(s == SA_STATUS_OK && n >= plain.size() && n <= ks, "size query: %s %zu", sn(s), n);
                        n = ks;
                        s = sa_crypto_cipher_process(&O, c, &I, &n);
                        r.check(s == SA_STATUS_OK, "decrypt of %ld byte message returned %s", m, sn(s));
                        r.check(n == plain.size() && !memcmp(ob.p, plain.data(), m), "%ld byte message decrypted wrongly (%zu bytes)", m, n);
                        r.check(O.context.clear.offset == n && I.context.clear.offset == ks, "offsets %zu %zu", O.context.clear.offset, I.context.clear.offset);
                        r.check(ob.all(0xee, ks), "wrote behind the output buffer");
                        r.transitions(2); r.traces();
                        // a damaged ciphertext or another label never gives this message
                    }
                    for (size_t bit = 0; bit < 8 * ks; bit += ks == 128 && (m % 16 == 0 || r.thorough) ? 61 : 509) {
                        Bytes bad = ct; bad[bit / 8] ^= 1 << bit % 8;
                        Blk ib(bad), ob(ks);
                        sa_buffer I = cbuf(ib.p, ks), O = cbuf(ob.p, ks); size_t n = ks;
                        s = sa_crypto_cipher_process(&O, c, &I, &n);
                        r.check(s != SA_STATUS_OK || n != plain.size() || memcmp(ob.p, plain.data(), m) || (m == 0 && !kind), "damaged ciphertext decrypts to the message");
                        if (kind) r.check(s != SA_STATUS_OK, "damaged OAEP ciphertext accepted");
                        r.transitions();
                    }
                    sa_crypto_cipher_release(c);
                    r.beat();
                }
                r.nontrivial(mc::hash(&kind, sizeof kind, ks + label)); r.state(kind * 1000 + ks + label);
                sa_key_release(key);
            }
        }
    // EC ElGamal: the x coordinate of the message point
    for (int curve = 0; curve < 9; curve++)
        for (int i = 0; i < (r.thorough ? 200 : 24); i++) {
            if (!curve_is_nist(curve)) continue;
            if (!r.take("elgamal %s #%d", curve_name(curve), i)) continue;
            sa_key key = import_ec_key(curve, rights_all());
            if (key == INVALID_HANDLE) continue;
            size_t n = curve_size(curve);
            EC_GROUP* g = EC_GROUP_new_by_curve_name(EC_curve_nist2nid(curve_name(curve)));
            EC_POINT *M = EC_POINT_new(g), *C1 = EC_POINT_new(g), *C2 = EC_POINT_new(g);
            BN_CTX* bc = BN_CTX_new(); BIGNUM *k = BN_new(), *mm = BN_new(), *x = BN_new(), *y = BN_new();
            Bytes kb = pattern(n - 1, 900 + i), mb = pattern(n - 1, 700 + i);
            BN_bin2bn(kb.data(), (int) kb.size(), k); BN_bin2bn(mb.data(), (int) mb.size(), mm);
            EC_POINT_mul(g, M, mm, nullptr, nullptr, bc);
            const EC_KEY* ek = EVP_PKEY_get0_EC_KEY(ec_pkey(curve));
            EC_POINT_mul(g, C1, k, nullptr, nullptr, bc);
            EC_POINT_mul(g, C2, nullptr, EC_KEY_get0_public_key(ek), k, bc);
            EC_POINT_add(g, C2, C2, M, bc);
            Bytes in(4 * n), ex(n);
            EC_POINT_get_affine_coordinates(g, C1, x, y, bc); BN_bn2binpad(x, in.data(), (int) n); BN_bn2binpad(y, in.data() + n, (int) n);
            EC_POINT_get_affine_coordinates(g, C2, x, y, bc); BN_bn2binpad(x, in.data() + 2 * n, (int) n); BN_bn2binpad(y, in.data() + 3 * n, (int) n);
            EC_POINT_get_affine_coordinates(g, M, x, y, bc); BN_bn2binpad(x, ex.data(), (int) n);
            sa_crypto_cipher_context c;
            sa_status s = sa_crypto_cipher_init(&c, SA_CIPHER_ALGORITHM_EC_ELGAMAL, SA_CIPHER_MODE_DECRYPT, key, nullptr);
            if (r.check(s == SA_STATUS_OK, "init returned %s", sn(s))) {
                Blk ib(in), ob(n); sa_buffer I = cbuf(ib.p, in.size()), O = cbuf(ob.p, n); size_t bytes = in.size();
                s = sa_crypto_cipher_process(nullptr, c, &I, &bytes);
                r.check(s == SA_STATUS_OK && bytes == n, "size query: %s %zu", sn(s), bytes);
                bytes = in.size();
                s = sa_crypto_cipher_process(&O, c, &I, &bytes);
                r.check(s == SA_STATUS_OK && bytes == n, "decrypt returned %s, %zu bytes", sn(s), bytes);
                r.check(ob.bytes() == ex, "decrypted to %s, expected %s", hex(ob.p, n).c_str(), hex(ex.data(), n).c_str());
                r.check(I.context.clear.offset == in.size() && O.context.clear.offset == n, "offsets");
                // points that are not on the curve
                for (size_t b = 0; b < 4 * n; b += 5) {
                    Bytes bad = in; bad[b] ^= 1;
                    Blk ib2(bad), ob2(n); sa_buffer I2 = cbuf(ib2.p, in.size()), O2 = cbuf(ob2.p, n); bytes = in.size();
                    s = sa_crypto_cipher_process(&O2, c, &I2, &bytes);
                    r.check(s != SA_STATUS_OK, "point off the curve accepted (byte %zu)", b);
                    r.transitions();
                }
                sa_crypto_cipher_release(c);
            }
            r.traces(); r.transitions(3); r.nontrivial(mc::hash(ex.data(), n)); r.state(curve);
            EC_POINT_free(M); EC_POINT_free(C1); EC_POINT_free(C2); BN_free(k); BN_free(mm); BN_free(x); BN_free(y); BN_CTX_free(bc); EC_GROUP_free(g);
            sa_key_release(key);
        }
    (void) flip_if;
}
int main(int argc, char** argv) {
    Spec s{};
    s.property = "C14";
    s.rule = "Every message length up to the bound, every division into up to three calls (and into unit pieces), for every symmetric algorithm, key size, direction and buffer layout (separate, in place, with offsets, protected, protected in place, clear to protected); counter values at every distance from each carry boundary; all tag lengths and associated data lengths 0..66 and around each power of 256; RSA message lengths, digest pairs and labels; EC ElGamal points. Non-trivial: distinct (result, layout, number of calls).";
    s.assumptions = {"OpenSSL one-shot operations are the oracle; AES-CTR wraps are also computed from ECB", "messages up to 50 bytes exhaustively (thorough: 82), plus 4096, 65536, 65552 and 1048576 bytes"};
    s.explore = explore;
    s.setup = [](Run&) { sah_setup(); };
    return mc::main(argc, argv, s);
}
