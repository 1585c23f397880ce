// C15: every single-bit and structural forgery of authenticated messages, and every final block of padded messages.
#include "cipher.hpp"
using namespace mc;
struct Out { sa_status s; sa_status retry; };
static Out open_(Run& r, const CParam& p, sa_key key, const Bytes& ct, size_t cut, const Bytes& tag, bool null_par, bool svp) {
    sa_crypto_cipher_context c;
    sa_status s = cinit(&c, p, key);
    r.transitions(3); r.traces(); r.beat();
    if (s != SA_STATUS_OK) return {s, s};
    Blk ib(ct), ob(ct.size() + 32);
    sa_svp_buffer sv = INVALID_HANDLE;
    sa_buffer I = cbuf(ib.p, ib.n), O = cbuf(ob.p, ob.n);
    if (svp) { sa_svp_buffer_create(&sv, ob.p, ob.n); O = sbuf(sv); }
    size_t n = cut;
    if (cut) { s = sa_crypto_cipher_process(&O, c, &I, &n); if (s != SA_STATUS_OK) { sa_crypto_cipher_release(c); return {s, s}; } }
    n = ct.size() - cut;
    Blk tb(tag);
    sa_cipher_end_parameters_aes_gcm ep = {tb.p, tb.n};
    Out o;
    size_t ooff = svp ? O.context.svp.offset : O.context.clear.offset, ioff = I.context.clear.offset;
    o.s = sa_crypto_cipher_process_last(&O, c, &I, &n, null_par ? nullptr : &ep);
    if (o.s != SA_STATUS_OK) {
        r.check((svp ? O.context.svp.offset : O.context.clear.offset) == ooff && I.context.clear.offset == ioff, "rejected call moved an offset");
    }
    o.retry = SA_STATUS_INTERNAL_ERROR;
    if (o.s != SA_STATUS_OK) { // asking again does not turn the rejection into a success
        uint8_t z = 0; sa_buffer I2 = cbuf(&z, 0); n = 0;
        o.retry = sa_crypto_cipher_process_last(&O, c, &I2, &n, null_par ? nullptr : &ep);
    }
    r.check(sa_crypto_cipher_release(c) == SA_STATUS_OK, "release after verdict");
    if (svp) { void* m; size_t k; sa_svp_buffer_release(&m, &k, sv); }
    return o;
}
static void verdict(Run& r, const CParam& p, const Bytes& ct, const Bytes& tag, const Out& o, const char* what) {
    // reference: recompute what the tag of this exact input is
    Aead a = ref_aead(c_ossl(p.alg, p.klen), false, p.key, p.iv, p.aad, ct, tag, tag.size());
    if (a.ok) r.check(o.s == SA_STATUS_OK, "%s: genuine message rejected: %s", what, sn(o.s));
    else {
        r.check(o.s != SA_STATUS_OK, "%s: forgery accepted", what);
        r.check(o.s == SA_STATUS_VERIFICATION_FAILED, "%s: forgery reported as %s, not as failed verification", what, sn(o.s));
        r.check(o.retry != SA_STATUS_OK, "%s: rejected message accepted when asked again", what);
    }
}
static void explore(Run& r) {
    for (int alg : {GCM, CHAPOLY})
        for (size_t klen : {16, 32}) {
            if (klen == 16 && alg == CHAPOLY) continue;
            for (size_t len : {0, 1, 15, 16, 17, 33})
                for (size_t al : {0, 1, 16, 21})
                    for (size_t tl = alg == GCM ? (r.thorough ? 1 : 4) : 16; tl <= 16; tl += alg == GCM && !r.thorough && tl < 12 ? 4 : 1)
                        for (size_t cut = 0; cut <= len; cut += (r.thorough ? 1 : len > 4 ? len / 2 : 1)) {
                            if (alg == GCM && len - cut > 16) continue;
                            CParam p = cparam(alg, false, klen, 0, (int) al);
                            if (!r.take("%s len=%zu aad=%zu tag=%zu cut=%zu", cdesc(p).c_str(), len, al, tl, cut)) continue;
                            sa_key key = import_sym(p.key, rights_all());
                            Bytes plain = pattern(len, 1), ct = c_encrypt(p, plain), tag = c_tag(p, plain, tl);
                            verdict(r, p, ct, tag, open_(r, p, key, ct, cut, tag, false, false), "genuine");
                            for (size_t b = 0; b < 8 * tl; b++) { Bytes t = tag; t[b / 8] ^= 1 << b % 8; verdict(r, p, ct, t, open_(r, p, key, ct, cut, t, false, false), strf("tag bit %zu", b).c_str()); }
                            for (size_t b = 0; b < 8 * len; b++) { Bytes t = ct; t[b / 8] ^= 1 << b % 8; verdict(r, p, t, tag, open_(r, p, key, t, cut, tag, false, false), strf("ciphertext bit %zu", b).c_str()); }
                            for (size_t b = 0; b < 8 * al; b++) { CParam q = p; q.aad[b / 8] ^= 1 << b % 8; verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), strf("aad bit %zu", b).c_str()); }
                            for (size_t b = 0; b < 8 * 12; b++) { CParam q = p; q.iv[b / 8] ^= 1 << b % 8; verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), strf("nonce bit %zu", b).c_str()); }
                            // tags that agree with the genuine one only in part
                            for (size_t keep = 0; keep < tl; keep++) { Bytes t = tag; for (size_t i = keep; i < tl; i++) t[i] = ~t[i]; verdict(r, p, ct, t, open_(r, p, key, ct, cut, t, false, false), strf("only %zu tag bytes right", keep).c_str()); }
                            { Bytes t(tl, 0); verdict(r, p, ct, t, open_(r, p, key, ct, cut, t, false, false), "zero tag"); }
                            // shortened, extended, reordered
                            if (len) { Bytes t(ct.begin(), ct.end() - 1); if (cut < len) verdict(r, p, t, tag, open_(r, p, key, t, cut, tag, false, false), "truncated ciphertext"); }
                            if (len - cut < 16 || alg != GCM) { Bytes t = ct; t.push_back(0); verdict(r, p, t, tag, open_(r, p, key, t, cut, tag, false, false), "extended ciphertext"); }
                            if (al) { CParam q = p; q.aad.pop_back(); verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), "truncated aad"); }
                            { CParam q = p; q.aad.push_back(0); verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), "extended aad"); }
                            if (len && al) { CParam q = p; q.aad.insert(q.aad.end(), ct.begin(), ct.begin() + 1); Bytes t(ct.begin() + 1, ct.end()); if (cut <= t.size()) verdict(r, q, t, tag, open_(r, q, key, t, cut, tag, false, false), "byte moved to aad"); }
                            // no tag, empty tag, inadmissible tag lengths
                            r.check(open_(r, p, key, ct, cut, tag, true, false).s != SA_STATUS_OK, "accepted without a tag");
                            r.check(open_(r, p, key, ct, cut, Bytes(), false, false).s != SA_STATUS_OK, "accepted with an empty tag");
                            { Bytes t = c_tag(p, plain, 16); t.push_back(0); r.check(open_(r, p, key, ct, cut, t, false, false).s != SA_STATUS_OK, "accepted with a 17 byte tag"); }
                            if (alg == CHAPOLY) for (size_t l = 0; l < 16; l++) r.check(open_(r, p, key, ct, cut, sub(c_tag(p, plain), 0, l), false, false).s != SA_STATUS_OK, "accepted with a %zu byte tag", l);
                            // another key
                            { CParam q = p; q.key[0] ^= 1; sa_key k2 = import_sym(q.key, rights_all()); verdict(r, q, ct, tag, open_(r, q, k2, ct, cut, tag, false, false), "other key"); sa_key_release(k2); }
                            r.nontrivial(mc::hash(tag.data(), tag.size(), cut * 100 + len)); r.state(len * 1000 + cut * 20 + tl);
                            sa_key_release(key);
                        }
        }
    // long associated data: every byte around each power of 256 counts
    for (int alg : {GCM, CHAPOLY})
        for (size_t klen : {16, 32}) for (size_t al : {127, 128, 255, 256, 257, 4096, 65535, 65536, 65537, 70000}) for (size_t len : {0, 17}) {
            if (klen == 16 && alg == CHAPOLY) continue;
            CParam p = cparam(alg, false, klen, 0, (int) al); if (!r.take("%s len=%zu long aad=%zu", cdesc(p).c_str(), len, al)) continue;
            sa_key key = import_sym(p.key, rights_all()); Bytes plain = pattern(len, 1), ct = c_encrypt(p, plain), tag = c_tag(p, plain, 16); size_t cut = alg == GCM && len > 16 ? 16 : 0;
            verdict(r, p, ct, tag, open_(r, p, key, ct, cut, tag, false, false), "genuine");
            for (size_t b = 0; b < al; b += b < 300 || b + 300 > al || b % 256 == 255 || r.thorough ? 1 : 255 - b % 256) { CParam q = p; q.aad[b] ^= (uint8_t) (1 << b % 8); verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), strf("aad byte %zu", b).c_str()); if (b % 64 == 0) r.beat(); }
            for (size_t l : {(size_t) 0, (size_t) 1, al & 255, al & 65535, al - 1, al - 16, al - 128}) { if (l >= al) continue; CParam q = p; q.aad.resize(l); verdict(r, q, ct, tag, open_(r, q, key, ct, cut, tag, false, false), strf("aad cut to %zu", l).c_str()); }
            r.nontrivial(mc::hash(tag.data(), 16, al)); sa_key_release(key);
        }
    // associated data longer than an int can hold: refused, or all of it is authenticated
    for (int alg : {GCM, CHAPOLY})
        for (int enc = 0; enc < 2; enc++)
            for (size_t len : {(1ull << 31), (1ull << 32), (1ull << 32) + 16}) {
                CParam p = cparam(alg, enc, 32, 0, 0);
                if (!r.take("%s associated data of %zu bytes", cdesc(p).c_str(), len)) continue;
                TaKey K(p.key); sa_crypto_cipher_context c = INVALID_HANDLE; if (!r.check(K.ok, "no session")) continue;
                memset(giant(0), 0x11, 64); p.aad.assign(len & 64 - 1, 0x11); Bytes tag = c_tag(p, Bytes());
                sa_cipher_parameters_aes_gcm q = {p.iv.data(), 12, giant(0), len};
                sa_status s = ta_sa_crypto_cipher_init(&c, CALG[alg], enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, K.key, &q, K.T, &K.u); r.transitions(); r.beat(); r.count(s ? "refused" : "accepted");
                if (s == SA_STATUS_OK) {
                    uint8_t z[16], t[16]; memcpy(t, tag.data(), 16); sa_buffer I = cbuf(z, 0), O = cbuf(z, 16); size_t n = 0; sa_cipher_end_parameters_aes_gcm e = {t, 16}; if (enc) memset(t, 0, 16);
                    s = ta_sa_crypto_cipher_process_last(&O, c, &I, &n, &e, K.T, &K.u); r.transitions();
                    r.check(enc ? s != SA_STATUS_OK || memcmp(t, tag.data(), 16) : s != SA_STATUS_OK, "only the first %zu bytes of the associated data are authenticated", p.aad.size());
                }
                r.traces(); r.nontrivial(mc::hash(&s, sizeof s, len * 4 + alg * 2 + enc)); r.state(s);
            }
    // padding: all values of the pad byte, all single deviations, all short fills
    for (int alg : {ECBP, CBCP})
        for (size_t klen : {16, 32})
            for (size_t before : {0, 16, 32, 48})
                for (int svp = 0; svp < 2; svp++)
                    for (int v = 0; v < 256; v++) {
                        CParam p = cparam(alg, false, klen);
                        if (!r.take("%s padding byte %d after %zu bytes %s", cdesc(p).c_str(), v, before, svp ? "svp" : "clear")) continue;
                        sa_key key = import_sym(p.key, rights_all());
                        CParam q = p; q.enc = true;
                        auto one = [&](const Bytes& padded, const char* what) {
                            Bytes ct = c_raw(q, padded);
                            bool good = c_pad_ok(padded);
                            Out o = open_(r, p, key, ct, padded.size() - 16, Bytes(), true, svp);
                            r.check((o.s == SA_STATUS_OK) == good, "%s: %s, padding is %s", what, sn(o.s), good ? "well-formed" : "malformed");
                            if (!good) {
                                r.check(o.s == SA_STATUS_VERIFICATION_FAILED, "%s: reported as %s, not as failed verification", what, sn(o.s));
                                r.check(o.retry != SA_STATUS_OK, "%s: accepted when asked again", what);
                            }
                        };
                        Bytes base = pattern(before + 16, 3);
                        for (size_t i = 0; i < 16; i++) if (base[before + i] == v || base[before + i] < 17) base[before + i] ^= 0x80;
                        // the last `fill` bytes carry the value
                        for (size_t fill = 1; fill <= 16; fill++) { Bytes m = base; for (size_t i = 0; i < fill; i++) m[before + 15 - i] = (uint8_t) v; one(m, strf("%zu bytes of %d", fill, v).c_str()); }
                        // well-formed but for one byte, by one bit
                        if (v >= 1 && v <= 16)
                            for (int i = 0; i < v; i++) for (int b = 0; b < 8; b++) { Bytes m = base; for (int k = 0; k < v; k++) m[before + 15 - k] = (uint8_t) v; m[before + 15 - i] ^= 1 << b; one(m, strf("pad %d, byte %d bit %d wrong", v, i, b).c_str()); }
                        r.nontrivial(mc::hash(&v, sizeof v, before * 8 + alg * 2 + svp)); r.state(v * 10 + before);
                        sa_key_release(key);
                    }
    // lengths that are no whole block are never accepted as a last part
    for (int alg : {ECBP, CBCP})
        for (size_t len = 0; len <= 48; len++) {
            CParam p = cparam(alg, false, 16);
            if (!r.take("%s last part of %zu bytes", cdesc(p).c_str(), len)) continue;
            sa_key key = import_sym(p.key, rights_all());
            Bytes plain = pattern(47, 4), ct = sub(c_encrypt(p, plain), 0, len);
            for (size_t cut = 0; cut <= len; cut += 16) {
                Out o = open_(r, p, key, ct, cut, Bytes(), true, false);
                r.check((o.s == SA_STATUS_OK) == (len == 48 && cut == 32) || (o.s != SA_STATUS_OK && len - cut > 16) || (len == 48 && cut == 48), "last part of %zu bytes after %zu: %s", len - cut, cut, sn(o.s));
            }
            r.state(len);
            sa_key_release(key);
        }
}
int main(int argc, char** argv) {
    Spec s{};
    s.property = "C15";
    s.rule = "For each AEAD message shape (length, associated data, tag length, split) every single-bit change of tag, ciphertext, associated data and nonce, every partially right tag, truncation, extension, boundary move, missing and inadmissible tags; for padded modes every fill of the last block with every byte value and every one-bit deviation from well-formed padding, in clear and protected buffers. Non-trivial: distinct message shapes.";
    s.assumptions = {"OpenSSL decides whether a modified message happens to be genuine", "message lengths 0,1,15,16,17,33; AAD 0,1,16,21; tag lengths 4,8,12..16 (thorough 1..16)"};
    s.explore = explore;
    s.setup = [](Run&) { sah_setup(); };
    return mc::main(argc, argv, s);
}
