// C23: key exchange: both sides agree with an independent computation; bad peers are refused; several keys or none.
#include "anykey.hpp"
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); Session S(ta, uuid_of(1)); Api& A = S.A
struct Grp { const char* name; Bytes p; unsigned g; };
static Bytes bnb(BIGNUM* b) { Bytes o((size_t) BN_num_bytes(b)); BN_bn2bin(b, o.data()); return o; }
static Bytes hexb(const char* h) { BIGNUM* b = nullptr; BN_hex2bn(&b, h); Bytes o = bnb(b); BN_free(b); return o; }
static const std::vector<Grp>& groups() {
    static std::vector<Grp> v; if (v.empty()) {
        auto add = [&](const char* n, BIGNUM* p, unsigned g) { v.push_back({n, bnb(p), g}); BN_free(p); };
        v.push_back({"safe512", hexb("CD142C1ADB669C0F331AE64F11E01446A2A13060AF5C66BC0A93A5A5BE4DBA4C8A559B98BF399A1881A3E48830E3A887A4A50D0A134103878CDECAF5A61EC21F"), 2});
        add("modp768", BN_get_rfc2409_prime_768(nullptr), 2); 
        v.push_back({"safe1001", hexb("01DFDBC07F247089C7AB2903090A3302BA8688DEC48AC2720B0DB2DAA925989DEAED3026E693EC2907649E7A7A295230D3D4730664E4C8D9DF32F1C10376A301BEF7C03AB45249A028C302D88F9833438A3C3545D120937A8AC29A6D1A1B563CFD35F5C00B225B7A93D0BE06073212BEB267BF070BFD68CC3D1CEAC54CE3"), 5});
        v.push_back({"prime1021", hexb("1B4F4E2FC407A1B8B08959ECFDDC97EE0E5375C97BC431685DAFC20B1BBC06E6972FCAEBD29A9BB964430993C06B0E91D03672338B1026294D03B0B2082492A7095AB09C924BEC6DE95F89824037A727AC00B1337EADB8EBFE2D642214A0628255F2043FE228ABE006E6BD90ADBDB9BFFCEEC50BD9BF3EF790EF514B1F2966C3"), 3});
        add("modp1024", BN_get_rfc2409_prime_1024(nullptr), 2); add("modp1536", BN_get_rfc3526_prime_1536(nullptr), 2); add("modp2048", BN_get_rfc3526_prime_2048(nullptr), 2); add("modp3072", BN_get_rfc3526_prime_3072(nullptr), 2); add("modp4096", BN_get_rfc3526_prime_4096(nullptr), 2);
    } return v;
}
static Bytes dh_spki(const Bytes& p, const Bytes& g, const BIGNUM* y) { DH* d = DH_new(); DH_set0_pqg(d, BN_bin2bn(p.data(), (int) p.size(), nullptr), nullptr, BN_bin2bn(g.data(), (int) g.size(), nullptr)); DH_set0_key(d, BN_dup(y), nullptr); EVP_PKEY* k = EVP_PKEY_new(); EVP_PKEY_assign_DH(k, d); Bytes o = pkey_pub_der(k); EVP_PKEY_free(k); return o; }
static Bytes gb(unsigned g) { return Bytes(1, (uint8_t) g); }
static bool dh_pub_of(const Bytes& spki, BIGNUM** y) { const uint8_t* q = spki.data(); EVP_PKEY* k = d2i_PUBKEY(nullptr, &q, (long) spki.size()); if (!k) return false; const BIGNUM* pub = nullptr; DH_get0_key(EVP_PKEY_get0_DH(k), &pub, nullptr); *y = BN_dup(pub); EVP_PKEY_free(k); return true; }
static Bytes padn(const BIGNUM* b, size_t n) { Bytes o(n); if (BN_bn2binpad(b, o.data(), (int) n) < 0) return {}; return o; }
static sa_status exch(Api& A, sa_handle* out, const sa_rights& rt, bool dh, const sa_handle& k, const Bytes& pub) { Blk b(pub); *out = INVALID_HANDLE; return CALL(A, sa_key_exchange, out, &rt, dh ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, b.p, b.n, nullptr); }
static std::string is_sym(Api& A, const sa_handle& h, const Bytes& v, const sa_rights& rt) { AnyKey k; k.type = SA_KEY_TYPE_SYMMETRIC; k.size = v.size(); k.material = v; return ak_is(A, h, k, rt, false); }
static sa_handle gen_dh(Run& r, Api& A, const Grp& g, Bytes* pub, const Bytes& gen) { sa_handle h = INVALID_HANDLE; sa_rights rt = rights_all(); Blk p(g.p), q(gen); sa_generate_parameters_dh x = {p.p, p.n, q.p, q.n}; sa_status s = CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_DH, &x); if (!r.check(s == SA_STATUS_OK, "%s: key generation: %s", g.name, sn(s))) return INVALID_HANDLE; uint8_t b[2048]; size_t n = sizeof b; s = CALL(A, sa_key_get_public, b, &n, h); r.check(s == SA_STATUS_OK, "%s: public key: %s", g.name, sn(s)); pub->assign(b, b + n); return h; }
// the system on both sides
static void dh_pairs(Run& r, bool ta, const Grp& g, int keys) {
    SETUP(ta); std::vector<sa_handle> k; std::vector<Bytes> pub; sa_rights rt = rights_all();
    for (int i = 0; i < keys; i++) { Bytes p; k.push_back(gen_dh(r, A, g, &p, gb(g.g))); pub.push_back(p); if (r.failures()) return; }
    for (int i = 0; i < keys; i++) for (int j = 0; j < keys; j++) { sa_handle a, b; sa_status s = exch(A, &a, rt, true, k[(size_t) i], pub[(size_t) j]), t = exch(A, &b, rt, true, k[(size_t) j], pub[(size_t) i]); r.transitions(2); r.beat();
        if (!r.check(s == SA_STATUS_OK && t == SA_STATUS_OK, "%s: %s %s", g.name, sn(s), sn(t))) return; uint8_t d[2][64]; size_t n[2] = {64, 64}; CALL(A, sa_key_digest, d[0], &n[0], a, SA_DIGEST_ALGORITHM_SHA512); CALL(A, sa_key_digest, d[1], &n[1], b, SA_DIGEST_ALGORITHM_SHA512);
        sa_header h; header_of(a, &h); CALL(A, sa_key_header, &h, a); if (!r.check(n[0] == 64 && !memcmp(d[0], d[1], 64), "%s: the two sides differ", g.name) || !r.check(h.size == g.p.size() && h.type == SA_KEY_TYPE_SYMMETRIC, "%s: secret of %d bytes", g.name, h.size)) return; r.state(hash(d[0], 64)); rel(A, K_KEY, a); rel(A, K_KEY, b); }
    r.traces();
}
// one key of the system against peers with known private keys; the wanted number of leading zero bytes of the secret is searched for
static void dh_known(Run& r, bool ta, const Grp& g, int zeros, bool netflix) {
    SETUP(ta); Bytes pub; sa_handle k = gen_dh(r, A, g, &pub, gb(g.g)); if (k == INVALID_HANDLE) return; BN_CTX* c = BN_CTX_new(); BIGNUM *p = BN_bin2bn(g.p.data(), (int) g.p.size(), nullptr), *gg = BN_new(), *x = BN_new(), *y = BN_new(), *z = BN_new(), *mine = nullptr; BN_set_word(gg, g.g); dh_pub_of(pub, &mine);
    BN_set_word(x, 0x10001); BN_lshift(x, x, 100); BN_mod_exp(z, mine, x, p, c); size_t n = g.p.size(); int want = 3, found = 0; BN_MONT_CTX* m = BN_MONT_CTX_new(); BN_MONT_CTX_set(m, p, c);
    for (long i = 0; i < 400000 && found < want; i++) { if (BN_num_bytes(z) == (int) n - zeros) { found++;
            BN_mod_exp(y, gg, x, p, c); Bytes peer = dh_spki(g.p, gb(g.g), y), sec = padn(z, n); sa_handle h, kw = INVALID_HANDLE, ke = INVALID_HANDLE, kh = INVALID_HANDLE; sa_rights rt = rights_all();
            if (!netflix) { sa_status s = exch(A, &h, rt, true, k, peer); r.transitions(); if (!r.check(s == SA_STATUS_OK, "%s: peer with known key: %s", g.name, sn(s))) break; std::string e = is_sym(A, h, sec, rt); if (!r.check(e.empty(), "%s: secret with %d leading zero bytes: %s", g.name, zeros, e.c_str())) break; rel(A, K_KEY, h); }
            else { Bytes kwv = pattern(16, 31 + (unsigned) found); sa_rights rw = rights_all(); mkkey(A, &kw, kwv, rw); sa_rights r1 = rights_all(), r2 = r1, r3 = r1; snprintf(r1.id, sizeof r1.id, "wrap"); snprintf(r2.id, sizeof r2.id, "enc"); snprintf(r3.id, sizeof r3.id, "hmac");
                sa_key_exchange_parameters_netflix_authenticated_dh q = {kw, &ke, &r2, &kh, &r3}; Blk pb(peer); h = INVALID_HANDLE; sa_status s = CALL(A, sa_key_exchange, &h, &r1, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, k, pb.p, pb.n, &q); r.transitions(); if (!r.check(s == SA_STATUS_OK, "%s: netflix exchange: %s", g.name, sn(s))) break;
                Bytes z0 = bnb(z); z0.insert(z0.begin(), 0); Bytes both = ref_hmac("SHA384", ref_digest("SHA384", kwv), z0), e1 = sub(both, 0, 16), e2 = sub(both, 16, 32);
                static const uint8_t salt[] = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69}, info[] = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
                Bytes w = sub(ref_hmac("SHA256", ref_hmac("SHA256", Bytes(salt, salt + 16), cat({e1, e2})), Bytes(info, info + 16)), 0, 16);
                std::string a = is_sym(A, ke, e1, r2), b = is_sym(A, kh, e2, r3), d = is_sym(A, h, w, r1); if (!r.check(a.empty() && b.empty() && d.empty(), "%s: netflix keys for a secret with %d leading zero bytes: encryption %s, hmac %s, wrapping %s", g.name, zeros, a.c_str(), b.c_str(), d.c_str())) break;
                for (auto q2 : {h, ke, kh, kw}) rel(A, K_KEY, q2); } }
        BN_add_word(x, 1); BN_mod_mul(z, z, mine, p, c); if (i % 4096 == 0) r.beat(); }
    r.count(strf("secrets_with_%d_leading_zero_bytes", zeros).c_str(), (uint64_t) found); r.traces((uint64_t) found); if (found) r.nontrivial(hash(r.current()));
    BN_MONT_CTX_free(m); BN_free(p); BN_free(gg); BN_free(x); BN_free(y); BN_free(z); BN_free(mine); BN_CTX_free(c); rel(A, K_KEY, k);
}
static bool refused(Run& r, Api& A, bool dh, const sa_handle& k, const Bytes& peer, const char* what, int slots = -1) { sa_handle h; sa_rights rt = rights_all(); sa_status s = exch(A, &h, rt, dh, k, peer); r.transitions(); (void) slots; if (s == SA_STATUS_OK) rel(A, K_KEY, h); return r.check(s != SA_STATUS_OK, "%s accepted", what) && r.check(h == INVALID_HANDLE, "%s: refused (%s) but a handle is returned", what, sn(s)); }
static std::vector<std::pair<std::string, Bytes>> others() { std::vector<std::pair<std::string, Bytes>> v; v.push_back({"an RSA key", pkey_pub_der(rsa_pkey(128))}); for (int c = 0; c < 9; c++) if (ec_pkey(c)) v.push_back({strf("a key of curve %d", c), pkey_pub_der(ec_pkey(c, 1))}); v.push_back({"a DH key", pkey_pub_der(dh_peer())}); v.push_back({"nothing", Bytes(1, 0)}); v.push_back({"zeros", Bytes(91, 0)}); v.push_back({"text", pattern(91, 3)}); v.push_back({"a private key", pkcs8(ec_pkey(0))}); return v; }
static void dh_bad(Run& r, bool ta, const Grp& g) {
    SETUP(ta); Bytes pub; sa_handle k = gen_dh(r, A, g, &pub, gb(g.g)); if (k == INVALID_HANDLE) return; sa_handle aes; sa_rights rt = rights_all(); mkkey(A, &aes, pattern(16, 1), rt); int before = slots_free(A, K_KEY, aes);
    BIGNUM *p = BN_bin2bn(g.p.data(), (int) g.p.size(), nullptr), *y = BN_new(), *mine = nullptr; dh_pub_of(pub, &mine);
    auto t = [&](const char* w) { return refused(r, A, true, k, dh_spki(g.p, gb(g.g), y), w); };
    BN_zero(y); t("public value 0"); BN_one(y); t("public value 1"); BN_copy(y, p); t("public value p"); BN_sub_word(y, 1); t("public value p-1"); BN_copy(y, p); BN_add_word(y, 1); t("public value p+1"); BN_add(y, p, mine); t("a public value above p"); BN_lshift(y, p, 1); t("public value 2p"); BN_lshift(y, p, 2000); t("a far too long public value"); BN_one(y); BN_set_negative(y, 1); t("public value -1"); BN_copy(y, mine); BN_set_negative(y, 1); t("a negative public value");
    BN_copy(y, mine); refused(r, A, true, k, dh_spki(g.p, gb(g.g + 4), y), "another generator"); for (auto& o : groups()) if (o.p != g.p) { BN_set_word(y, 7); BN_lshift(y, y, 200); refused(r, A, true, k, dh_spki(o.p, gb(o.g), y), strf("a key of group %s", o.name).c_str()); }
    BN_add_word(p, 2); BN_copy(y, mine); refused(r, A, true, k, dh_spki(bnb(p), gb(g.g), y), "another modulus of the same size"); BN_sub_word(p, 2);
    for (auto& o : others()) if (!(o.first == "a DH key" && g.p == dh_p())) refused(r, A, true, k, o.second, o.first.c_str()); r.beat();
    for (size_t n = 1; n < pub.size(); n++) if (!refused(r, A, true, k, sub(pub, 0, n), strf("a public key cut to %zu bytes", n).c_str())) break;
    sa_handle h = INVALID_HANDLE; Blk b(pub); sa_status s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, b.p, b.n, nullptr); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "ECDH with a DH key: %s", sn(s)); h = INVALID_HANDLE; s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_DH, aes, b.p, b.n, nullptr); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "DH with a symmetric key: %s", sn(s));
    sa_handle rk; AnyKey rs = k_rsa(128); ak_make(A, &rk, rs, rt); h = INVALID_HANDLE; s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_DH, rk, b.p, b.n, nullptr); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "DH with an RSA key: %s", sn(s)); rel(A, K_KEY, rk);
    r.check(slots_free(A, K_KEY, aes) == before, "a refused exchange leaves a key behind"); r.traces(); rel(A, K_KEY, k); rel(A, K_KEY, aes); BN_free(p); BN_free(y); BN_free(mine);
}
// what an independent implementation makes of a peer value: 0 must be refused, 1 the secret, 2 either (data after the value)
static int oracle(EVP_PKEY* mine, const Bytes& spki, Bytes* sec) {
    const uint8_t* q = spki.data(); EVP_PKEY* k = d2i_PUBKEY(nullptr, &q, (long) spki.size()); ERR_clear_error(); if (!k) return 0; int res = 0;
    if (EVP_PKEY_id(k) == EVP_PKEY_id(mine) && EVP_PKEY_parameters_eq(k, mine) != 0) { bool ok = true; EVP_PKEY_CTX* v = EVP_PKEY_CTX_new(k, nullptr); ok = EVP_PKEY_public_check(v) == 1; EVP_PKEY_CTX_free(v); if (ok) { *sec = ref_ecdh(mine, k); bool zero = true; for (auto b : *sec) zero = zero && !b; EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(mine, nullptr); uint8_t b[1024]; size_t n = sizeof b; ok = EVP_PKEY_derive_init(x) == 1 && EVP_PKEY_derive_set_peer(x, k) == 1; if (ok && EVP_PKEY_id(mine) == EVP_PKEY_DH) EVP_PKEY_CTX_set_dh_pad(x, 1); ok = ok && EVP_PKEY_derive(x, b, &n) == 1; EVP_PKEY_CTX_free(x); res = ok && !zero ? 1 : 0; } }
    if (res && q != spki.data() + spki.size()) res = 2; EVP_PKEY_free(k); ERR_clear_error(); return res;
}
static bool judge(Run& r, Api& A, const sa_handle& k, EVP_PKEY* mine, const Bytes& peer, const std::string& what, int want = -1) {
    Bytes sec; int o = oracle(mine, peer, &sec); if (want >= 0 && o != 2 && o != want && !r.check(false, "%s: the reference says %d", what.c_str(), o)) return false; sa_handle h; sa_rights rt = rights_all(); sa_status s = exch(A, &h, rt, false, k, peer); r.transitions();
    if (o == 0) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); return r.check(s != SA_STATUS_OK, "%s accepted", what.c_str()) && r.check(h == INVALID_HANDLE, "%s: refused but a handle is returned", what.c_str()); }
    if (o == 1 && !r.check(s == SA_STATUS_OK, "%s: %s", what.c_str(), sn(s))) return false; if (s != SA_STATUS_OK) return true;
    std::string e = is_sym(A, h, sec, rt); rel(A, K_KEY, h); r.state(hash(sec.data(), sec.size())); return r.check(e.empty(), "%s: %s", what.c_str(), e.c_str());
}
static Bytes raw_spki(int curve, const Bytes& raw) { EVP_PKEY* k = EVP_PKEY_new_raw_public_key(EVP_PKEY_id(ec_pkey(curve)), nullptr, raw.data(), raw.size()); if (!k) return {}; Bytes o = pkey_pub_der(k); EVP_PKEY_free(k); return o; }
static void ec_bad(Run& r, bool ta, int c, int part) {
    SETUP(ta); sa_rights rt = rights_all(); sa_handle k = import_ec_key(c, rt), aes; if (ta) { AnyKey q = k_ec(c); ak_make(A, &k, q, rt); } EVP_PKEY* mine = ec_pkey(c); mkkey(A, &aes, pattern(16, 1), rt); int before = slots_free(A, K_KEY, aes); Bytes good = pkey_pub_der(ec_pkey(c, 1));
    if (part == 0) {
        for (int i = 0; i < 6; i++) if (!judge(r, A, k, mine, pkey_pub_der(ec_pkey(c, i)), strf("curve %d with peer %d", c, i), 1)) return;
        for (auto& o : others()) if (o.first != strf("a key of curve %d", c)) if (!judge(r, A, k, mine, o.second, strf("curve %d with %s", c, o.first.c_str()), 0)) return;
        for (size_t n = 1; n < good.size(); n++) if (!judge(r, A, k, mine, sub(good, 0, n), strf("curve %d, public key cut to %zu", c, n), 0)) return;
        for (int extra = 1; extra < 4; extra++) if (!judge(r, A, k, mine, cat({good, Bytes((size_t) extra, 0)}), strf("curve %d, %d bytes after the public key", c, extra))) return;
        if (curve_is_nist(c)) { // compressed, hybrid and infinite points, and points off the curve
            size_t n = curve_size(c), hdr = good.size() - 2 * n - 1; Bytes x = sub(good, hdr + 1, n), y = sub(good, hdr + 1 + n, n);
            EC_KEY* e = EC_KEY_dup(EVP_PKEY_get0_EC_KEY(ec_pkey(c, 1))); for (auto form : {POINT_CONVERSION_COMPRESSED, POINT_CONVERSION_HYBRID}) { EC_KEY_set_conv_form(e, form); EVP_PKEY* q = EVP_PKEY_new(); EVP_PKEY_set1_EC_KEY(q, e); uint8_t* o = nullptr; EC_KEY_set_conv_form((EC_KEY*) EVP_PKEY_get0_EC_KEY(q), form); int l = i2d_PUBKEY(q, &o); Bytes b(o, o + l); OPENSSL_free(o); EVP_PKEY_free(q); if (!judge(r, A, k, mine, b, strf("curve %d, point form %d", c, (int) form))) return; } EC_KEY_free(e);
            for (int v = 0; v < 12; v++) { Bytes b = good; switch (v) { case 0: b[good.size() - 1] ^= 1; break; case 1: b[hdr + 1] ^= 1; break; case 2: std::fill(b.begin() + (long) hdr + 1, b.end(), 0); break; case 3: std::fill(b.begin() + (long) hdr + 1, b.end(), 0xff); break; case 4: std::fill(b.begin() + (long) (hdr + 1 + n), b.end(), 0); break; case 5: std::fill(b.begin() + (long) hdr + 1, b.begin() + (long) (hdr + 1 + n), 0); break; case 6: b[hdr] = 0; break; case 7: b[hdr] = 2; break; case 8: b[hdr] = 3; break; case 9: b[hdr] = 5; break; case 10: b[hdr] = 6; break; default: b[hdr] = 7; }
                if (!judge(r, A, k, mine, b, strf("curve %d, bad point %d", c, v))) return; }
            Bytes inf = good; inf.resize(hdr + 1); inf[hdr] = 0; inf[hdr - 2] = 2; inf[1] = (uint8_t) (inf.size() - 2); if (good[1] & 0x80) { inf = good; } else if (!judge(r, A, k, mine, inf, strf("curve %d, infinity", c), 0)) return;
        } else { size_t n = curve_size(c); static const char* low[] = {"0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"};
            auto fromhex = [](const char* h) { Bytes o; for (; *h; h += 2) { unsigned v; sscanf(h, "%2x", &v); o.push_back((uint8_t) v); } return o; };
            std::vector<Bytes> pts; if (n == 32) for (auto l : low) { Bytes b = fromhex(l); pts.push_back(b); b[31] |= 0x80; pts.push_back(b); } else { Bytes z(56, 0); pts.push_back(z); z[0] = 1; pts.push_back(z); Bytes p(56, 0xff); p[28] = 0xfe; pts.push_back(p); p[0] = 0xfe; pts.push_back(p); Bytes q(56, 0); q = Bytes(56, 0); for (int i = 28; i < 56; i++) q[(size_t) i] = 0xff; pts.push_back(q); }
            int i = 0; for (auto& b : pts) { i++; bool dontcare = n == 56 && i == 5; if (!judge(r, A, k, mine, raw_spki(c, b), strf("curve %d, point of low order %d", c, i), dontcare ? -1 : 0)) return; }
            for (int b = 0; b < 8; b++) for (uint8_t v : {0x02, 0x09, 0x7f, 0x80, 0xff}) { Bytes q(n, 0); q[(size_t) b * (n / 8)] = v; if (!judge(r, A, k, mine, raw_spki(c, q), strf("curve %d, sparse point %d/%02x", c, b, v))) return; } }
        sa_handle h = INVALID_HANDLE; Blk b(good); sa_status s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_DH, k, b.p, b.n, nullptr); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "DH with an EC key: %s", sn(s)); h = INVALID_HANDLE; s = CALL(A, sa_key_exchange, &h, &rt, SA_KEY_EXCHANGE_ALGORITHM_ECDH, aes, b.p, b.n, nullptr); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "ECDH with a symmetric key: %s", sn(s));
    } else for (size_t i = 0; i < good.size(); i++) { if ((int) (i % 8) != part - 1) continue; for (int v = 0; v < 256; v++) { if (!r.thorough && v && (v & (v - 1)) && v != 0xff && (i > 8 || !ta)) continue; Bytes b = good; b[i] ^= (uint8_t) v; if (!judge(r, A, k, mine, b, strf("curve %d, byte %zu of the public key changed by %02x", c, i, v))) return; } r.beat(); }
    r.check(slots_free(A, K_KEY, aes) == before, "an exchange leaves a key behind"); rel(A, K_KEY, k); rel(A, K_KEY, aes); r.traces();
}
static void ec_pairs(Run& r, bool ta, int c) { // every pair of generated and imported keys
    SETUP(ta); sa_rights rt = rights_all(); std::vector<sa_handle> k; std::vector<Bytes> pub; for (int i = 0; i < 8; i++) { sa_handle h = INVALID_HANDLE; sa_status s; if (i < 4) { sa_generate_parameters_ec q = {(sa_elliptic_curve) c}; s = CALL(A, sa_key_generate, &h, &rt, SA_KEY_TYPE_EC, &q); } else { AnyKey q = k_ec(c, i); s = ak_make(A, &h, q, rt); } if (!r.check(s == SA_STATUS_OK, "curve %d: key %d: %s", c, i, sn(s))) return; uint8_t b[512]; size_t n = sizeof b; CALL(A, sa_key_get_public, b, &n, h); k.push_back(h); pub.push_back(Bytes(b, b + n)); }
    for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 8; j++) { sa_handle a, b; sa_status s = exch(A, &a, rt, false, k[i], pub[j]), t = exch(A, &b, rt, false, k[j], pub[i]); r.transitions(2); if (!r.check(s == SA_STATUS_OK && t == SA_STATUS_OK, "curve %d: %s %s", c, sn(s), sn(t))) return; uint8_t d[2][64]; size_t n = 64; CALL(A, sa_key_digest, d[0], &n, a, SA_DIGEST_ALGORITHM_SHA512); CALL(A, sa_key_digest, d[1], &n, b, SA_DIGEST_ALGORITHM_SHA512); sa_header h; CALL(A, sa_key_header, &h, a); if (!r.check(!memcmp(d[0], d[1], 64), "curve %d: the two sides differ", c) || !r.check(h.size == curve_size(c), "curve %d: secret of %d bytes", c, h.size)) return;
        if (i >= 4) { const uint8_t* q = pub[j].data(); EVP_PKEY* pk = d2i_PUBKEY(nullptr, &q, (long) pub[j].size()); Bytes z = ref_ecdh(ec_pkey(c, (int) i), pk); EVP_PKEY_free(pk); std::string e = is_sym(A, a, z, rt); if (!r.check(e.empty(), "curve %d: %s", c, e.c_str())) return; } rel(A, K_KEY, a); rel(A, K_KEY, b); }
    for (auto h : k) rel(A, K_KEY, h); r.traces();
}
// peers for which the secret starts with zero bytes
static void ec_zeros(Run& r, bool ta, int c, int zeros) {
    SETUP(ta); sa_rights rt = rights_all(); sa_handle k; AnyKey me = k_ec(c); ak_make(A, &k, me, rt); size_t n = curve_size(c); int found = 0; const EC_KEY* mk = EVP_PKEY_get0_EC_KEY(me.pk); const EC_GROUP* g = EC_KEY_get0_group(mk); BN_CTX* bc = BN_CTX_new(); EC_POINT* P = EC_POINT_dup(EC_KEY_get0_public_key(mk), g); BIGNUM *x = BN_new(), *s = BN_new(); BN_set_word(s, 1);
    for (long i = 0; i < (zeros > 1 ? 150000 : 4000) && found < 2; i++) { EC_POINT_get_affine_coordinates(g, P, x, nullptr, bc); if (BN_num_bytes(x) == (int) n - zeros) { found++; Bytes sb = padn(s, n); EVP_PKEY* peer = ec_pkey_from_scalar(c, sb); Bytes want = padn(x, n); sa_handle h; sa_status st = exch(A, &h, rt, false, k, pkey_pub_der(peer)); r.transitions(); if (!r.check(st == SA_STATUS_OK, "curve %d: %s", c, sn(st))) break; std::string e = is_sym(A, h, want, rt); if (!r.check(e.empty(), "curve %d: secret with %d leading zero bytes: %s", c, zeros, e.c_str())) break; rel(A, K_KEY, h); } EC_POINT_add(g, P, P, EC_KEY_get0_public_key(mk), bc); BN_add_word(s, 1); if (i % 512 == 0) r.beat(); }
    r.count(strf("secrets_with_%d_leading_zero_bytes", zeros).c_str(), (uint64_t) found); EC_POINT_free(P); BN_free(x); BN_free(s); BN_CTX_free(bc); rel(A, K_KEY, k); r.traces((uint64_t) found);
}
// the authenticated exchange creates three keys or none, however many slots are left and whatever is wrong
static void netflix_all(Run& r, bool ta, int slots) {
    SETUP(ta); const Grp& g = groups()[1]; Bytes pub; sa_handle k = gen_dh(r, A, g, &pub, gb(g.g)), kw, aes, k32, k15 = INVALID_HANDLE; if (k == INVALID_HANDLE) return; sa_rights rt = rights_all(); mkkey(A, &kw, pattern(16, 31), rt); mkkey(A, &aes, pattern(16, 1), rt); mkkey(A, &k32, pattern(32, 1), rt); mkkey(A, &k15, pattern(24, 1), rt);
    sa_rights nod = rights_all(ALL_FLAGS & ~F(SA_USAGE_FLAG_DERIVE)); sa_handle knd; mkkey(A, &knd, pattern(16, 31), nod); sa_rights nox = rights_all(ALL_FLAGS & ~F(SA_USAGE_FLAG_KEY_EXCHANGE)); sa_handle knx = INVALID_HANDLE; { Blk p(g.p); uint8_t two = 2; sa_generate_parameters_dh x = {p.p, p.n, &two, 1}; CALL(A, sa_key_generate, &knx, &nox, SA_KEY_TYPE_DH, &x); }
    std::vector<sa_handle> fill; int all = slots_free(A, K_KEY, aes); if (slots >= 0) for (int i = 0; i < all - slots; i++) { sa_handle h; mkkey(A, &h, pattern(16, 2), rt); fill.push_back(h); } int before = slots_free(A, K_KEY, aes);
    for (int v = 0; v < 22; v++) {
        sa_handle h = INVALID_HANDLE, ke = INVALID_HANDLE, kh = INVALID_HANDLE; sa_rights r1 = rt, r2 = rt, r3 = rt; sa_handle priv = k, in = kw; Bytes peer = pub; bool good = v < 2; bool np = false; sa_key_exchange_parameters_netflix_authenticated_dh q = {in, &ke, &r2, &kh, &r3};
        switch (v) { case 2: in = INVALID_HANDLE; break; case 3: in = k32; break; case 4: in = k15; break; case 5: in = k; break; case 6: in = knd; break; case 7: priv = kw; break; case 8: priv = knx; break; case 9: priv = INVALID_HANDLE; break; case 10: peer = pkey_pub_der(dh_peer()); break; case 11: peer.resize(peer.size() - 1); break; case 12: peer = pkey_pub_der(ec_pkey(0)); break; case 13: q.out_ke = nullptr; break; case 14: q.out_kh = nullptr; break; case 15: q.rights_ke = nullptr; break; case 16: q.rights_kh = nullptr; break; case 17: np = true; break; case 18: memset(r1.id, 'x', sizeof r1.id); break; case 19: memset(r2.id, 'x', sizeof r2.id); break; case 20: memset(r3.id, 'x', sizeof r3.id); break; case 21: { BIGNUM* y = BN_new(); BN_one(y); peer = dh_spki(g.p, gb(g.g), y); BN_free(y); break; } default: break; }
        q.in_kw = in; Blk pb(peer); sa_status s = CALL(A, sa_key_exchange, &h, &r1, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, priv, pb.p, pb.n, np ? nullptr : &q); r.transitions();
        bool want = good && before >= 3; if (v >= 18 && v <= 20 && s == SA_STATUS_OK) want = true; // an identifier without terminator: covered by C19
        if (!r.check((s == SA_STATUS_OK) == want, "authenticated exchange, variation %d, %d slots: %s", v, before, sn(s))) return;
        sa_header hd; int n = 0; for (auto x : {h, ke, kh}) n += x != INVALID_HANDLE && CALL(A, sa_key_header, &hd, x) == SA_STATUS_OK; if (!r.check(n == (s == SA_STATUS_OK ? 3 : 0), "authenticated exchange, variation %d, %d slots: %s with %d usable handles", v, before, sn(s), n)) return;
        if (s == SA_STATUS_OK) for (auto x : {h, ke, kh}) rel(A, K_KEY, x);
        int after = slots_free(A, K_KEY, aes); if (!r.check(after == before, "authenticated exchange, variation %d: %s, free slots %d before and %d after", v, sn(s), before, after)) return; r.beat();
    }
    for (auto h : fill) rel(A, K_KEY, h); for (auto h : {k, kw, aes, k32, k15, knd, knx}) rel(A, K_KEY, h); r.traces();
}
#define T(...) (!r.stop() && r.take(__VA_ARGS__) && (r.nontrivial(hash(r.current())), true))
static void explore(Run& r) {
    sah_setup(); static const char* I[] = {"api", "ta"};
    for (int ta = 1; ta >= 0; ta--) { size_t i = 0; for (auto& g : groups()) { bool big = i++ >= 6; if (T("%s dh %s pairs", I[ta], g.name)) dh_pairs(r, ta, g, big ? 2 : 5); if (T("%s dh %s refusals", I[ta], g.name)) dh_bad(r, ta, g);
            for (int z = 0; z < 3; z++) { if (z == 2 && (big || i == 6) && !r.thorough) continue; for (int nf = 0; nf < 2; nf++) if (T("%s dh %s secrets with %d leading zero bytes%s", I[ta], g.name, z, nf ? ", authenticated" : "")) dh_known(r, ta, g, z, nf); } } }
    for (int c = 0; c < 9; c++) { if (!ec_pkey(c) || c == 3 || c == 5) continue; for (int ta = 1; ta >= 0; ta--) { if (T("%s curve %d pairs", I[ta], c)) ec_pairs(r, ta, c); for (int p = 0; p < 9; p++) { if (p && !ta && !r.thorough) continue; if (T("%s curve %d peers %d", I[ta], c, p)) ec_bad(r, ta, c, p); } if (curve_is_nist(c)) for (int z = 0; z < (r.thorough || c == 0 ? 3 : 2); z++) if (z < 2 || ta) if (T("%s curve %d secrets with %d leading zero bytes", I[ta], c, z)) ec_zeros(r, ta, c, z); } }
    for (int ta = 1; ta >= 0; ta--) for (int s = -1; s < 5; s++) if (T("%s authenticated exchange with %d slots", I[ta], s)) netflix_all(r, ta, s);
}
int main(int argc, char** argv) {
    Spec s; s.property = "C23";
    s.rule = "a case fixes the interface, the group or curve, and a family: all pairs of keys of the system (generated and imported); peers with known private keys chosen so that the secret has 0, 1 and 2 leading zero bytes (search by incremental exponentiation), for the plain and the authenticated exchange; degenerate and foreign public values; every truncation and every bit (thorough: every byte value) change of a peer's public key; the authenticated exchange with 0 to 4 free key slots under 22 variations. Secrets are compared with OpenSSL and with independent arithmetic, refusals must leave no key; every case is non-trivial";
    s.assumptions = {"OpenSSL's public key validation decides which altered public values are valid", "data following a complete public value may be refused or ignored"};
    s.explore = explore; return mc::main(argc, argv, s);
}
