// C19: import of clear keys: exactly the well-formed ones, recorded faithfully.
#include "anykey.hpp"
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session S(ta, uuid_of(1)); Api& A = S.A
enum { SYM = SA_KEY_FORMAT_SYMMETRIC_BYTES, RSAF = SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, ECF = SA_KEY_FORMAT_EC_PRIVATE_BYTES };
static sa_status imp(Api& A, sa_handle* h, int fmt, const Bytes& in, const sa_rights& rt, int curve = 0) {
    *h = INVALID_HANDLE; Blk b(in), rb(Bytes((const uint8_t*) &rt, (const uint8_t*) &rt + sizeof rt)); const sa_rights* rp = (const sa_rights*) rb.p;
    sa_import_parameters_symmetric ps = {rp}; sa_import_parameters_rsa_private_key_info pr = {rp}; sa_import_parameters_ec_private_bytes pe = {rp, (sa_elliptic_curve) curve};
    return CALL(A, sa_key_import, h, (sa_key_format) fmt, b.p, b.n, fmt == SYM ? (void*) &ps : fmt == RSAF ? (void*) &pr : (void*) &pe);
}
// what the encoding says, by OpenSSL
struct Dec { bool ok = false, range = true; int bits = 0; Bytes pub; size_t used = 0; };
static Dec decode(const Bytes& in, int fmt, int curve) {
    Dec d; Blk b(in); const uint8_t* q = b.p; PKCS8_PRIV_KEY_INFO* p8 = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long) b.n); EVP_PKEY* k = p8 ? EVP_PKCS82PKEY(p8) : nullptr; d.used = (size_t) (q - b.p);
    if (k) {
        d.bits = EVP_PKEY_bits(k); int id = EVP_PKEY_id(k);
        if (fmt == RSAF) d.ok = id == EVP_PKEY_RSA && (d.bits == 1024 || d.bits == 2048 || d.bits == 3072 || d.bits == 4096);
        else if (curve_is_nist(curve)) { char g[64] = ""; size_t gl = 0; d.ok = id == EVP_PKEY_EC && EVP_PKEY_get_group_name(k, g, sizeof g, &gl) == 1 && OBJ_sn2nid(g) == EC_curve_nist2nid(curve_name(curve));
            if (d.ok) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr); d.range = EVP_PKEY_private_check(c) == 1 && EVP_PKEY_pairwise_check(c) == 1; EVP_PKEY_CTX_free(c); } }
        else d.ok = id == EVP_PKEY_id(ec_pkey(curve));
        if (d.ok) d.pub = pkey_pub_der(k);
    }
    EVP_PKEY_free(k); PKCS8_PRIV_KEY_INFO_free(p8); ERR_clear_error(); return d;
}
static Bytes get_pub(Api& A, const sa_handle& h) { uint8_t b[2048]; size_t n = sizeof b; return CALL(A, sa_key_get_public, b, &n, h) == SA_STATUS_OK ? Bytes(b, b + n) : Bytes(); }
// imports an encoding and compares with the oracle
static bool one(Run& r, Api& A, int fmt, const Bytes& in, int curve, const char* what) {
    Dec d = decode(in, fmt, curve); bool want = d.ok && d.range; bool loose = want && d.used != in.size(); sa_handle h; sa_rights rt = rights_all(); sa_status s = imp(A, &h, fmt, in, rt, curve); r.transitions(); r.beat();
    if (loose) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); return true; } // bytes behind the encoding: either way
    if (!want) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); return r.check(s != SA_STATUS_OK, "%s: accepted%s", what, d.ok ? " (a private value out of range, or not that of the public key)" : "") && r.check(h == INVALID_HANDLE, "%s: refused but a handle is returned", what); }
    if (!r.check(s == SA_STATUS_OK, "%s: %s", what, sn(s))) return false;
    sa_header hd; memset(&hd, 0xa5, sizeof hd); s = CALL(A, sa_key_header, &hd, h); Bytes pub = get_pub(A, h); rel(A, K_KEY, h); r.state(hash(in.data(), in.size()));
    size_t size = fmt == RSAF ? (size_t) d.bits / 8 : curve_size(curve);
    return r.check(s == SA_STATUS_OK && hd.size == size && hd.type == (fmt == RSAF ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_EC) && !memcmp(&hd.rights, &rt, sizeof rt) && (fmt == RSAF || (int) hd.type_parameters.curve == curve), "%s: header: type %d size %d curve %d", what, hd.type, hd.size, hd.type_parameters.curve) && r.check(pub == d.pub, "%s: other public key", what);
}
struct Free { Run& r; Api& A; sa_handle k; int n; Free(Run& r_, Api& a) : r(r_), A(a) { mkkey(A, &k, pattern(16, 1), rights_all()); n = slots_free(A, K_KEY, k); } ~Free() { r.check(slots_free(A, K_KEY, k) == n, "key slots lost"); rel(A, K_KEY, k); } };
static void sym_len(Run& r, bool ta, size_t n, const std::pair<std::string, sa_rights>& rs) {
    SETUP(ta); AnyKey k = k_sym(n, (unsigned) n); sa_handle h; sa_status s = imp(A, &h, SYM, k.material, rs.second); r.transitions();
    if (n < 16 || n > 512) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "symmetric key of %zu bytes: %s", n, sn(s)); return; }
    if (!r.check(s == SA_STATUS_OK, "symmetric key of %zu bytes: %s", n, sn(s))) return;
    std::string e = ak_is(A, h, k, rs.second, false); r.check(e.empty(), "symmetric key of %zu bytes: %s", n, e.c_str()); rel(A, K_KEY, h); r.traces();
}
static std::vector<std::pair<std::string, sa_rights>> rightsets() {
    std::vector<std::pair<std::string, sa_rights>> v; v.push_back({"all rights", rights_all()});
    for (int i = 0; i < 64; i++) { sa_rights a = rights_all(OUT_FLAGS | F(i), 0); v.push_back({strf("usage bit %d", i), a}); sa_rights b = rights_all(OUT_FLAGS, F(i)); v.push_back({strf("child usage bit %d", i), b}); }
    for (size_t n = 0; n < sizeof(((sa_rights*) 0)->id); n++) { sa_rights a = rights_all(); memset(a.id, 0, sizeof a.id); memset(a.id, 'a' + (int) n % 26, n); v.push_back({strf("name of %zu", n), a}); }
    { sa_rights a = rights_all(); memset(a.id, 0xff, sizeof a.id - 1); a.id[sizeof a.id - 1] = 0; v.push_back({"name of 0xff", a}); a.id[3] = 0; v.push_back({"bytes behind the name", a}); }
    for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++) { sa_rights a = rights_all(); memset(a.allowed_tas, 0, sizeof a.allowed_tas); for (int j = 0; j <= i; j++) a.allowed_tas[j] = uuid_of((uint8_t) (j == i ? 1 : 50 + j)); v.push_back({strf("application at %d", i), a}); }
    for (uint64_t t : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 1700000000}) { sa_rights a = rights_all(); a.not_before = t; v.push_back({strf("from %llu", (unsigned long long) t), a}); }
    for (uint64_t t : {(uint64_t) 1700000001, UINT64_MAX, UINT64_MAX - 1, (uint64_t) 1 << 32, (uint64_t) 1 << 63}) { sa_rights a = rights_all(); a.not_on_or_after = t; v.push_back({strf("until %llu", (unsigned long long) t), a}); }
    return v;
}
static void rights_of(Run& r, bool ta, int type, const std::pair<std::string, sa_rights>& rs) {
    SETUP(ta); AnyKey k = type == 0 ? k_sym(32) : type == 1 ? k_ec(0) : k_rsa(128); sa_handle h; sa_status s = ak_make(A, &h, k, rs.second); r.transitions(); if (!r.check(s == SA_STATUS_OK, "%s with %s: %s", k.name.c_str(), rs.first.c_str(), sn(s))) return;
    sa_header hd; s = CALL(A, sa_key_header, &hd, h); if (!r.check(s == SA_STATUS_OK && hd.type == k.type && hd.size == k.size && !memcmp(&hd.rights, &rs.second, sizeof hd.rights), "%s with %s: other rights recorded", k.name.c_str(), rs.first.c_str())) return;
    uint64_t u = rs.second.usage_flags; if ((u & OUT_FLAGS) == OUT_FLAGS) { std::string e = ak_is(A, h, k, rs.second, true); r.check(e.empty(), "%s with %s: %s", k.name.c_str(), rs.first.c_str(), e.c_str()); }
    rel(A, K_KEY, h); r.traces();
}
static void bad(Run& r, bool ta) {
    SETUP(ta); Free fr(r, A); sa_handle h = INVALID_HANDLE; sa_rights rt = rights_all(); Bytes in[3] = {pattern(32, 1), rsa_der(128), pkcs8(ec_pkey(0))}; int fmts[3] = {SYM, RSAF, ECF};
    auto no = [&](const std::string& w, sa_status s) { r.transitions(); if (s == SA_STATUS_OK) rel(A, K_KEY, h); r.check(s != SA_STATUS_OK, "%s accepted", w.c_str()); r.check(h == INVALID_HANDLE, "%s: a handle is returned", w.c_str()); h = INVALID_HANDLE; };
    for (int f = 0; f < 3; f++) { for (size_t n : {(size_t) 0, (size_t) 16, in[f].size()}) { sa_import_parameters_ec_private_bytes p = {&rt, (sa_elliptic_curve) 0}; no("no input", CALL(A, sa_key_import, &h, (sa_key_format) fmts[f], nullptr, n, &p)); }
        sa_import_parameters_ec_private_bytes p = {nullptr, (sa_elliptic_curve) 0}; no("no rights", CALL(A, sa_key_import, &h, (sa_key_format) fmts[f], in[f].data(), in[f].size(), &p)); no("no parameters", CALL(A, sa_key_import, &h, (sa_key_format) fmts[f], in[f].data(), in[f].size(), nullptr));
        sa_import_parameters_ec_private_bytes q = {&rt, (sa_elliptic_curve) 0}; sa_status s = CALL(A, sa_key_import, nullptr, (sa_key_format) fmts[f], in[f].data(), in[f].size(), &q); r.check(s != SA_STATUS_OK, "NULL key accepted"); for (unsigned fm : {6u, 7u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) no(strf("format %u", fm), CALL(A, sa_key_import, &h, (sa_key_format) fm, in[f].data(), in[f].size(), &q));
        for (int o = 0; o < 3; o++) if (o != f && o != 0) no(strf("format %d as %d", f, o), imp(A, &h, fmts[o], in[f], rt, 0));
        sa_rights b = rt; for (size_t i = 0; i < sizeof b.id; i++) if (!b.id[i]) b.id[i] = 'z'; no("a name without end", imp(A, &h, fmts[f], in[f], b, 0)); memset(b.id, 0xff, sizeof b.id); no("a name of 0xff without end", imp(A, &h, fmts[f], in[f], b, 0)); }
    // other kinds of key
    auto other = [&](const char* w, EVP_PKEY* k) { if (!k) return; Bytes p8 = pkcs8(k), pub = pkey_pub_der(k); uint8_t* o = nullptr; int l = i2d_PrivateKey(k, &o); Bytes tr = l > 0 ? Bytes(o, o + l) : Bytes(1); OPENSSL_free(o); ERR_clear_error(); r.count("other_keys");
        for (int c = -1; c < 9; c++) { int f = c < 0 ? RSAF : ECF; no(strf("%s as %d curve %d", w, f, c), imp(A, &h, f, p8, rt, c)); no(strf("public key of %s", w), imp(A, &h, f, pub, rt, c)); if (tr != p8) no(strf("traditional encoding of %s", w), imp(A, &h, f, tr, rt, c)); } };
    auto gen = [&](const char* n, const char* g) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(nullptr, n, nullptr); EVP_PKEY* k = nullptr; if (!c) return k; if (EVP_PKEY_keygen_init(c) == 1) { OSSL_PARAM p[2] = {OSSL_PARAM_construct_end(), OSSL_PARAM_construct_end()}; if (g) p[0] = OSSL_PARAM_construct_utf8_string("group", (char*) g, 0); if (EVP_PKEY_CTX_set_params(c, p) == 1) EVP_PKEY_generate(c, &k); } EVP_PKEY_CTX_free(c); ERR_clear_error(); return k; };
    for (const char* g : {"secp256k1", "brainpoolP256r1", "brainpoolP384r1", "prime239v1", "secp160r1", "secp112r1", "sect233k1", "wap-wsg-idm-ecid-wtls12"}) { EVP_PKEY* k = gen("EC", g); other(g, k); EVP_PKEY_free(k); }
    { EVP_PKEY* k = gen("SM2", nullptr); other("SM2", k); EVP_PKEY_free(k); k = gen("RSA-PSS", nullptr); other("RSA-PSS", k); EVP_PKEY_free(k); k = gen("DH", "ffdhe2048"); other("DH", k); EVP_PKEY_free(k); }
    for (int c = 0; c < 9; c++) if (ec_pkey(c)) { Bytes p8 = pkcs8(ec_pkey(c)); no("an EC key as RSA", imp(A, &h, RSAF, p8, rt)); uint8_t* o = nullptr; int l = i2d_PrivateKey(ec_pkey(c), &o); Bytes tr(o, o + l); OPENSSL_free(o); if (tr != p8) no("a traditional EC key", imp(A, &h, ECF, tr, rt, c)); no("a public EC key", imp(A, &h, ECF, pkey_pub_der(ec_pkey(c)), rt, c)); no("raw private bytes", imp(A, &h, ECF, pattern(curve_size(c), 3), rt, c));
        for (unsigned w : {9u, 10u, 255u, 256u + (unsigned) c, 0x10000u + (unsigned) c, 0x80000000u + (unsigned) c, 0x7fffffffu, 0xffffffffu}) no(strf("curve %d as %x", c, w), imp(A, &h, ECF, p8, rt, (int) w)); for (int w = 0; w < 9; w++) if (w != c) no(strf("curve %d as %d", c, w), imp(A, &h, ECF, p8, rt, w)); }
    for (size_t z : {(size_t) 128, (size_t) 256}) { uint8_t* o = nullptr; int l = i2d_PrivateKey(rsa_pkey(z), &o); Bytes tr(o, o + l); OPENSSL_free(o); if (tr != rsa_der(z)) no("a PKCS#1 RSA key", imp(A, &h, RSAF, tr, rt)); no("a public RSA key", imp(A, &h, RSAF, pkey_pub_der(rsa_pkey(z)), rt)); for (int c = 0; c < 9; c++) no("an RSA key as EC", imp(A, &h, ECF, rsa_der(z), rt, c)); }
    r.traces();
}
// PKCS8 of an EC key from its parts
static Bytes der(uint8_t tag, const Bytes& v) { Bytes o(1, tag); size_t n = v.size(); if (n < 128) o.push_back((uint8_t) n); else if (n < 256) { o.push_back(0x81); o.push_back((uint8_t) n); } else { o.push_back(0x82); o.push_back((uint8_t) (n >> 8)); o.push_back((uint8_t) n); } o.insert(o.end(), v.begin(), v.end()); return o; }
static Bytes oid(int curve) { ASN1_OBJECT* a = OBJ_nid2obj(EC_curve_nist2nid(curve_name(curve))); uint8_t* o = nullptr; int l = i2d_ASN1_OBJECT(a, &o); Bytes b(o, o + l); OPENSSL_free(o); return b; }
static Bytes ec_p8(int curve, const Bytes& priv, const Bytes* pub, bool inner_params) {
    static const uint8_t ecoid[] = {0x06, 0x07, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01}; Bytes in = cat({der(2, Bytes(1, 1)), der(4, priv)}); if (inner_params) in = cat({in, der(0xa0, oid(curve))}); if (pub) in = cat({in, der(0xa1, der(3, cat({Bytes(1, 0), *pub})))});
    return der(0x30, cat({der(2, Bytes(1, 0)), der(0x30, cat({Bytes(ecoid, ecoid + 9), oid(curve)})), der(4, der(0x30, in))}));
}
static Bytes bnpad(const BIGNUM* b, size_t n) { Bytes o(n); BN_bn2binpad(b, o.data(), (int) n); return o; }
static void ec_scalars(Run& r, bool ta, int c) {
    SETUP(ta); Free fr(r, A); EC_GROUP* g = EC_GROUP_new_by_curve_name(EC_curve_nist2nid(curve_name(c))); const BIGNUM* n = EC_GROUP_get0_order(g); BN_CTX* bc = BN_CTX_new(); size_t z = curve_size(c); EC_POINT* P = EC_POINT_new(g);
    std::vector<std::pair<std::string, BIGNUM*>> v; auto add = [&](const char* w, int base, long d) { BIGNUM* b = BN_new(); if (base == 0) BN_zero(b); else if (base == 1) BN_copy(b, n); else if (base == 2) { BN_copy(b, n); BN_rshift1(b, b); } else if (base == 3) { BN_one(b); BN_lshift(b, b, BN_num_bits(n)); } else { BN_one(b); BN_lshift(b, b, (int) z * 8); BN_sub_word(b, 1); } if (d >= 0) BN_add_word(b, (BN_ULONG) d); else BN_sub_word(b, (BN_ULONG) -d); v.push_back({w, b}); };
    for (int d = 0; d < 4; d++) add(strf("%d", d).c_str(), 0, d); add("255", 0, 255); add("256", 0, 256); for (int d = -2; d < 3; d++) { add(strf("n%+d", d).c_str(), 1, d); add(strf("n/2%+d", d).c_str(), 2, d); add(strf("2^bits%+d", d).c_str(), 3, d); } add("all ones", 4, 0);
    for (auto& e : v) { bool ok = !BN_is_zero(e.second) && BN_cmp(e.second, n) < 0; if (BN_num_bytes(e.second) > (int) z) continue; BIGNUM* m = BN_dup(e.second); BN_nnmod(m, m, n, bc); EC_POINT_mul(g, P, m, nullptr, nullptr, bc); uint8_t pb[300]; size_t pl = EC_POINT_point2oct(g, P, POINT_CONVERSION_UNCOMPRESSED, pb, sizeof pb, bc); Bytes pub(pb, pb + pl); pl = EC_POINT_point2oct(g, P, POINT_CONVERSION_COMPRESSED, pb, sizeof pb, bc); Bytes pubc(pb, pb + pl);
        Bytes wrong = sub(pkey_pub_der(ec_pkey(c, 5)), pkey_pub_der(ec_pkey(c, 5)).size() - 2 * z - 1, 2 * z + 1); Bytes offc = wrong; offc.back() ^= 1; Bytes inf(1, 0);
        for (int ip = 0; ip < 2; ip++) for (int w = 0; w < 6; w++) for (size_t len : {z, z - 1, z + 1, z + 8, (size_t) BN_num_bytes(e.second)}) { if (len < (size_t) BN_num_bytes(e.second) || (r.thorough ? 0 : (w > 1 && len != z))) continue; const Bytes* pp[] = {nullptr, &pub, &pubc, &wrong, &offc, &inf}; Bytes in = ec_p8(c, bnpad(e.second, len), pp[w], ip); static const char* wn[] = {"no", "its", "its compressed", "another", "an invalid", "the neutral"};
            if (!one(r, A, ECF, in, c, strf("%s: private value %s in %zu bytes with %s public key", curve_name(c), e.first.c_str(), len, wn[w]).c_str())) continue; r.count(ok ? "scalars_in_range" : "scalars_out_of_range");
            if (ok && w < 2 && len == z) { AnyKey k; k.type = SA_KEY_TYPE_EC; k.curve = c; k.size = z; k.pk = ec_pkey_from_scalar(c, bnpad(e.second, z)); if (!k.pk) continue; k.pub = pkey_pub_der(k.pk); sa_handle h; sa_rights rt = rights_all(); sa_status s = imp(A, &h, ECF, in, rt, c); if (s) continue; std::string x = ak_is(A, h, k, rt, true); r.check(x.empty(), "%s: private value %s: %s", curve_name(c), e.first.c_str(), x.c_str()); rel(A, K_KEY, h); EVP_PKEY_free(k.pk); } }
        BN_free(m); }
    for (auto& e : v) BN_free(e.second); EC_POINT_free(P); EC_GROUP_free(g); BN_CTX_free(bc); r.traces();
}
static Bytes raw_p8(int c, const Bytes& priv) { Bytes base = pkcs8(ec_pkey(c)); Bytes o = sub(base, 9, 3); return der(0x30, cat({der(2, Bytes(1, 0)), der(0x30, der(6, o)), der(4, der(4, priv))})); }
static void raw_lens(Run& r, bool ta, int c) { // X25519, Ed25519, X448, Ed448
    SETUP(ta); Free fr(r, A); size_t z = curve_size(c); r.check(one(r, A, ECF, pkcs8(ec_pkey(c)), c, "the key itself"), "x");
    for (size_t n = 0; n <= 130; n++) { Bytes p = pattern(n, 17), in; Bytes base = pkcs8(ec_pkey(c)); Bytes o = sub(base, 9, 3); in = raw_p8(c, p); one(r, A, ECF, in, c, strf("%s: private key of %zu bytes", curve_name(c), n).c_str()); }
    for (uint8_t b : {(uint8_t) 0, (uint8_t) 1, (uint8_t) 0x7f, (uint8_t) 0xff}) { size_t n = pkcs8(ec_pkey(c)).size() - 16; (void) z; one(r, A, ECF, raw_p8(c, Bytes(n, b)), c, "a constant private key"); }
    r.traces();
}
static void mutate(Run& r, bool ta, int fmt, int v, int part, int parts) {
    SETUP(ta); Free fr(r, A); Bytes in = fmt == RSAF ? rsa_der((size_t) v) : pkcs8(ec_pkey(v)); std::string nm = fmt == RSAF ? strf("rsa-%d", v) : std::string(curve_name(v));
    std::vector<int> dv; if (r.thorough) { for (int i = 1; i < 256; i++) dv.push_back(i); } else dv = fmt == RSAF && v > 128 ? std::vector<int>{0x01, 0x80} : std::vector<int>{0x01, 0x80, 0x41};
    std::vector<int> vals = {0x00, 0x02, 0x03, 0x04, 0x05, 0x06, 0x30, 0x80, 0x81, 0xa0, 0xff}; if (r.thorough) { vals.clear(); for (int i = 0; i < 256; i++) vals.push_back(i); }
    for (size_t i = 0; i < in.size(); i++) { if ((int) (i % (size_t) parts) != part) continue;
        Bytes t = sub(in, 0, i); one(r, A, fmt, t, v, strf("%s cut to %zu bytes", nm.c_str(), i).c_str());
        Bytes d = in; d.erase(d.begin() + (long) i); one(r, A, fmt, d, v, strf("%s without byte %zu", nm.c_str(), i).c_str()); Bytes ins = in; ins.insert(ins.begin() + (long) i, 0x00); one(r, A, fmt, ins, v, strf("%s with a zero at %zu", nm.c_str(), i).c_str());
        for (int x : dv) { Bytes m = in; m[i] ^= (uint8_t) x; if (!one(r, A, fmt, m, v, strf("%s with byte %zu changed by %02x", nm.c_str(), i, x).c_str()) && r.failures() > 20) return; }
        if (i < 40) for (int val : vals) { Bytes m = in; m[i] = (uint8_t) val; one(r, A, fmt, m, v, strf("%s with byte %zu set to %02x", nm.c_str(), i, val).c_str()); } }
    r.traces();
}
static void rsa_sizes(Run& r, bool ta, int bits, int e) {
    SETUP(ta); Free fr(r, A); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, nullptr); EVP_PKEY* k = nullptr; EVP_PKEY_keygen_init(c); EVP_PKEY_CTX_set_rsa_keygen_bits(c, bits); BIGNUM* b = BN_new(); BN_set_word(b, (BN_ULONG) e); EVP_PKEY_CTX_set1_rsa_keygen_pubexp(c, b); BN_free(b); EVP_PKEY_keygen(c, &k); EVP_PKEY_CTX_free(c); ERR_clear_error(); if (!r.check(k != nullptr, "harness: no key of %d bits", bits)) return; r.beat();
    Bytes in = pkcs8(k); sa_handle h; sa_rights rt = rights_all(); one(r, A, RSAF, in, 0, strf("RSA key of %d bits", bits).c_str());
    if (bits == 1024 || bits == 2048 || bits == 3072 || bits == 4096) { AnyKey q; q.type = SA_KEY_TYPE_RSA; q.size = (size_t) bits / 8; q.pk = k; q.pub = pkey_pub_der(k); sa_status s = imp(A, &h, RSAF, in, rt); if (r.check(s == SA_STATUS_OK, "RSA key of %d bits: %s", bits, sn(s))) { std::string x = ak_is(A, h, q, rt, true); r.check(x.empty(), "RSA key of %d bits, exponent %d: %s", bits, e, x.c_str()); rel(A, K_KEY, h); } }
    EVP_PKEY_free(k); r.traces();
}
int main(int argc, char** argv) {
    Spec s; s.property = "C19";
    s.rule = "symmetric keys of every length 0..1100; every bit of the rights, every name length and list position; EC keys of every curve imported as every curve, boundary private values (0, 1, around half the order, the order, the field size) in several lengths with no, right, wrong and invalid public keys; RSA keys of every size around the supported ones and several exponents; for each fixed RSA and EC key every truncation, removed or inserted byte and single-byte change; keys of other kinds and encodings. Every accepted key is compared by header, rights and public key with OpenSSL's decoding of the same bytes, and original keys by using them. Input blocks have exactly the given size under AddressSanitizer. A case is non-trivial by its arguments.";
    s.assumptions = {"an encoding is well-formed when OpenSSL decodes it, it names the requested type, curve and a supported size, and (EC) its private value is in range and belongs to the public key it carries", "the mathematical consistency of the numbers of an RSA key, and bytes behind a complete encoding, are outside the property"};
    s.setup = [](Run&) { sah_setup(); };
    s.explore = [](Run& r) {
        auto T = [&](const std::string& d) { return !r.stop() && r.take("%s", d.c_str()) && (r.nontrivial(hash(r.current())), true); };
        auto rs = rightsets();
        for (int ta = 0; ta < 2; ta++) { const char* n = ta ? "trusted" : "client";
            if (T(strf("%s malformed imports", n))) bad(r, ta);
            for (size_t z = 0; z <= 1100; z++) if (T(strf("%s symmetric %zu", n, z))) sym_len(r, ta, z, rs[0]);
            for (size_t z : {(size_t) 4096, (size_t) 65536 + 16, (size_t) 1 << 20}) if (T(strf("%s symmetric %zu", n, z))) sym_len(r, ta, z, rs[0]);
            for (int t = 0; t < 3; t++) for (auto& x : rs) if (T(strf("%s type %d %s", n, t, x.first.c_str()))) rights_of(r, ta, t, x);
            for (int c = 0; c < 9; c++) if (ec_pkey(c)) { if (T(strf("%s private values of curve %d", n, c))) { if (curve_is_nist(c)) ec_scalars(r, ta, c); else raw_lens(r, ta, c); }
                for (int p = 0; p < 4; p++) if ((r.thorough || ta == p % 2) && T(strf("%s altered key of curve %d part %d", n, c, p))) mutate(r, ta, ECF, c, p, 4); }
            for (int z : {128, 256, 384, 512}) if (z <= 256 || r.thorough) for (int p = 0; p < 8; p++) if ((r.thorough || ta == p % 2) && T(strf("%s altered RSA key of %d part %d", n, z, p))) mutate(r, ta, RSAF, z, p, 8);
            for (int b : {512, 768, 1008, 1016, 1023, 1024, 1025, 1027, 1031, 1032, 1040, 1536, 2040, 2047, 2048, 2049, 2055, 2056, 3071, 3072, 3073, 4096, 4097}) for (int e : {65537, 3, 17}) if ((r.thorough || (b <= 2056 && (e == 65537 || b == 1024))) && T(strf("%s RSA key of %d bits exponent %d", n, b, e))) rsa_sizes(r, ta, b, e);
        }
    };
    return mc::main(argc, argv, s);
}
