// The public-key part of the provider: signatures, RSA encryption, key agreement, key derivation, key lifetimes.
struct PAlg { const char* name; const char* tn; int curve; bool sign, ed, ex; };
static const PAlg PALGS[] = {{"rsa", "RSA", -1, true, false, false}, {"p-256", "EC", SA_ELLIPTIC_CURVE_NIST_P256, true, false, true}, {"p-384", "EC", SA_ELLIPTIC_CURVE_NIST_P384, true, false, true}, {"p-521", "EC", SA_ELLIPTIC_CURVE_NIST_P521, true, false, true},
        {"ed25519", "ED25519", SA_ELLIPTIC_CURVE_ED25519, true, true, false}, {"ed448", "ED448", SA_ELLIPTIC_CURVE_ED448, true, true, false}, {"x25519", "X25519", SA_ELLIPTIC_CURVE_X25519, false, false, true}, {"x448", "X448", SA_ELLIPTIC_CURVE_X448, false, false, true}};
enum PMode { P_FROMDATA, P_DER, P_HANDLE, P_OWNED, NPM, P_PUB };
static const char* const PMN[] = {"fromdata", "der", "handle", "owned-handle", "", "public"};
static EVP_PKEY* pref(const PAlg& a, int idx) { return a.curve < 0 ? rsa_pkey(idx ? 256 : 128) : ec_pkey(a.curve, idx); }
static uint64_t exported_handle(EVP_PKEY* p) {
    uint64_t h = INVALID_HANDLE; OSSL_PARAM* q = nullptr;
    if (EVP_PKEY_todata(p, EVP_PKEY_KEYPAIR, &q) == 1) { const OSSL_PARAM* f = OSSL_PARAM_locate_const(q, OSSL_PARAM_SA_KEY); if (f) OSSL_PARAM_get_uint64(f, &h); }
    OSSL_PARAM_free(q); return h;
}
static EVP_PKEY* pfrom(const char* tn, int sel, const OSSL_PARAM* params) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(sa_lib(), tn, nullptr); EVP_PKEY* p = nullptr;
    if (EVP_PKEY_fromdata_init(c) != 1 || EVP_PKEY_fromdata(c, &p, sel, (OSSL_PARAM*) params) != 1) p = nullptr;
    EVP_PKEY_CTX_free(c); return p;
}
// OpenSSL's own decoder of this key needs SHAKE256, which the library context of the provider does not have
static bool undecodable(const PAlg& a, int mode) { return a.curve == SA_ELLIPTIC_CURVE_ED448 && mode == P_DER; }
static EVP_PKEY* pmake(mc::Run& r, Keys& keys, const PAlg& a, int idx, int mode) {
    if (getenv("MC_LOG")) freopen("/tmp/mcerr", "a", stderr); EVP_PKEY* ref = pref(a, idx); EVP_PKEY* p = nullptr; bool handle = mode == P_HANDLE || mode == P_OWNED;
    if (mode == P_FROMDATA || mode == P_PUB) { OSSL_PARAM* q = nullptr; int sel = mode == P_PUB ? EVP_PKEY_PUBLIC_KEY : EVP_PKEY_KEYPAIR; EVP_PKEY_todata(ref, sel, &q); p = pfrom(a.tn, sel, q); OSSL_PARAM_free(q); }
    else if (mode == P_DER) { Blk d(pkcs8(ref)); const uint8_t* q = d.p; p = d2i_AutoPrivateKey_ex(nullptr, &q, (long) d.n, sa_lib(), nullptr); }
    else { sa_key h = a.curve < 0 ? import_rsa_der(pkcs8(ref), rights_all()) : import_ec_key(a.curve, rights_all(), idx); keys.k.push_back({h, mode == P_OWNED}); KeyPar k(h, mode == P_OWNED); p = pfrom(a.tn, EVP_PKEY_KEYPAIR, k.get()); }
    r.transitions();
    if (!p && getenv("MC_LOG")) { FILE* f = fopen("/tmp/mcerr", "a"); ERR_print_errors_fp(f); fclose(f); }
    if (!r.check(p != nullptr, "key refused")) return nullptr;
    if (mode < P_HANDLE) keys.k.push_back({exported_handle(p), true});
    return p;
}
struct PX { EVP_PKEY* p; PX(EVP_PKEY* q) : p(q) {} PX(const PX&) = delete; ~PX() { EVP_PKEY_free(p); } operator EVP_PKEY*() const { return p; } };
struct CX { EVP_PKEY_CTX* p; CX(EVP_PKEY_CTX* q) : p(q) {} CX(const CX&) = delete; ~CX() { EVP_PKEY_CTX_free(p); } operator EVP_PKEY_CTX*() const { return p; } };
static const char* const SMD[] = {"SHA1", "SHA256", "SHA384", "SHA512"};
static const int SMDL[] = {20, 32, 48, 64};

static Bytes ref_ecdh(EVP_PKEY* a, EVP_PKEY* b) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(a, nullptr); size_t n = 0; Bytes z;
    if (EVP_PKEY_derive_init(x) == 1 && EVP_PKEY_derive_set_peer(x, b) == 1 && EVP_PKEY_derive(x, nullptr, &n) == 1) { z.resize(n); if (EVP_PKEY_derive(x, z.data(), &n) == 1) z.resize(n); else z.clear(); }
    EVP_PKEY_CTX_free(x); return z;
}
// parameters set by name: OpenSSL 3.0's own functions for it fail on duplicated contexts
static bool x_str(EVP_PKEY_CTX* c, const char* n, const char* v) { OSSL_PARAM q[] = {OSSL_PARAM_construct_utf8_string(n, (char*) v, 0), OSSL_PARAM_construct_end()}; return EVP_PKEY_CTX_set_params(c, q) == 1; }
static bool x_int(EVP_PKEY_CTX* c, const char* n, int v) { OSSL_PARAM q[] = {OSSL_PARAM_construct_int(n, &v), OSSL_PARAM_construct_end()}; return EVP_PKEY_CTX_set_params(c, q) == 1; }
// ---- signatures
struct SCfg { int md; bool pss; int salt; int mgf; };  // salt: RSA_PSS_SALTLEN_*, or bytes, 99: not set; mgf: -1 not set
static bool s_apply(EVP_PKEY_CTX* c, const SCfg& g) {
    if (!g.pss) return true;
    return EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING) == 1 && (g.salt == 99 || EVP_PKEY_CTX_set_rsa_pss_saltlen(c, g.salt) == 1) && (g.mgf < 0 || EVP_PKEY_CTX_set_rsa_mgf1_md_name(c, SMD[g.mgf], nullptr) == 1);
}
static int s_salt(EVP_PKEY* k, const SCfg& g) { return g.salt == RSA_PSS_SALTLEN_DIGEST ? SMDL[g.md] : g.salt < 0 || g.salt == 99 ? EVP_PKEY_size(k) - SMDL[g.md] - 2 : g.salt; }
static bool s_possible(EVP_PKEY* k, const SCfg& g) { return !g.pss || (s_salt(k, g) >= 0 && s_salt(k, g) + SMDL[g.md] + 2 <= EVP_PKEY_size(k)); }
// verification by the default provider, of exactly the requested salt length
static bool s_ref_verify(const PAlg& a, EVP_PKEY* k, const SCfg& g, const Bytes& m, const Bytes& sig) {
    EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_PKEY_CTX* p = nullptr; SCfg h = g; h.salt = s_salt(k, g); if (h.mgf < 0) h.mgf = h.md;
    bool ok = EVP_DigestVerifyInit_ex(c, &p, a.ed ? nullptr : SMD[g.md], nullptr, nullptr, k, nullptr) == 1 && s_apply(p, h) && EVP_DigestVerify(c, sig.data(), sig.size(), m.data(), m.size()) == 1;
    EVP_MD_CTX_free(c); ERR_clear_error(); return ok;
}
static Bytes s_ref_sign(const PAlg& a, EVP_PKEY* k, const SCfg& g, const Bytes& m) {
    EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_PKEY_CTX* p = nullptr; Bytes s(1024); size_t n = s.size();
    bool ok = EVP_DigestSignInit_ex(c, &p, a.ed ? nullptr : SMD[g.md], nullptr, nullptr, k, nullptr) == 1 && s_apply(p, g) && EVP_DigestSign(c, s.data(), &n, m.data(), m.size()) == 1;
    EVP_MD_CTX_free(c); ERR_clear_error(); s.resize(ok ? n : 0); return s;
}
static void s_judge(mc::Run& r, const PAlg& a, EVP_PKEY* ref, const SCfg& g, const Bytes& m, const Bytes& sig) {
    r.traces();
    if (a.ed || (a.curve < 0 && !g.pss)) r.check(sig == s_ref_sign(a, ref, g, m), "the signature differs from that of OpenSSL");
    else r.check(s_ref_verify(a, ref, g, m, sig), "OpenSSL does not accept the signature");
}
static bool s_final(mc::Run& r, EVP_MD_CTX* c, Bytes* sig, bool possible, int dl) { // size, too short, exact
    size_t n = 0; r.transitions();
    if (EVP_DigestSignFinal(c, nullptr, &n) != 1) return r.check(!possible, "the size of the signature is refused");
    Blk o(n); size_t l = n;
    int rc = EVP_DigestSignFinal(c, o.p, &l);
    if (!r.check((rc == 1) == possible, possible ? "signing fails" : "a signature that cannot be made was made")) return false;
    if (rc != 1) return false;
    if (!r.check(l <= n, "the signature is longer than announced")) return false;
    sig->assign(o.p, o.p + l); (void) dl; return true;
}
static void s_params(mc::Run& r, EVP_PKEY_CTX* s, EVP_PKEY_CTX* d, const PAlg& a, const SCfg& g) {
    auto get = [&](EVP_PKEY_CTX* c, bool alg) {
        std::string t; char nm[64];
        if (alg) { uint8_t b[128]; OSSL_PARAM q[] = {OSSL_PARAM_construct_octet_string(OSSL_SIGNATURE_PARAM_ALGORITHM_ID, b, sizeof b), OSSL_PARAM_construct_end()}; if (EVP_PKEY_CTX_get_params(c, q) != 1) return std::string("-"); return std::string((char*) b, q[0].return_size); }
        if (a.curve < 0) { int v = -9; t += EVP_PKEY_CTX_get_rsa_padding(c, &v) > 0 ? std::to_string(v) : "-"; }
        if (a.curve < 0 && g.pss && g.salt != 99) { int v = -9; t += EVP_PKEY_CTX_get_rsa_pss_saltlen(c, &v) > 0 ? " " + std::to_string(v) : " -"; }
        if (a.curve < 0 && g.mgf >= 0) { OSSL_PARAM q[] = {OSSL_PARAM_construct_utf8_string(OSSL_SIGNATURE_PARAM_MGF1_DIGEST, nm, sizeof nm), OSSL_PARAM_construct_end()}; const EVP_MD* m = EVP_PKEY_CTX_get_params(c, q) == 1 ? EVP_get_digestbyname(nm) : nullptr; t += m ? std::string(" ") + EVP_MD_get0_name(m) : " -"; }
        if (!a.ed) { OSSL_PARAM q[] = {OSSL_PARAM_construct_utf8_string(OSSL_SIGNATURE_PARAM_DIGEST, nm, sizeof nm), OSSL_PARAM_construct_end()}; if (EVP_PKEY_CTX_get_params(c, q) == 1) { const EVP_MD* m = EVP_get_digestbyname(nm); t += std::string(" ") + (m ? EVP_MD_get0_name(m) : nm); } else t += " -"; }
        return t;
    };
    ERR_set_mark(); std::string x = get(s, false), y = get(d, false), p = get(s, true), q = get(d, true); ERR_pop_to_mark();
    r.check(x == y, "the parameters read back are %s, OpenSSL's are %s", x.c_str(), y.c_str());
    r.check(p == q || p == "-", "the algorithm identifier differs from OpenSSL's");
}
static std::vector<SCfg> s_cfgs(const PAlg& a, int md) {
    std::vector<SCfg> v{{md, false, 99, -1}};
    if (a.curve < 0) for (int s : {99, RSA_PSS_SALTLEN_DIGEST, RSA_PSS_SALTLEN_AUTO, RSA_PSS_SALTLEN_MAX, 0, 20, 200}) for (int m = -1; m < 4; m++) v.push_back({md, true, s, m});
    return v;
}
static std::string s_name(const SCfg& g) { std::string t = SMD[g.md]; if (g.pss) t += mc::strf(" pss salt=%s mgf1=%s", g.salt == 99 ? "unset" : std::to_string(g.salt).c_str(), g.mgf < 0 ? "unset" : SMD[g.mgf]); return t; }
static void signatures(mc::Run& r) {
    for (auto& a : PALGS) { if (!a.sign) continue;
        for (int md = 0; md < (a.ed ? 1 : 4); md++) for (auto& g : s_cfgs(a, md)) for (int mode = 0; mode < NPM; mode++) {
            if (r.stop()) return;
            if (undecodable(a, mode)) continue;
            // one message, in pieces, with the context copied before, between and after them; original and copy finish in either order
            for (int cp = -1; cp < (a.ed ? 1 : 3); cp++) for (int order = 0; order < (cp < 0 ? 1 : 3); order++) for (size_t n : {0, 1, 100}) {
                if (a.ed && (n == 1 || order == 2)) continue;
                if (!r.thorough && g.pss && !(cp < 0 && n == 100 && mode == P_OWNED) && !(g.md && (g.salt == 99 || g.salt == 20) && g.mgf == (g.salt == 20 ? 2 : -1) && n == 100)) continue;
                if (!r.thorough && ((n == 1 && cp >= 0) || (cp >= 0 && (mode == P_DER || mode == P_HANDLE)))) continue;
                if (!r.take("%s key=%s sign %s of %zu bytes, copied at %d, order %d", a.name, PMN[mode], s_name(g).c_str(), n, cp, order)) continue;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; { Bytes m = pattern(n, 1), x = pattern(9, 2); EVP_PKEY* ref = pref(a, 0); PX k(pmake(r, keys, a, 0, mode)); if (!k) return; bool can = s_possible(ref, g);
                    EVP_MD_CTX *c = EVP_MD_CTX_new(), *q = nullptr, *d = EVP_MD_CTX_new(); EVP_PKEY_CTX *p = nullptr, *dp = nullptr; Bytes s1, s2; bool ok = true;
                    ok = EVP_DigestSignInit_ex(c, &p, a.ed ? nullptr : SMD[md], sa_lib(), nullptr, k, nullptr) == 1 && s_apply(p, g);
                    ok = ok && EVP_DigestSignInit_ex(d, &dp, a.ed ? nullptr : SMD[md], nullptr, nullptr, ref, nullptr) == 1 && s_apply(dp, g);
                    if (r.check(ok, "refused")) s_params(r, p, dp, a, g);
                    size_t h = n / 3; Blk m1(sub(m, 0, h)), m2(sub(m, h, n - h));
                    auto copy = [&](int at) { if (ok && at == cp) { q = EVP_MD_CTX_new(); ok = r.check(EVP_MD_CTX_copy_ex(q, c) == 1, "the context cannot be copied"); if (ok) { EVP_PKEY_CTX* qp = EVP_MD_CTX_get_pkey_ctx(q); if (qp) s_params(r, qp, dp, a, g); } } };
                    copy(0);
                    if (a.ed) {
                        auto one = [&](EVP_MD_CTX* z, const Bytes& t) { size_t l = 0; Blk b(t); if (!r.check(EVP_DigestSign(z, nullptr, &l, b.p, b.n) == 1, "size refused")) return; if (l) { Blk sh(l - 1); size_t e = l - 1; r.check(EVP_DigestSign(z, sh.p, &e, b.p, b.n) != 1, "signature into too short a buffer"); } Blk o(l); r.check(EVP_DigestSign(z, o.p, &l, b.p, b.n) == 1, "signing fails"); s_judge(r, a, ref, g, t, sub(o.bytes(), 0, l)); };
                        if (ok && q && order) { one(q, x); EVP_MD_CTX_free(q); q = nullptr; one(c, m); } else if (ok) { one(c, m); if (q) { EVP_MD_CTX_free(c); c = nullptr; one(q, x); } }
                    } else {
                        ok = ok && EVP_DigestSignUpdate(c, m1.p, m1.n) == 1; copy(1); ok = ok && EVP_DigestSignUpdate(c, m2.p, m2.n) == 1; copy(2);
                        Bytes mq = cp == 0 ? x : cp == 1 ? cat({m1.bytes(), x}) : cat({m, x});
                        auto fc = [&]() { if (s_final(r, c, &s1, can, SMDL[md])) s_judge(r, a, ref, g, m, s1); EVP_MD_CTX_free(c); c = nullptr; };
                        auto fq = [&]() { r.check(EVP_DigestSignUpdate(q, x.data(), x.size()) == 1, "the copy cannot be continued"); if (s_final(r, q, &s2, can, SMDL[md])) s_judge(r, a, ref, g, mq, s2); EVP_MD_CTX_free(q); q = nullptr; };
                        if (r.check(ok, "refused")) { if (q && order == 1) fq(); if (q && order == 2) { PX gone(k.p); k.p = nullptr; } fc(); if (q) fq(); }
                    }
                    EVP_MD_CTX_free(c); EVP_MD_CTX_free(q); EVP_MD_CTX_free(d); }
                    keys.done(r);
                });
            }
            // verification: what OpenSSL signed, and variations of it
            for (int m2 = 0; m2 < 2; m2++) for (int what = 0; what < 7; what++) {
                int vm = m2 ? P_PUB : mode; if (m2 && mode) continue;
                if (!r.thorough && g.pss && !m2 && !(what == 0 && mode == P_OWNED)) continue;
                if (!r.take("%s key=%s verify %s %s", a.name, PMN[vm], s_name(g).c_str(), ((const char*[]){"good", "other message", "changed", "shortened", "extended", "empty", "good, by a copy"})[what])) continue;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; { Bytes m = pattern(50, 1); EVP_PKEY* ref = pref(a, 0); Bytes sig = s_ref_sign(a, ref, g, m); if (sig.empty()) { sig = Bytes(EVP_PKEY_size(ref), 1); if (what == 0 || what == 6) return; }
                    if (what == 1) m[7] ^= 1; if (what == 2) sig[sig.size() / 2] ^= 4; if (what == 3) sig.pop_back(); if (what == 4) sig.push_back(0); if (what == 5) sig.clear();
                    PX k(pmake(r, keys, a, 0, vm)); if (!k) return;
                    EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_PKEY_CTX* p = nullptr; Blk sb(sig);
                    if (r.check(EVP_DigestVerifyInit_ex(c, &p, a.ed ? nullptr : SMD[md], sa_lib(), nullptr, k, nullptr) == 1 && s_apply(p, g), "refused")) {
                        EVP_MD_CTX* z = c;
                        if (what == 6) { z = EVP_MD_CTX_new(); r.check(EVP_MD_CTX_copy_ex(z, c) == 1, "the context cannot be copied"); }
                        bool v = a.ed ? EVP_DigestVerify(z, sb.p, sb.n, m.data(), m.size()) == 1 : EVP_DigestVerifyUpdate(z, m.data(), m.size()) == 1 && EVP_DigestVerifyFinal(z, sb.p, sb.n) == 1;
                        r.check(v == (what == 0 || what == 6), v ? "a signature that is not valid is accepted" : "a valid signature is refused"); r.traces();
                        if (z != c) EVP_MD_CTX_free(z);
                    }
                    EVP_MD_CTX_free(c); }
                    keys.done(r);
                });
            }
        }
    }
    // signing a given digest: every sequence of settings, duplications and signatures
    enum { SI, VI, H1, H256, PK, PSS, SL20, SLD, MG1, MG512, DUP, DUPK, SZ, SIGN, SHORT, NSO };
    static const char* const SON[] = {"sign-init", "verify-init", "sha1", "sha256", "pkcs1", "pss", "salt20", "salt-digest", "mgf1-sha1", "mgf1-sha512", "dup", "dup-keep", "size", "sign", "short"};
    int depth = r.thorough ? 5 : 3;
    for (auto& a : PALGS) { if (!a.sign || a.ed || (a.curve >= 0 && a.curve != SA_ELLIPTIC_CURVE_NIST_P256)) continue; bool rsa = a.curve < 0;
        for (int mode = 0; mode < NPM; mode++) { if (!r.thorough && (mode == P_DER || mode == P_HANDLE)) continue;
        std::vector<int> h;
        std::function<void(int)> rec = [&](int state) {  // 0 nothing, 1 sign, 2 verify
            if (r.stop()) return;
            if ((int) h.size() == depth) {
                std::string t; for (int o : h) t += std::string(" ") + SON[o];
                if (!r.take("%s key=%s:%s", a.name, PMN[mode], t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; { EVP_PKEY* ref = pref(a, 0); PX k(pmake(r, keys, a, 0, mode)); if (!k) return; Bytes msg = pattern(40, 4);
                    std::vector<EVP_PKEY_CTX*> kept; EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_pkey(sa_lib(), k, nullptr); int st = 0; SCfg g{-1, false, 99, -1};
                    auto use = [&](EVP_PKEY_CTX* z, int st, SCfg g, bool sho) {
                        if (g.md < 0 || !st) return; // without a digest the provider has its own convention
                        Blk dg(ref_digest(SMD[g.md], msg)); bool can = s_possible(ref, g);
                        if (st == 1) { size_t l = 0; if (EVP_PKEY_sign(z, nullptr, &l, dg.p, dg.n) != 1) { r.check(!can, "size refused"); return; }
                            if (sho) { Blk o(rsa ? l - 1 : 8); size_t e = o.n; r.check(EVP_PKEY_sign(z, o.p, &e, dg.p, dg.n) != 1, "signature into too short a buffer"); return; }
                            Blk o(l); bool ok = EVP_PKEY_sign(z, o.p, &l, dg.p, dg.n) == 1; if (r.check(ok == can && (!ok || l <= o.n), can ? "signing fails" : "a signature that cannot be made was made") && ok) s_judge(r, a, ref, g, msg, sub(o.bytes(), 0, l)); }
                        else if (can) { Bytes s = s_ref_sign(a, ref, g, msg); if (s.empty()) return; Blk b(s); r.check(EVP_PKEY_verify(z, b.p, b.n, dg.p, dg.n) == 1, "a valid signature is refused"); r.traces(); b.p[b.n / 2] ^= 1; r.check(EVP_PKEY_verify(z, b.p, b.n, dg.p, dg.n) != 1, "a changed signature is accepted");
                            Blk d2(ref_digest(SMD[g.md], pattern(41, 4))); b.p[b.n / 2] ^= 1; r.check(EVP_PKEY_verify(z, b.p, b.n, d2.p, d2.n) != 1, "the signature of something else is accepted"); }
                    };
                    std::vector<std::function<void()>> later;
                    for (int o : h) { r.transitions(); bool ok = true; switch (o) {
                        case SI: ok = EVP_PKEY_sign_init(c) == 1; st = 1; g = {-1, false, 99, -1}; break;
                        case VI: ok = EVP_PKEY_verify_init(c) == 1; st = 2; g = {-1, false, 99, -1}; break;
                        case H1: case H256: g.md = o - H1; ok = x_str(c, OSSL_SIGNATURE_PARAM_DIGEST, SMD[g.md]); break;
                        case PK: ok = x_int(c, OSSL_SIGNATURE_PARAM_PAD_MODE, RSA_PKCS1_PADDING); g.pss = false; break;
                        case PSS: ok = x_int(c, OSSL_SIGNATURE_PARAM_PAD_MODE, RSA_PKCS1_PSS_PADDING); g.pss = true; break;
                        case SL20: case SLD: g.salt = o == SL20 ? 20 : RSA_PSS_SALTLEN_DIGEST; ok = x_int(c, OSSL_SIGNATURE_PARAM_PSS_SALTLEN, g.salt); break;
                        case MG1: case MG512: g.mgf = o == MG1 ? 0 : 3; ok = x_str(c, OSSL_SIGNATURE_PARAM_MGF1_DIGEST, SMD[g.mgf]); break;
                        case DUP: { EVP_PKEY_CTX* n = EVP_PKEY_CTX_dup(c); ok = n != nullptr; if (ok) { EVP_PKEY_CTX_free(c); c = n; } break; }
                        case DUPK: { EVP_PKEY_CTX* n = EVP_PKEY_CTX_dup(c); ok = n != nullptr; if (ok) { kept.push_back(c); EVP_PKEY_CTX* old = c; later.push_back([=]() { use(old, st, g, false); }); c = n; } break; }
                        case SZ: { size_t l = 0; Blk dg(g.md < 0 ? 32 : SMDL[g.md]); if (s_possible(ref, g.md < 0 ? SCfg{1, g.pss, g.salt, g.mgf} : g)) ok = EVP_PKEY_sign(c, nullptr, &l, dg.p, dg.n) == 1 && l >= (size_t) (rsa ? EVP_PKEY_size(ref) : 70); break; }
                        case SIGN: case SHORT: use(c, st, g, o == SHORT); break;
                        }
                        if (!r.check(ok, "%s fails", SON[o])) break; }
                    use(c, st, g, false); for (auto& f : later) f();
                    EVP_PKEY_CTX_free(c); for (auto p : kept) EVP_PKEY_CTX_free(p); }
                    keys.done(r);
                });
                return;
            }
            for (int o = 0; o < NSO; o++) {
                if (!state && o != SI && o != VI) continue;
                if (!rsa && o >= PK && o <= MG512) continue;
                if (state == 2 && (o == SZ || o == SHORT)) continue;
                bool dup = false; for (int p : h) dup = dup || p == DUP || p == DUPK;
                if (dup && o <= VI) continue; // OpenSSL 3.0 itself cannot start anything in a duplicated context
                bool pss = false; for (int p : h) pss = p == PSS || (pss && p != PK && p != SI && p != VI);
                if ((o >= SL20 && o <= MG512) && !pss) continue;
                h.push_back(o); rec(o == SI ? 1 : o == VI ? 2 : state); h.pop_back();
            }
        };
        rec(0); }
    }
}

// ---- RSA encryption
struct ECfg { bool oaep; int md, mgf, label; };
static const Bytes& e_label(int i) { static const Bytes l[] = {{}, {'x'}, {'l', 'a', 'b', 0, 'e', 'l', 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}}; return l[i]; }
static bool e_apply(EVP_PKEY_CTX* c, const ECfg& g) {
    if (EVP_PKEY_CTX_set_rsa_padding(c, g.oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING) != 1) return false;
    if (!g.oaep) return true;
    if (g.md >= 0 && EVP_PKEY_CTX_set_rsa_oaep_md_name(c, SMD[g.md], nullptr) != 1) return false;
    if (g.mgf >= 0 && EVP_PKEY_CTX_set_rsa_mgf1_md_name(c, SMD[g.mgf], nullptr) != 1) return false;
    if (g.label >= 0) { const Bytes& l = e_label(g.label); void* p = OPENSSL_malloc(l.size() ? l.size() : 1); memcpy(p, l.data(), l.size()); if (EVP_PKEY_CTX_set0_rsa_oaep_label(c, p, (int) l.size()) != 1) { OPENSSL_free(p); return false; } }
    return true;
}
static bool e_apply_raw(EVP_PKEY_CTX* c, const ECfg& g) {
    if (!x_int(c, OSSL_ASYM_CIPHER_PARAM_PAD_MODE, g.oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING)) return false;
    if (!g.oaep) return true;
    if (g.md >= 0 && !x_str(c, OSSL_ASYM_CIPHER_PARAM_OAEP_DIGEST, SMD[g.md])) return false;
    if (g.mgf >= 0 && !x_str(c, OSSL_ASYM_CIPHER_PARAM_MGF1_DIGEST, SMD[g.mgf])) return false;
    if (g.label >= 0) { Blk l(e_label(g.label)); OSSL_PARAM q[] = {OSSL_PARAM_construct_octet_string(OSSL_ASYM_CIPHER_PARAM_OAEP_LABEL, l.p, l.n), OSSL_PARAM_construct_end()}; return EVP_PKEY_CTX_set_params(c, q) == 1; }
    return true;
}
static void e_params(mc::Run& r, EVP_PKEY_CTX* c, const ECfg& g) {
    int pad = -1; char nm[64]; r.check(EVP_PKEY_CTX_get_rsa_padding(c, &pad) > 0 && pad == (g.oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING), "the padding mode cannot be read back (%d)", pad);
    if (!g.oaep) return;
    if (g.md >= 0) r.check(EVP_PKEY_CTX_get_rsa_oaep_md_name(c, nm, sizeof nm) > 0 && EVP_get_digestbyname(nm) == EVP_get_digestbyname(SMD[g.md]), "the OAEP digest cannot be read back");
    if (g.mgf >= 0) r.check(EVP_PKEY_CTX_get_rsa_mgf1_md_name(c, nm, sizeof nm) > 0 && EVP_get_digestbyname(nm) == EVP_get_digestbyname(SMD[g.mgf]), "the MGF1 digest cannot be read back");
    if (g.label >= 0) { uint8_t* l = nullptr; int n = EVP_PKEY_CTX_get0_rsa_oaep_label(c, &l); r.check(n == (int) e_label(g.label).size() && (!n || (l && !memcmp(l, e_label(g.label).data(), n))), "the OAEP label cannot be read back"); }
}
static void encryption(mc::Run& r) {
    std::vector<ECfg> cf{{false, -1, -1, -1}}; for (int md = -1; md < 4; md++) for (int mgf = -1; mgf < 4; mgf++) for (int l = -1; l < 3; l++) cf.push_back({true, md, mgf, l});
    const PAlg& a = PALGS[0];
    for (auto& g : cf) for (int mode = 0; mode <= P_PUB; mode++) for (int enc = 0; enc < 2; enc++) for (int dup = 0; dup < 4; dup++) for (int n : {0, 1, 62, 300}) {
        if (mode == NPM || (mode == P_PUB && !enc)) continue;
        if (!r.thorough && mode != P_OWNED && !((g.md == -1 || g.md == 1) && (g.mgf == -1 || g.mgf == 3) && g.label != 1)) continue;
        if (!r.thorough && dup && n != 62) continue;
        if (r.stop()) return;
        int top = EVP_PKEY_size(pref(a, 1)) - (g.oaep ? 2 * SMDL[g.md < 0 ? 0 : g.md] + 2 : 11);
        size_t len = n == 300 ? (size_t) top : (size_t) n; if (n == 300 && dup) continue;
        if (!r.take("rsa key=%s %s %s md=%s mgf1=%s label=%d %zu bytes dup=%d", PMN[mode], enc ? "encrypt" : "decrypt", g.oaep ? "oaep" : "pkcs1", g.md < 0 ? "unset" : SMD[g.md], g.mgf < 0 ? "unset" : SMD[g.mgf], g.label, len, dup)) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() {
            Keys keys; { EVP_PKEY* ref = pref(a, 1); PX k(pmake(r, keys, a, 1, mode)); if (!k) return; Bytes m = pattern(len, 6);
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_from_pkey(sa_lib(), k, nullptr), *d = EVP_PKEY_CTX_new(ref, nullptr), *old = nullptr;
            auto D = [&]() { EVP_PKEY_CTX* x = EVP_PKEY_CTX_dup(c); if (!r.check(x != nullptr, "the context cannot be duplicated")) return; if (dup == 3) old = c; else EVP_PKEY_CTX_free(c); c = x; };
            bool ok = (enc ? EVP_PKEY_encrypt_init(c) : EVP_PKEY_decrypt_init(c)) == 1 && (enc ? EVP_PKEY_decrypt_init(d) : EVP_PKEY_encrypt_init(d)) == 1 && e_apply(d, g);
            if (dup == 1) D();
            ok = ok && (dup == 1 ? e_apply_raw(c, g) : e_apply(c, g)); if (ok && dup != 1) e_params(r, c, g); if (dup >= 2) D();
            if (r.check(ok, "refused")) {
                auto run = [&](EVP_PKEY_CTX* z) {
                    Blk in(m); r.transitions();
                    if (enc) {
                        size_t l = 0; r.check(EVP_PKEY_encrypt(z, nullptr, &l, in.p, in.n) == 1 && l == (size_t) EVP_PKEY_size(ref), "wrong size");
                        Blk o(EVP_PKEY_size(ref)); l = o.n; if (!r.check(EVP_PKEY_encrypt(z, o.p, &l, in.p, in.n) == 1 && l == o.n, "encryption fails")) return;
                        Bytes b(512); l = b.size(); r.check(EVP_PKEY_decrypt(d, b.data(), &l, o.p, o.n) == 1 && sub(b, 0, l) == m, "OpenSSL does not decrypt it to the message"); r.traces();
                    } else {
                        Blk ct(EVP_PKEY_size(ref)); size_t l = ct.n; if (EVP_PKEY_encrypt(d, ct.p, &l, in.p, in.n) != 1) { r.fail("reference"); return; }
                        r.check(EVP_PKEY_decrypt(z, nullptr, &l, ct.p, ct.n) == 1 && l >= len, "wrong size");
                        if (len) { Blk s(len - 1); size_t e = s.n; r.check(EVP_PKEY_decrypt(z, s.p, &e, ct.p, ct.n) != 1, "result into too short a buffer"); }
                        Blk o(EVP_PKEY_size(ref)); l = o.n; if (r.check(EVP_PKEY_decrypt(z, o.p, &l, ct.p, ct.n) == 1, "decryption fails")) r.check(l == len && sub(o.bytes(), 0, l) == m, "decrypted to something else"); r.traces();
                        if (g.oaep) { ct.p[ct.n - 1] ^= 1; l = o.n; r.check(EVP_PKEY_decrypt(z, o.p, &l, ct.p, ct.n) != 1, "a changed ciphertext is accepted"); }
                    }
                };
                run(c); if (old) run(old); else run(c);
            }
            EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(old); EVP_PKEY_CTX_free(d); }
            keys.done(r);
        });
    }
}

// ---- key agreement
static Bytes key_hash(sa_key k) { Bytes d(32); size_t n = 32; return sa_key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256) == SA_STATUS_OK ? d : Bytes(); }
static void agreement(mc::Run& r) {
    enum { PA, PB, PS, DUP, DUPK, SZ, DER, SHORT, INIT, NDO };
    static const char* const DON[] = {"peer-a", "peer-b", "peer-of-provider", "dup", "dup-keep", "size", "derive", "short", "init"};
    int depth = r.thorough ? 5 : 3;
    for (auto& a : PALGS) { if (!a.ex) continue; for (int mode = 0; mode < NPM; mode++) {
        if (!r.thorough && mode != P_OWNED && (mode == P_DER || (a.curve != SA_ELLIPTIC_CURVE_NIST_P256 && a.curve != SA_ELLIPTIC_CURVE_X448))) continue;
        std::vector<int> h;
        std::function<void()> rec = [&]() {
            if (r.stop()) return;
            if ((int) h.size() == depth) {
                std::string t; for (int o : h) t += std::string(" ") + DON[o];
                if (!r.take("%s key=%s agree:%s", a.name, PMN[mode], t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; { PX k(pmake(r, keys, a, 0, mode)); if (!k) return; std::vector<EVP_PKEY_CTX*> kept; EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_pkey(sa_lib(), k, nullptr); int peer = 0; PX ps(nullptr);
                    r.check(EVP_PKEY_derive_init(c) == 1, "refused");
                    auto use = [&](EVP_PKEY_CTX* z, int peer, size_t room) {
                        Blk o(room); size_t l = room; bool ok = EVP_PKEY_derive(z, o.p, &l) == 1, can = peer && room >= sizeof(sa_key);
                        if (!r.check(ok == can, can ? "agreement fails" : "agreed on a key without a peer, or without room for it") || !ok) return;
                        sa_key s; memcpy(&s, o.p, sizeof s); keys.k.push_back({s, false}); r.traces();
                        r.check(l == sizeof s && key_hash(s) == ref_digest("SHA256", ref_ecdh(pref(a, 0), pref(a, peer))), "agreed on another key");
                    };
                    std::vector<std::function<void()>> later;
                    for (int o : h) { r.transitions(); bool ok = true; switch (o) {
                        case PA: case PB: ok = EVP_PKEY_derive_set_peer(c, pref(a, o == PA ? 1 : 2)) == 1; peer = o == PA ? 1 : 2; break;
                        case PS: if (!ps.p) ps.p = pmake(r, keys, a, 3, P_PUB); ok = ps.p && EVP_PKEY_derive_set_peer(c, ps) == 1; peer = 3; break;
                        case DUP: case DUPK: { EVP_PKEY_CTX* n = EVP_PKEY_CTX_dup(c); ok = n != nullptr; if (ok) { if (o == DUP) EVP_PKEY_CTX_free(c); else { kept.push_back(c); EVP_PKEY_CTX* old = c; int p = peer; later.push_back([=]() { use(old, p, 8); }); } c = n; } break; }
                        case SZ: if (peer) { size_t l = 0; ok = EVP_PKEY_derive(c, nullptr, &l) == 1 && l == sizeof(sa_key); } break;
                        case DER: use(c, peer, sizeof(sa_key)); break;
                        case SHORT: use(c, peer, sizeof(sa_key) - 1); break;
                        case INIT: ok = EVP_PKEY_derive_init(c) == 1; peer = 0; break; }
                        if (!r.check(ok, "%s fails", DON[o])) break; }
                    use(c, peer, 64); for (auto& f : later) f();
                    EVP_PKEY_CTX_free(c); for (auto p : kept) EVP_PKEY_CTX_free(p); }
                    keys.done(r);
                });
                return;
            }
            bool dup = false; for (int o : h) dup = dup || o == DUP || o == DUPK;
            for (int o = 0; o < NDO; o++) { if (dup && (o <= PS || o == INIT)) continue; // OpenSSL 3.0 itself cannot give a duplicated context a peer
                if (!r.thorough && a.curve != SA_ELLIPTIC_CURVE_NIST_P256 && a.curve != SA_ELLIPTIC_CURVE_X448 && h.size() == 1 && o != DUP && o != PA) continue; h.push_back(o); rec(); h.pop_back(); }
        };
        rec(); } }
}

// ---- key derivation
struct KAlg { const char* sa; const char* def; bool md, salt; };
static const KAlg KALGS[] = {{"HKDF", "HKDF", true, true}, {"SSKDF", "SSKDF", true, false}, {"X963KDF", "X963KDF", true, false}, {"KBKDF", nullptr, false, true}};
static void derivation(mc::Run& r) {
    enum { KO, KH, KW, M1, M512, S0, S1, S2, I0, I1, I2, US, UL, DUP, DUPK, RESET, D16, D32, NKO };
    static const char* const NM[] = {"key-octets", "key-handle", "key-owned", "sha1", "sha512", "salt0", "salt1", "salt20", "info0", "info1", "info20", "separator", "length", "dup", "dup-keep", "reset", "derive16", "derive32"};
    struct St { int key = -1, md = -1; Bytes salt, info; int us = 0, ul = 0; };
    int depth = r.thorough ? 4 : 3;
    for (auto& a : KALGS) {
        auto expect = [&](const St& s, size_t n) {
            Bytes k = pattern(16, 70 + s.key), o;
            if (!a.def) { Bytes rest = s.salt; if (s.us) rest.push_back(0); rest.insert(rest.end(), s.info.begin(), s.info.end()); if (s.ul) { Bytes l{0, 0, 0, (uint8_t) n}; rest.insert(rest.end(), l.begin(), l.end()); }
                for (int i = 1; o.size() < n; i++) { Bytes b = ref_cmac(k, cat({Bytes{(uint8_t) i}, rest})); o.insert(o.end(), b.begin(), b.end()); } o.resize(n); return o; }
            static uint8_t z; std::vector<OSSL_PARAM> p{OSSL_PARAM_construct_utf8_string("digest", (char*) SMD[s.md], 0), OSSL_PARAM_construct_octet_string("key", k.data(), k.size())};
            if (a.salt) p.push_back(OSSL_PARAM_construct_octet_string("salt", s.salt.empty() ? &z : (void*) s.salt.data(), s.salt.size()));
            p.push_back(OSSL_PARAM_construct_octet_string("info", s.info.empty() ? &z : (void*) s.info.data(), s.info.size())); p.push_back(OSSL_PARAM_construct_end());
            EVP_KDF_CTX* x = EVP_KDF_CTX_new(FETCH(EVP_KDF, false, a.def)); o.resize(n); if (EVP_KDF_derive(x, o.data(), n, p.data()) != 1) { r.fail("reference"); } EVP_KDF_CTX_free(x); return o;
        };
        std::vector<int> h;
        std::function<void()> rec = [&]() {
            if (r.stop()) return;
            if ((int) h.size() == depth) for (int pre = 0; pre < 2; pre++) {
                std::string t; for (int o : h) t += std::string(" ") + NM[o];
                if (!r.take("%s%s:%s", a.sa, pre ? " with a key, digest, salt and info" : "", t.c_str())) continue;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; St s; EVP_KDF_CTX* c = EVP_KDF_CTX_new(FETCH(EVP_KDF, true, a.sa)); std::vector<EVP_KDF_CTX*> kept; std::vector<std::function<void()>> later; int nk = 0;
                    if (!r.check(c != nullptr, "no such algorithm")) return;
                    auto set = [&](OSSL_PARAM p) { OSSL_PARAM q[] = {p, OSSL_PARAM_construct_end()}; return EVP_KDF_CTX_set_params(c, q) == 1; };
                    auto key = [&](int how) { sa_key k = keys.make(pattern(16, 70 + ++nk), how == KW); s.key = nk; if (how == KO) return set(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, &k, sizeof k)); KeyPar p(k, how == KW); if (how == KH) { int z = 0; p.add(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &z)); return EVP_KDF_CTX_set_params(c, p.get()) == 1; } return EVP_KDF_CTX_set_params(c, p.get()) == 1; };
                    auto oct = [&](const char* n, size_t l, Bytes& b) { Blk v(b = pattern(l, 90 + (unsigned) l)); return set(OSSL_PARAM_construct_octet_string(n, v.p, v.n)); };
                    auto use = [&](EVP_KDF_CTX* z, const St& s, size_t n) {
                        Blk o(n); bool ok = EVP_KDF_derive(z, o.p, n, nullptr) == 1, can = s.key >= 0 && (s.md >= 0 || !a.md);
                        if (!r.check(ok == can, can ? "derivation fails" : "derived a key without a key or digest") || !ok) return;
                        sa_key d; memcpy(&d, o.p, sizeof d); keys.k.push_back({d, false}); r.traces();
                        r.check(key_hash(d) == ref_digest("SHA256", expect(s, n)), "derived another key");
                    };
                    if (pre) { bool ok = key(KH); if (a.md) { s.md = 1; ok = ok && set(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) "SHA256", 0)); } if (a.salt) ok = ok && oct(OSSL_KDF_PARAM_SALT, 5, s.salt); ok = ok && oct(OSSL_KDF_PARAM_INFO, 5, s.info); r.check(ok, "refused"); }
                    for (int o : h) { r.transitions(); bool ok = true; int one = 1; switch (o) {
                        case KO: case KH: case KW: ok = key(o); break;
                        case M1: case M512: s.md = o == M1 ? 0 : 3; ok = set(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) SMD[s.md], 0)); break;
                        case S0: case S1: case S2: ok = oct(OSSL_KDF_PARAM_SALT, o == S0 ? 0 : o == S1 ? 1 : 20, s.salt); break;
                        case I0: case I1: case I2: ok = oct(OSSL_KDF_PARAM_INFO, o == I0 ? 0 : o == I1 ? 1 : 20, s.info); break;
                        case US: ok = set(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, &one)); s.us = 1; break;
                        case UL: ok = set(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_L, &one)); s.ul = 1; break;
                        case DUP: case DUPK: { EVP_KDF_CTX* n = EVP_KDF_CTX_dup(c); ok = n != nullptr; if (ok) { if (o == DUP) EVP_KDF_CTX_free(c); else { kept.push_back(c); EVP_KDF_CTX* old = c; St p = s; later.push_back([=]() { use(old, p, 16); }); } c = n; } break; }
                        case RESET: EVP_KDF_CTX_reset(c); s = St(); break;
                        case D16: use(c, s, 16); break;
                        case D32: use(c, s, 32); break; }
                        if (!r.check(ok, "%s fails", NM[o])) break; }
                    use(c, s, 32); for (auto& f : later) f();
                    EVP_KDF_CTX_free(c); for (auto p : kept) EVP_KDF_CTX_free(p);
                    keys.done(r);
                });
            }
            if ((int) h.size() == depth) return;
            for (int o = 0; o < NKO; o++) {
                if ((o == M1 || o == M512) && !a.md) continue;
                if (o >= S0 && o <= S2 && !a.salt) continue;
                if ((o == US || o == UL) && a.def) continue;
                h.push_back(o); rec(); h.pop_back();
            }
        };
        rec();
    }
}

// ---- keys: equality, references, duplicates and contexts, released in every order
static bool key_works(mc::Run& r, Keys& keys, const PAlg& a, EVP_PKEY* k) {
    EVP_PKEY* ref = pref(a, 0); bool ok;
    if (a.sign) { SCfg g{1, false, 99, -1}; EVP_MD_CTX* c = EVP_MD_CTX_new(); Bytes m = pattern(10, 5); Blk o(600); size_t n = o.n; ok = EVP_DigestSignInit_ex(c, nullptr, a.ed ? nullptr : "SHA256", sa_lib(), nullptr, k, nullptr) == 1 && EVP_DigestSign(c, o.p, &n, m.data(), m.size()) == 1; if (ok) s_judge(r, a, ref, g, m, sub(o.bytes(), 0, n)); EVP_MD_CTX_free(c); }
    else { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_pkey(sa_lib(), k, nullptr); sa_key s; size_t n = sizeof s; ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, pref(a, 1)) == 1 && EVP_PKEY_derive(c, (uint8_t*) &s, &n) == 1; if (ok) { r.traces(); keys.k.push_back({s, false}); r.check(key_hash(s) == ref_digest("SHA256", ref_ecdh(ref, pref(a, 1))), "agreed on another key"); } EVP_PKEY_CTX_free(c); }
    return r.check(ok, "the key cannot be used");
}
static void key_lives(mc::Run& r) {
    for (auto& a : PALGS) for (int m1 = 0; m1 <= P_PUB; m1++) for (int m2 = 0; m2 <= P_PUB; m2++) for (int same = 0; same < 2; same++) {
        if (m1 == NPM || m2 == NPM || undecodable(a, m1) || undecodable(a, m2)) continue;
        if (!r.take("%s equality of %s and %s, %s", a.name, PMN[m1], PMN[m2], same ? "same key" : "different keys")) continue;
        r.nontrivial(hash(r.current()));
        leakfree(r, [&]() { Keys keys; { PX x(pmake(r, keys, a, 0, m1)), y(pmake(r, keys, a, same ? 0 : 1, m2)); if (!x.p || !y.p) return; int e = EVP_PKEY_eq(x, y); r.transitions(); r.traces(); r.check(e == (same ? 1 : 0), "EVP_PKEY_eq is %d", e);
            PX z(EVP_PKEY_dup(x)); if (r.check(z.p != nullptr, "the key cannot be duplicated")) r.check(EVP_PKEY_eq(z, y) == (same ? 1 : 0) && EVP_PKEY_eq(z, x) == 1, "the duplicate compares differently");
            r.check(EVP_PKEY_get_bits(x) == EVP_PKEY_get_bits(pref(a, 0)) && EVP_PKEY_get_size(x) == EVP_PKEY_get_size(pref(a, 0)) && EVP_PKEY_get_security_bits(x) == EVP_PKEY_get_security_bits(pref(a, 0)), "bits, size or security strength differ from OpenSSL's"); r.check(pkey_pub_der(x) == pkey_pub_der(pref(a, 0)), "the public key differs"); }
            keys.done(r); });
    }
    // every order of making and releasing references, duplicates and contexts
    enum { REF, DUPL, USE, CTX, FREE0, FREE1, NLO };
    static const char* const LN[] = {"reference", "duplicate", "use", "context", "free-first", "free-last"};
    int depth = r.thorough ? 5 : 3;
    for (auto& a : PALGS) for (int mode = 0; mode < NPM; mode++) {
        if (undecodable(a, mode) || (!r.thorough && (mode == P_DER || (mode == P_FROMDATA && a.curve > 0 && !a.ed) || (mode == P_HANDLE && a.curve >= 0 && a.curve != SA_ELLIPTIC_CURVE_X25519)))) continue;
        std::vector<int> h;
        std::function<void(int)> rec = [&](int live) {
            if (r.stop()) return;
            if ((int) h.size() == depth || !live) {
                std::string t; for (int o : h) t += std::string(" ") + LN[o];
                if (!r.take("%s key=%s life:%s", a.name, PMN[mode], t.c_str())) return;
                r.nontrivial(hash(r.current()));
                leakfree(r, [&]() {
                    Keys keys; std::vector<EVP_PKEY*> v{pmake(r, keys, a, 0, mode)}; std::vector<EVP_PKEY_CTX*> cx; if (!v[0]) return;
                    for (int o : h) { r.transitions(); switch (o) {
                        case REF: EVP_PKEY_up_ref(v[0]); v.push_back(v[0]); break;
                        case DUPL: { EVP_PKEY* d = EVP_PKEY_dup(v[0]); if (r.check(d != nullptr, "the key cannot be duplicated")) v.push_back(d); break; }
                        case USE: key_works(r, keys, a, v.back()); break;
                        case CTX: { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_pkey(sa_lib(), v.back(), nullptr); cx.push_back(c); if (a.sign && !a.ed) r.check(EVP_PKEY_sign_init(c) == 1, "refused"); else if (a.ex) r.check(EVP_PKEY_derive_init(c) == 1, "refused"); break; }
                        case FREE0: EVP_PKEY_free(v[0]); v.erase(v.begin()); break;
                        case FREE1: EVP_PKEY_free(v.back()); v.pop_back(); break; } if (v.empty()) break; }
                    if (!cx.empty() && a.ex && !a.sign) { sa_key s; size_t n = sizeof s; if (r.check(EVP_PKEY_derive_set_peer(cx[0], pref(a, 1)) == 1 && EVP_PKEY_derive(cx[0], (uint8_t*) &s, &n) == 1, "the context cannot be used")) keys.k.push_back({s, false}); }
                    if (!cx.empty() && a.sign && !a.ed) { Bytes d = ref_digest("SHA256", pattern(10, 5)); Blk o(600); size_t n = o.n; if (r.check(EVP_PKEY_CTX_set_signature_md(cx[0], EVP_sha256()) == 1 && EVP_PKEY_sign(cx[0], o.p, &n, d.data(), d.size()) == 1, "the context cannot be used")) s_judge(r, a, pref(a, 0), {1, false, 99, -1}, pattern(10, 5), sub(o.bytes(), 0, n)); }
                    if (!v.empty()) key_works(r, keys, a, v[0]);
                    for (auto p : v) EVP_PKEY_free(p); for (auto c : cx) EVP_PKEY_CTX_free(c);
                    keys.done(r);
                });
                return;
            }
            for (int o = 0; o < NLO; o++) { if (o == FREE1 && live == 1) continue; h.push_back(o); rec(o == REF || o == DUPL ? live + 1 : o >= FREE0 ? live - 1 : live); h.pop_back(); }
        };
        rec(1);
    }
}
static void pkeys(mc::Run& r) { signatures(r); encryption(r); agreement(r); derivation(r); key_lives(r); }
