// C12: export and import preserve a key and everything it may do.
#include "anykey.hpp"
#include "gates.hpp"
#include <openssl/pkcs12.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
static sa_rights form(int i) {
    sa_rights r = rights_all(); memset(r.id, 0, sizeof r.id);
    switch (i) {
        case 0: strcpy(r.id, "exported"); break;
        case 1: memset(r.id, 'q', 63); r.child_usage_flags = 0x1555; r.usage_flags = ALL_FLAGS; break;
        case 2: r.usage_flags = F(SA_USAGE_FLAG_CACHEABLE); r.child_usage_flags = 0; break;                     // exportable and nothing else
        case 3: r.not_before = 1; r.not_on_or_after = 2; break;                                                  // no longer valid
        case 4: r.not_before = UINT64_MAX - 1; r.not_on_or_after = UINT64_MAX; break;                            // not valid yet
        case 5: for (int t = 0; t < MAX_NUM_ALLOWED_TA_IDS; t++) for (int j = 0; j < 16; j++) r.allowed_tas[t].id[j] = (uint8_t) (t * 16 + j + 1); memcpy(&r.allowed_tas[31], uuid_of(1).id, 16); break;
        case 6: r.usage_flags = ~0ull; r.child_usage_flags = ~0ull; break;
        case 7: r.usage_flags &= ~OUT_FLAGS; break;
    }
    return r;
}
static Bytes mixin_of(int i) { return i == 0 ? Bytes() : i == 1 ? Bytes(16, 0) : i == 2 ? Bytes(16, 0xff) : i == 3 ? pattern(16, 3) : Bytes(16, 0); }
static sa_status do_export(Api& A, sa_handle k, const Bytes& mixin, Bytes& out) {
    Blk m(mixin); size_t n = 0; sa_status s = CALL(A, sa_key_export, nullptr, &n, mixin.empty() ? nullptr : m.p, mixin.empty() ? 0 : 16, k);
    if (s) return s;
    Blk b(n); size_t l = n; s = CALL(A, sa_key_export, b.p, &l, mixin.empty() ? nullptr : m.p, mixin.empty() ? 0 : 16, k);
    if (!s) out.assign(b.p, b.p + std::min(l, n));
    return s;
}
static sa_status do_import(Api& A, const Bytes& c, sa_handle* k) { Blk b(c); *k = INVALID_HANDLE; return CALL(A, sa_key_import, k, SA_KEY_FORMAT_EXPORTED, b.p, b.n, nullptr); }
// every destination, from every source; the originals are released before the imported key is used
static void roundtrip(Run& r, AnyKey k, int fi, int mi, bool deep) {
    env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true};
    Session s1(true, uuid_of(1)), s2(true, uuid_of(1)), s3(true, uuid_of(2)), api(false, uuid_of(1));
    sa_rights rt = form(fi); sa_handle k1; Bytes mx = mixin_of(mi);
    if (!r.check(ak_make(s1.A, &k1, k, rt) == SA_STATUS_OK, "%s cannot be made", k.name.c_str())) return;
    bool usable = fi != 3 && fi != 4, sym = k.type == SA_KEY_TYPE_SYMMETRIC; // outside the validity window nothing can be asked but the header
    auto is = [&](Api& A, sa_handle h, bool here) -> std::string {
        if (!usable || !here) { sa_header a; sa_status s = CALL(A, sa_key_header, &a, h); if (s) return sn(s); if (memcmp(&a.rights, &rt, sizeof rt) || a.type != k.type || a.size != k.size) return "header differs"; return ""; }
        return ak_is(A, h, k, rt, deep);
    };
    std::string e = is(s1.A, k1, true); r.check(e.empty(), "before: %s", e.c_str());
    // sizes and small buffers
    size_t n = 7; sa_status st = CALL(s1.A, sa_key_export, nullptr, &n, mx.empty() ? nullptr : mx.data(), mx.size(), k1); r.transitions();
    if (!r.check(st == SA_STATUS_OK, "size query: %s", sn(st))) return;
    Bytes c; {
        Blk b(n); size_t l = n; st = CALL(s1.A, sa_key_export, b.p, &l, mx.empty() ? nullptr : mx.data(), mx.size(), k1); r.transitions();
        if (!r.check(st == SA_STATUS_OK && l == n, "export: %s, size %zu, reported before %zu", sn(st), l, n)) return;
        c = b.bytes();
        Blk w(n + 40); l = n + 40; st = CALL(s1.A, sa_key_export, w.p, &l, mx.empty() ? nullptr : mx.data(), mx.size(), k1); r.transitions();
        r.check(st == SA_STATUS_OK && l == n && w.all(0xee, n), "export into a larger buffer: %s, size %zu", sn(st), l);
        for (size_t t : {n - 1, n - 16, n / 2, (size_t) 16, (size_t) 1, (size_t) 0}) { Blk t1(t); l = t; st = CALL(s1.A, sa_key_export, t1.p, &l, mx.empty() ? nullptr : mx.data(), mx.size(), k1); r.transitions(); r.check(st != SA_STATUS_OK && t1.all(0xee), "export into %zu bytes: %s", t, sn(st)); }
    }
    if (!mx.empty()) for (size_t l : {(size_t) 0, (size_t) 15, (size_t) 17, (size_t) 32, SIZE_MAX}) { Blk m(Bytes(l > 64 ? 16 : l, 1)); Blk o(n); size_t ol = n; st = CALL(s1.A, sa_key_export, o.p, &ol, m.p, l, k1); r.transitions(); r.check(st != SA_STATUS_OK && o.all(0xee), "export with a mixin of %zu bytes: %s", l, sn(st)); }
    e = is(s1.A, k1, true); r.check(e.empty(), "exporting changed the key: %s", e.c_str());
    Bytes c2; r.check(do_export(s1.A, k1, mx, c2) == SA_STATUS_OK, "second export");
    struct D { Session* s; bool here; const char* n; } dst[] = {{&s1, true, "same session"}, {&s2, true, "other session"}, {&s3, fi != 5, "other caller"}, {&api, true, "client API"}};
    std::vector<std::pair<D*, sa_handle>> got;
    for (auto& d : dst) for (auto* cc : {&c, &c2}) {
        sa_handle h; st = do_import(d.s->A, *cc, &h); r.transitions();
        if (!r.check(st == SA_STATUS_OK && h != INVALID_HANDLE, "import into %s: %s", d.n, sn(st))) continue;
        got.push_back({&d, h});
    }
    r.check(rel(s1.A, K_KEY, k1) == SA_STATUS_OK, "release of the original");
    for (auto& g : got) {
        e = is(g.first->s->A, g.second, g.first->here); r.transitions(); r.check(e.empty(), "imported into %s: %s", g.first->n, e.c_str());
        // again, through every other session
        Bytes c3; st = do_export(g.first->s->A, g.second, mx, c3); r.transitions();
        if (!r.check(st == SA_STATUS_OK && c3.size() == c.size(), "export of the imported key: %s, %zu bytes, first %zu", sn(st), c3.size(), c.size())) continue;
        for (auto& d : dst) { sa_handle h; st = do_import(d.s->A, c3, &h); r.transitions(); if (!r.check(st == SA_STATUS_OK, "second import into %s: %s", d.n, sn(st))) continue; if (deep || sym) { e = is(d.s->A, h, d.here); r.check(e.empty(), "second import into %s: %s", d.n, e.c_str()); } rel(d.s->A, K_KEY, h); }
    }
    for (auto& g : got) r.check(rel(g.first->s->A, K_KEY, g.second) == SA_STATUS_OK, "release");
    // under no other mixin
    Bytes used = mx.empty() ? Bytes(16, 0) : mx; r.check(sub(c, 0, 16) == used, "the container does not carry its mixin");
    for (int b = 0; b < 130; b++) {
        Bytes t = c; if (b < 128) t[b / 8] ^= 1 << b % 8; else { Bytes m = b == 128 ? Bytes(16, 0) : pattern(16, 9); memcpy(t.data(), m.data(), 16); }
        if (t == c) continue;
        sa_handle h; st = do_import(b & 1 ? s2.A : s1.A, t, &h); r.transitions(); r.check(st != SA_STATUS_OK && h == INVALID_HANDLE, "imported under another mixin (%d)", b);
        if (r.failures()) break;
    }
    r.traces(); r.state(c.data(), c.size());
}
static void refused(Run& r, AnyKey k, int fi) { // not cacheable
    env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true};
    Session s(true, uuid_of(1)); sa_handle h; sa_rights rt = form(fi); rt.usage_flags &= ~F(SA_USAGE_FLAG_CACHEABLE);
    if (!r.check(ak_make(s.A, &h, k, rt) == SA_STATUS_OK, "%s cannot be made", k.name.c_str())) return;
    Blk b(4096); Bytes mx = pattern(16, 2);
    for (int q = 0; q < 4; q++) { size_t n = 4096; sa_status st = CALL(s.A, sa_key_export, q & 1 ? b.p : nullptr, &n, q & 2 ? mx.data() : nullptr, q & 2 ? 16 : 0, h); r.transitions(); r.check(st == SA_STATUS_OPERATION_NOT_ALLOWED && b.all(0xee), "export of a key that is not cacheable (%d): %s", q, sn(st)); }
    rel(s.A, K_KEY, h); r.traces();
}
// a key that passes through the sessions in a given order, and the export flag is what survives
static void passage(Run& r, AnyKey k, const std::vector<int>& path) {
    env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true};
    Session s0(true, uuid_of(1)), s1(true, uuid_of(1)), s2(true, uuid_of(2)); Session* S[] = {&s0, &s1, &s2};
    sa_rights rt = form(0); sa_handle h; if (!r.check(ak_make(s0.A, &h, k, rt) == SA_STATUS_OK, "make")) return;
    Session* at = &s0; int step = 0;
    for (int p : path) {
        Bytes c; sa_status st = do_export(at->A, h, mixin_of(step++ % 4), c); r.transitions(); if (!r.check(st == SA_STATUS_OK, "step %d: export %s", step, sn(st))) return;
        rel(at->A, K_KEY, h); at = S[p]; st = do_import(at->A, c, &h); r.transitions(); if (!r.check(st == SA_STATUS_OK, "step %d: import %s", step, sn(st))) return;
        std::string e = ak_is(at->A, h, k, rt, step == (int) path.size()); if (!r.check(e.empty(), "step %d: %s", step, e.c_str())) return;
    }
    rel(at->A, K_KEY, h); r.traces();
}
// keys that came into being in other ways
static void other_origin(Run& r, const Op& op) {
    env::reset(); env::caller = uuid_of(1); Session s(true, uuid_of(1)), s2(true, uuid_of(1)); Fix f(s.A); Args none; fixture(f, op); Res x = op.run(f, none); r.transitions();
    if (r.check(f.err.empty() && x.s == SA_STATUS_OK, "%s: %s", op.name.c_str(), sn(x.s))) for (auto h : {x.created, x.created2, x.created3}) if (h != INVALID_HANDLE) {
        sa_header a, b; Bytes ia, ib, c; bool ok = f.describe(h, &a, &ia); sa_status st = do_export(s.A, h, pattern(16, 4), c); r.transitions();
        bool cache = a.rights.usage_flags & F(SA_USAGE_FLAG_CACHEABLE);
        if (!r.check(ok && (st == SA_STATUS_OK) == cache, "export: %s", sn(st)) || st) { rel(s.A, K_KEY, h); continue; }
        rel(s.A, K_KEY, h); Fix g(s2.A); sa_handle h2; st = do_import(s2.A, c, &h2); r.transitions();
        if (r.check(st == SA_STATUS_OK, "import: %s", sn(st))) { ok = g.describe(h2, &b, &ib); r.check(ok && !memcmp(&a, &b, sizeof a) && ia == ib, "%s: another key after export and import", op.name.c_str()); rel(s2.A, K_KEY, h2); }
    }
    f.release_all(); r.traces();
}
// containers of another device -------------------------------------------------------------------------------------------
static PKCS12_SAFEBAG* secret_bag(const Bytes& key, const char* name, const char* pw) {
    PKCS8_PRIV_KEY_INFO* p8 = PKCS8_PRIV_KEY_INFO_new(); uint8_t* k = (uint8_t*) OPENSSL_memdup(key.data(), key.size());
    PKCS8_pkey_set0(p8, OBJ_txt2obj("2.16.840.1.101.3.4.1", 1), 0, V_ASN1_UNDEF, nullptr, k, (int) key.size());
    X509_SIG* sg = PKCS8_encrypt(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, nullptr, pw, -1, nullptr, 0, 2048, p8); uint8_t* d = nullptr; int n = sg ? i2d_X509_SIG(sg, &d) : -1;
    if (n <= 0) { sg = PKCS8_encrypt(-1, EVP_aes_256_cbc(), pw, -1, nullptr, 0, 2048, p8); n = i2d_X509_SIG(sg, &d); }
    PKCS12_SAFEBAG* b = PKCS12_SAFEBAG_create_secret(NID_pkcs8ShroudedKeyBag, V_ASN1_OCTET_STRING, d, n);
    PKCS12_add_friendlyname_utf8(b, name, -1); X509_SIG_free(sg); PKCS8_PRIV_KEY_INFO_free(p8); OPENSSL_free(d); return b;
}
static bool keystore(const std::string& path, const char* device, const Bytes& root, const Bytes& common) {
    const char* pw = "password01234567"; FILE* f = nullptr; bool ok = false;
    STACK_OF(PKCS12_SAFEBAG)* bags = sk_PKCS12_SAFEBAG_new_null(); sk_PKCS12_SAFEBAG_push(bags, secret_bag(root, device, pw)); sk_PKCS12_SAFEBAG_push(bags, secret_bag(common, "commonroot", pw));
    STACK_OF(PKCS7)* safes = sk_PKCS7_new_null(); sk_PKCS7_push(safes, PKCS12_pack_p7data(bags));
    PKCS12* p = PKCS12_init(NID_pkcs7_data); PKCS12_pack_authsafes(p, safes); PKCS12_set_mac(p, pw, -1, nullptr, 0, 2048, EVP_sha256());
    if ((f = fopen(path.c_str(), "w"))) { ok = i2d_PKCS12_fp(f, p) == 1; fclose(f); }
    return ok;
}
struct Foreign { std::string what; std::vector<Bytes> c; };
static std::vector<Foreign> foreign; static std::string foreign_err;
static void produce(const std::string& what, const char* device, const Bytes& root, const Bytes& common) {
    int fd[2]; if (pipe(fd)) return;
    std::string path = strf("/tmp/mc_c12_%d.p12", getpid());
    if (!device) path = g_repo + "/reference/test/root_keystore.p12"; else if (!keystore(path, device, root, common)) { foreign_err = "keystore"; return; }
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); setenv("ROOT_KEYSTORE", path.c_str(), 1); Api A; A.ta = true; A.u = uuid_of(1); env::caller = A.u;
        std::vector<AnyKey> ks = {k_sym(16), k_sym(100), k_ec(0), k_rsa(128)};
        if (ta_sa_init(&A.c, &A.u) == SA_STATUS_OK) for (auto& k : ks) for (int m = 0; m < 4; m++) { sa_handle h; Bytes c; sa_rights rt = form(0); if (ak_make(A, &h, k, rt) == 0 && do_export(A, h, mixin_of(m), c) == 0) { uint32_t n = (uint32_t) c.size(); if (write(fd[1], &n, 4) != 4 || write(fd[1], c.data(), n) != (ssize_t) n) _exit(1); } }
        _exit(0);
    }
    close(fd[1]); Foreign f; f.what = what; uint32_t n;
    auto rd = [&](void* p, size_t l) { size_t o = 0; while (o < l) { ssize_t g = read(fd[0], (char*) p + o, l - o); if (g <= 0) return false; o += (size_t) g; } return true; };
    while (rd(&n, 4) && n < 100000) { Bytes b(n); if (!rd(b.data(), n)) break; f.c.push_back(b); }
    close(fd[0]); waitpid(pid, nullptr, 0); if (device) unlink(path.c_str());
    foreign.push_back(f);
}
static void explore(Run& r) {
    std::vector<AnyKey> ks;
    for (size_t n = 16; n <= 512; n++) if (r.thorough || n <= 50 || n % 16 <= 1 || n % 16 == 15) ks.push_back(k_sym(n));
    for (size_t n : {128, 256, 384, 512}) ks.push_back(k_rsa((size_t) n));
    for (int c = 0; c < 9; c++) { AnyKey k = k_ec(c); if (k.pk) { env::reset(); ks.push_back(k); } }
    ks.push_back(k_dh());
    for (auto& k : ks) for (int f = 0; f < 8; f++) for (int m = 0; m < 4; m++) {
        if (r.stop()) return;
        bool few = k.type == SA_KEY_TYPE_SYMMETRIC && k.size != 16 && k.size != 512 && k.size != 33;
        if (few && !r.thorough && (f + m) % 4 != (int) (k.size % 4)) continue;
        if (k.type == SA_KEY_TYPE_RSA && k.size > 256 && !r.thorough && f != m) continue;
        if (r.take("roundtrip %s rights %d mixin %d", k.name.c_str(), f, m)) { r.nontrivial(hash(r.current())); roundtrip(r, k, f, m, k.size <= 256 || k.type == SA_KEY_TYPE_SYMMETRIC); }
    }
    for (auto& k : ks) for (int f = 0; f < 8; f++) { if (r.stop()) return; if (r.take("not cacheable %s %d", k.name.c_str(), f)) { r.nontrivial(hash(r.current())); refused(r, k, f); } }
    int depth = r.thorough ? 5 : 3; std::vector<AnyKey> pk = {k_sym(16), k_sym(301), k_ec(0), k_ec(4), k_rsa(128), k_dh()};
    for (auto& k : pk) { int n = 1; for (int i = 0; i < depth; i++) n *= 3; for (int i = 0; i < n; i++) { if (r.stop()) return; std::vector<int> p; for (int j = 0, v = i; j < depth; j++, v /= 3) p.push_back(v % 3); if (r.take("passage %s %d", k.name.c_str(), i)) { r.nontrivial(hash(r.current())); passage(r, k, p); } } }
    auto ops = build_ops();
    for (auto& o : ops) if (starts(o.name, "import-") || starts(o.name, "generate-") || starts(o.name, "derive-") || starts(o.name, "exchange-") || starts(o.name, "unwrap-")) { if (r.stop()) return; if (r.take("origin %s", o.name.c_str())) { r.nontrivial(hash(r.current())); other_origin(r, o); } }
    for (auto& f : foreign) if (r.take("device %s", f.what.c_str())) {
        bool own = f.what == "own"; env::reset(); env::caller = uuid_of(1); Session s(true, uuid_of(1)); r.check(foreign_err.empty() && f.c.size() == 16, "%s: %zu containers made", foreign_err.c_str(), f.c.size());
        for (auto& c : f.c) { sa_handle h; sa_status st = do_import(s.A, c, &h); r.transitions(); r.nontrivial(hash(c.data(), c.size())); r.check((st == SA_STATUS_OK) == own, "container of %s: %s", f.what.c_str(), sn(st)); if (!st) rel(s.A, K_KEY, h); }
        r.traces();
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C12";
    s.rule = "Every key type and size (symmetric sizes 16 to 512, each RSA size, each curve, DH), eight forms of rights (including ones that no longer or do not yet apply), four mixins: export twice, import into the same session, another session, another caller's session and the client API, release the original, compare header, material and behaviour, export and import again through every session; all single-bit changes of the mixin; buffers too small, wrong mixin lengths; keys that are not cacheable; all paths through three sessions up to a depth; keys of every other origin; containers made under another device's root keys. Non-trivial: distinct cases.";
    s.assumptions = {"no two exports under different mixins or devices collide (128-bit AES, 256-bit MAC)"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); produce("own", nullptr, {}, {}); produce("another device", "fffffffffffffff1", pattern(16, 5001), pattern(16, 5002)); produce("another device with the same common root", "fffffffffffffff2", pattern(16, 5003), root_key(true)); setenv("ROOT_KEYSTORE", (g_repo + "/reference/test/root_keystore.p12").c_str(), 1); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
