// C02: isolation of sessions and callers on the trusted API.
//  matrix: every operation of the catalogue x every (session, caller) that does not own the objects it names
//  twin:   every operation while another session owns objects under the same handle numbers
//  seq:    all sequences of open, close, create and release over several sessions and two callers up to a depth; in every
//          state every object handle is tried through every session handle and caller
//  full:   all 256 sessions open
#include "ops.hpp"
using namespace mc;
static sa_uuid const_uuid(uint8_t v) { sa_uuid u; memset(&u, v, sizeof u); return u; }
static void prepare(Fix& f, const Op& op) {
    f.key("aes"); f.key("hm"); f.cipher("cbc-enc"); f.mac("hmac"); f.svp("svpB");
    for (auto& n : op.uses) { if (n.compare(0, 3, "svp") == 0) f.svp(n); else if (n == "hmac" || n == "cmac") f.mac(n); else if (n.find('-') != std::string::npos) f.cipher(n); else f.key(n); }
}
struct Foreign { const char* name; bool valid; }; // valid: the combination is a session of its own
static const Foreign FOR[] = {{"own session, other caller", false}, {"own session, zero caller", false}, {"own session, all-ones caller", false}, {"own session, caller differing in the last byte", false},
    {"other session, same caller", true}, {"other session, other caller", true}, {"other caller's session, own caller", false}, {"closed session", false}, {"session never opened", false}, {"invalid session handle", false}, {"session handle out of range", false}};
static void matrix(Run& r, const Op& op, int k) {
    env::reset(); env::caller = uuid_of(1);
    sa_uuid A = uuid_of(1), B = uuid_of(2);
    Api own; own.ta = true; own.u = A; ta_client s2, s3, s4;
    if (!r.check(ta_sa_init(&own.c, &A) == SA_STATUS_OK && ta_sa_init(&s2, &A) == SA_STATUS_OK && ta_sa_init(&s3, &B) == SA_STATUS_OK && ta_sa_init(&s4, &A) == SA_STATUS_OK && ta_sa_close(s4, &A) == SA_STATUS_OK, "sessions not opened")) return;
    {
        Api a = own; Fix f(a); prepare(f, op);
        if (!f.err.empty()) { r.fail("%s", f.err.c_str()); return; }
        switch (k) {
            case 0: a.u = B; break;
            case 1: a.u = const_uuid(0); break;
            case 2: a.u = const_uuid(255); break;
            case 3: a.u.id[15] ^= 0x80; break;
            case 4: a.c = s2; break;
            case 5: a.c = s3; a.u = B; break;
            case 6: a.c = s3; break;
            case 7: a.c = s4; break;
            case 8: a.c = 200; break;
            case 9: a.c = INVALID_HANDLE; break;
            case 10: a.c = 256; break;
        }
        for (int rep = 0; rep < 2; rep++) {
            Args g; g.sites.reserve(64);
            Res res = op.run(f, g);
            r.transitions();
            r.state(hash(op.name) * 16 + k);
            if (FOR[k].valid && op.uses.empty()) { r.check(res.s == SA_STATUS_OK, "refused (%s) in a session of its own", sn(res.s)); drop_created(f, res); r.count("own_objects"); }
            else { r.check(res.s != SA_STATUS_OK, "allowed through: %s", FOR[k].name); r.nontrivial(hash(op.name) * 16 + k); r.count("refused"); }
        }
        // the objects are as they were, for their owner
        a = own;
        std::string e = f.intact();
        r.check(e.empty(), "after the call through %s: %s", FOR[k].name, e.c_str());
        e = f.release_all();
        r.check(e.empty(), "after the call through %s: %s", FOR[k].name, e.c_str());
        r.traces();
    }
    r.check(ta_sa_close(own.c, &A) == SA_STATUS_OK && ta_sa_close(s2, &A) == SA_STATUS_OK && ta_sa_close(s3, &B) == SA_STATUS_OK, "the sessions do not close");
}
// another session (of the same or another caller) with objects under the same handle numbers
static void twin(Run& r, const Op& op, int other) {
    env::reset(); env::caller = uuid_of(1);
    Api a1, a2; a1.ta = a2.ta = true; a1.u = uuid_of(1); a2.u = uuid_of(other ? 2 : 1);
    if (!r.check(ta_sa_init(&a1.c, &a1.u) == SA_STATUS_OK && ta_sa_init(&a2.c, &a2.u) == SA_STATUS_OK, "sessions not opened")) return;
    {
        Fix f1(a1), f2(a2), f3(a2); 
        prepare(f1, op); prepare(f2, op);
        if (!f1.err.empty() || !f2.err.empty()) { r.fail("%s%s", f1.err.c_str(), f2.err.c_str()); return; }
        Args g; g.sites.reserve(64);
        Res res = op.run(f2, g);
        r.transitions();
        r.check(res.s == SA_STATUS_OK, "refused (%s) while another session has objects of the same handles", sn(res.s));
        std::string e = f1.intact();
        r.check(e.empty(), "after the call in another session: %s", e.c_str());
        drop_created(f2, res);
        e = f2.intact(op.uses);
        r.check(e.empty(), "after the call: %s", e.c_str());
        // ending the other session does not touch the objects of this one
        r.check(ta_sa_close(a2.c, &a2.u) == SA_STATUS_OK, "the session does not close");
        f2.o.clear();
        e = f1.release_all();
        r.check(e.empty(), "after the other session closed: %s", e.c_str());
        r.traces(); r.state(hash(op.name) * 2 + other + 77);
    }
    r.check(ta_sa_close(a1.c, &a1.u) == SA_STATUS_OK, "the session does not close");
}
// ---- sequences of sessions
struct MObj { Kind k; sa_handle h; int idn; uint8_t* mem; };
struct MSes { ta_client c; int caller; std::vector<MObj> o; };
struct World {
    std::vector<MSes> live; std::vector<ta_client> dead; int next = 0; std::vector<uint8_t*> mems;
    sa_uuid u[3] = {uuid_of(1), uuid_of(2), uuid_of(3)};
    ~World() { for (auto m : mems) free(m); }
};
static sa_status create(World& w, MSes& s, Kind k, int idn, MObj* o) {
    Api a; a.ta = true; a.c = s.c; a.u = w.u[s.caller];
    Bytes kb = pattern(32, 300 + idn); sa_rights rt = rights_all(); snprintf(rt.id, sizeof rt.id, "obj-%d", idn);
    *o = {k, INVALID_HANDLE, idn, nullptr};
    if (k == K_KEY) return mkkey(a, &o->h, kb, rt);
    if (k == K_SVP) { o->mem = (uint8_t*) malloc(32); w.mems.push_back(o->mem); sa_status st = CALL(a, sa_svp_buffer_create, &o->h, o->mem, 32); memcpy(o->mem, kb.data(), 32); return st; }
    sa_handle key; sa_status st = mkkey(a, &key, kb, rt);
    if (st != SA_STATUS_OK) return st;
    if (k == K_CIPHER) st = CALL(a, sa_crypto_cipher_init, &o->h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, key, nullptr);
    else st = CALL(a, sa_crypto_mac_init, &o->h, SA_MAC_ALGORITHM_CMAC, key, nullptr);
    rel(a, K_KEY, key);
    return st;
}
// which object answers under a handle: -1 none, else its number; MACs answer by accepting nothing (-2: some MAC)
static int identify(World& w, Api a, Kind k, sa_handle h) {
    if (k == K_KEY) { sa_header hd; if (CALL(a, sa_key_header, &hd, h) != SA_STATUS_OK) return -1; return atoi(hd.rights.id + 4); }
    if (k == K_CIPHER) {
        Bytes z(16), o(16); sa_buffer I = cbuf(z.data(), 16), O = cbuf(o.data(), 16); size_t n = 16;
        if (CALL(a, sa_crypto_cipher_process, &O, h, &I, &n) != SA_STATUS_OK) return -1;
        for (int i = 0; i < w.next; i++) if (ref_cipher("AES-256-ECB", true, pattern(32, 300 + i), {}, z, false) == o) return i;
        return -3;
    }
    if (k == K_MAC) { size_t n = 0; return CALL(a, sa_crypto_mac_compute, nullptr, &n, h) == SA_STATUS_OK ? -2 : -1; }
    for (int i = 0; i < w.next; i++) { Bytes d = ref_digest("SHA256", pattern(32, 300 + i)); if (CALL(a, sa_svp_buffer_check, h, 0, 32, SA_DIGEST_ALGORITHM_SHA256, d.data(), 32) == SA_STATUS_OK) return i; }
    return -1;
}
static bool probe(Run& r, World& w) {
    std::vector<ta_client> cs; for (auto& s : w.live) cs.push_back(s.c); for (auto c : w.dead) cs.push_back(c); cs.push_back(254); cs.push_back(INVALID_HANDLE);
    std::vector<std::pair<Kind, sa_handle>> hs;
    for (auto& s : w.live) for (auto& o : s.o) hs.push_back({o.k, o.h});
    for (int k = 0; k < 4; k++) hs.push_back({(Kind) k, 0});
    uint64_t st = 0;
    for (auto c : cs) for (int u = 0; u < 3; u++) {
        MSes* s = nullptr; for (auto& x : w.live) if (x.c == c && x.caller == u) s = &x;
        Api a; a.ta = true; a.c = c; a.u = w.u[u];
        for (auto& h : hs) {
            int want = -1; if (s) for (auto& o : s->o) if (o.k == h.first && o.h == h.second) want = h.first == K_MAC ? -2 : o.idn;
            int got = identify(w, a, h.first, h.second); r.transitions();
            if (!r.check(got == want, "%s handle %llu through session %llu of caller %d is object %d, expected %d", KINDN[h.first], (unsigned long long) h.second, (unsigned long long) c, u, got, want)) return false;
            // nobody else can release it either
            if (want == -1 && !r.check(rel(a, h.first, h.second) != SA_STATUS_OK, "%s handle %llu released through session %llu by caller %d", KINDN[h.first], (unsigned long long) h.second, (unsigned long long) c, u)) return false;
        }
        if (!s && !r.check(ta_sa_close(c, &w.u[u]) != SA_STATUS_OK, "session %llu closed by caller %d", (unsigned long long) c, u)) return false;
        st = st * 31 + (s ? s->o.size() + 1 : 0);
    }
    r.state(st); r.traces();
    return true;
}
// actions: 0 open A, 1 open B, 2..5 close i-th, 6..9 create kind in first, 10..13 create kind in last, 14 release oldest object of first, 15 of last
static const char* ACT[] = {"openA", "openB", "close0", "close1", "close2", "closeLast", "key0", "cipher0", "mac0", "svp0", "keyL", "cipherL", "macL", "svpL", "rel0", "relL"};
static bool act(Run& r, World& w, int a, bool quiet) {
    (void) quiet;
    if (a < 2) {
        if (w.live.size() >= 4) return false;
        ta_client c = 12345; sa_status s = ta_sa_init(&c, &w.u[a]); r.transitions();
        if (!r.check(s == SA_STATUS_OK && c != INVALID_HANDLE, "opening a session: %s", sn(s))) return false;
        for (auto& x : w.live) if (!r.check(x.c != c, "two open sessions share handle %llu", (unsigned long long) c)) return false;
        for (size_t i = 0; i < w.dead.size(); i++) if (w.dead[i] == c) { w.dead.erase(w.dead.begin() + i); break; }
        w.live.push_back({c, a, {}}); return true;
    }
    if (a < 6) {
        size_t i = a == 5 ? w.live.size() - 1 : a - 2;
        if (w.live.empty() || i >= w.live.size() || (a == 5 && i < 3)) return false;
        sa_status s = ta_sa_close(w.live[i].c, &w.u[w.live[i].caller]); r.transitions();
        if (!r.check(s == SA_STATUS_OK, "closing a session: %s", sn(s))) return false;
        w.dead.push_back(w.live[i].c); w.live.erase(w.live.begin() + i); return true;
    }
    if (w.live.empty()) return false;
    bool last = a >= 10 && a < 14 || a == 15; if (last && w.live.size() < 2) return false;
    MSes& s = last ? w.live.back() : w.live[0];
    if (a < 14) {
        if (s.o.size() >= 3) return false;
        MObj o; sa_status st = create(w, s, (Kind) ((a - 6) % 4), w.next++, &o); r.transitions();
        if (!r.check(st == SA_STATUS_OK, "creating a %s: %s", KINDN[(a - 6) % 4], sn(st))) return false;
        for (auto& x : s.o) if (x.k == o.k && !r.check(x.h != o.h, "two live %s objects share handle %llu", KINDN[o.k], (unsigned long long) o.h)) return false;
        s.o.push_back(o); return true;
    }
    if (s.o.empty()) return false;
    Api api; api.ta = true; api.c = s.c; api.u = w.u[s.caller]; MObj o = s.o[0];
    sa_status st = rel(api, o.k, o.h); r.transitions();
    if (!r.check(st == SA_STATUS_OK, "releasing a %s: %s", KINDN[o.k], sn(st))) return false;
    s.o.erase(s.o.begin()); return true;
}
static void run_seq(Run& r, const std::vector<int>& seq) {
    env::reset(); World w;
    bool ok = true;
    for (size_t i = 0; i < seq.size() && ok; i++) { uint64_t f = r.failures(); act(r, w, seq[i], false); ok = r.failures() == f; }
    if (ok) probe(r, w);
    for (auto& s : w.live) r.check(ta_sa_close(s.c, &w.u[s.caller]) == SA_STATUS_OK, "a session does not close at the end");
    w.live.clear();
}
// enabledness is decided on an abstract model so that the enumeration needs no calls
struct Abs { std::vector<int> n; };
static bool aact(Abs& m, int a) {
    if (a < 2) { if (m.n.size() >= 4) return false; m.n.push_back(0); return true; }
    if (a < 6) { size_t i = a == 5 ? m.n.size() - 1 : a - 2; if (m.n.empty() || i >= m.n.size() || (a == 5 && i < 3)) return false; m.n.erase(m.n.begin() + i); return true; }
    if (m.n.empty()) return false;
    bool last = (a >= 10 && a < 14) || a == 15; if (last && m.n.size() < 2) return false;
    int& s = last ? m.n.back() : m.n[0];
    if (a < 14) { if (s >= 3) return false; s++; return true; }
    if (!s) return false;
    s--; return true;
}
static void sequences(Run& r, std::vector<int>& seq, Abs m, int depth) {
    if (r.stop()) return;
    if (!seq.empty()) {
        std::string d; for (int a : seq) d += std::string(" ") + ACT[a];
        if (r.take("seq%s", d.c_str())) run_seq(r, seq);
    }
    if ((int) seq.size() == depth) return;
    for (int a = 0; a < 16; a++) { Abs n = m; if (!aact(n, a)) continue; if (seq.empty() && a == 1) continue; seq.push_back(a); sequences(r, seq, n, depth); seq.pop_back(); }
}
static void full(Run& r, int drop) {
    env::reset(); std::vector<ta_client> c; sa_uuid u[2] = {uuid_of(1), uuid_of(2)};
    for (;;) { ta_client x = 12345; sa_status s = ta_sa_init(&x, &u[c.size() % 2]); r.transitions(); if (s != SA_STATUS_OK) { r.check(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "no session available reported as %s", sn(s)); r.check(ta_sa_close(x, &u[c.size() % 2]) != SA_STATUS_OK, "a refused open returned a session"); break; } for (auto y : c) if (y == x) { r.fail("two sessions share a handle"); return; } c.push_back(x); if (c.size() > 600) break; }
    r.check(c.size() == 256, "%zu sessions could be opened", c.size());
    auto use = [&](size_t i, bool live) { Api a; a.ta = true; a.c = c[i]; a.u = u[i % 2]; sa_handle h; sa_rights rt = rights_all(); sa_status s = mkkey(a, &h, Bytes(16, 1), rt); r.transitions(); r.check((s == SA_STATUS_OK) == live, "session %zu: %s", i, sn(s)); if (s == SA_STATUS_OK) rel(a, K_KEY, h); };
    for (size_t i = 0; i < c.size(); i++) use(i, true);
    std::vector<size_t> gone; for (size_t i = drop; i < c.size(); i += 1 + drop * 7) { gone.push_back(i); r.check(ta_sa_close(c[i], &u[i % 2]) == SA_STATUS_OK, "close"); if (gone.size() == 12) break; }
    for (size_t i = 0; i < c.size(); i++) use(i, std::find(gone.begin(), gone.end(), i) == gone.end());
    size_t n = 0; std::vector<ta_client> again; for (;; n++) { ta_client x; if (ta_sa_init(&x, &u[0]) != SA_STATUS_OK) break; again.push_back(x); if (n > 300) break; }
    r.check(n == gone.size(), "%zu sessions closed and %zu opened", gone.size(), n);
    for (auto x : again) r.check(ta_sa_close(x, &u[0]) == SA_STATUS_OK, "close");
    for (size_t i = 0; i < c.size(); i++) if (std::find(gone.begin(), gone.end(), i) == gone.end()) r.check(ta_sa_close(c[i], &u[i % 2]) == SA_STATUS_OK, "close");
    r.traces();
}
static void explore(Run& r) {
    static std::vector<Op> ops = build_ops();
    for (auto& op : ops) { for (int k = 0; k < 11; k++) { if (op.name == "random") continue; if (r.take("matrix %s %s", op.name.c_str(), FOR[k].name)) matrix(r, op, k); }
        for (int o = 0; o < 2; o++) if (r.take("twin %s %d", op.name.c_str(), o)) twin(r, op, o); }
    for (int d = 0; d < 4; d++) if (r.take("full %d", d)) full(r, d);
    std::vector<int> seq; sequences(r, seq, Abs(), r.thorough ? 8 : 6);
}
int main(int argc, char** argv) {
    Spec s; s.property = "C02";
    s.rule = "Every operation of the catalogue through every session and caller combination that does not own its objects, and while another session owns objects with the same handle numbers; all sequences (quick 6, thorough 8) of opening and closing up to 4 sessions of two callers and creating and releasing objects of every kind in them, where in the state reached every object handle is tried through every session handle (open, closed, never opened) and three callers; all 256 sessions open. Non-trivial: distinct refused (operation, combination).";
    s.assumptions = {"information queries (version, name, device id) need no session"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
