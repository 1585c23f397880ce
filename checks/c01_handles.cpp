// C01: handles of the public API. All sequences of creating (in several ways, also failing ones), using and releasing objects of
// the four kinds up to a depth against a model of the live handles; in every state reached every handle value near the live ones
// and a set of special values is tried. Every operation that creates objects with all slots of that kind in use.
#include "ops.hpp"
using namespace mc;
struct Live { Kind k; sa_handle h; int id; int how; Bytes fed; uint8_t* mem = nullptr; };
struct W { Api a; std::vector<Live> v; int next = 0; std::vector<uint8_t*> mems; std::vector<std::pair<Kind, sa_handle>> gone; ~W() { for (auto m : mems) free(m); } };
static Bytes mat(int id) { return pattern(32, 500 + id); }
// creates an object; how: variants per kind
static sa_status create(W& w, Kind k, int how, Live* o) {
    *o = Live{}; o->k = k; o->h = 0x5555; o->id = w.next++; o->how = how;
    Bytes kb = mat(o->id); sa_rights rt = rights_all(); snprintf(rt.id, sizeof rt.id, "obj-%d", o->id);
    Api& a = w.a;
    if (k == K_KEY) {
        sa_import_parameters_symmetric p = {&rt};
        if (how == 0) return CALL(a, sa_key_import, &o->h, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb.data(), kb.size(), &p);
        if (how == 1) { sa_generate_parameters_symmetric g = {16}; return CALL(a, sa_key_generate, &o->h, &rt, SA_KEY_TYPE_SYMMETRIC, &g); }
        sa_generate_parameters_ec g = {SA_ELLIPTIC_CURVE_NIST_P256}; return CALL(a, sa_key_generate, &o->h, &rt, SA_KEY_TYPE_EC, &g);
    }
    if (k == K_SVP) { o->mem = (uint8_t*) malloc(32); w.mems.push_back(o->mem); sa_status s = CALL(a, sa_svp_buffer_create, &o->h, o->mem, 32); memcpy(o->mem, kb.data(), 32); return s; }
    sa_handle key = INVALID_HANDLE; sa_status s = mkkey(a, &key, kb, rt);
    if (s != SA_STATUS_OK) return s;
    if (k == K_CIPHER) s = how == 0 ? CALL(a, sa_crypto_cipher_init, &o->h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, key, nullptr) : CALL(a, sa_crypto_cipher_init, &o->h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, key, nullptr);
    else if (how == 0) s = CALL(a, sa_crypto_mac_init, &o->h, SA_MAC_ALGORITHM_CMAC, key, nullptr);
    else { sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256}; s = CALL(a, sa_crypto_mac_init, &o->h, SA_MAC_ALGORITHM_HMAC, key, &p); }
    rel(a, K_KEY, key);
    return s;
}
// creation that must fail; returns the status and the handle left behind
static sa_status bad_create(W& w, Kind k, int how, sa_handle* h) {
    *h = 0x5555; Api& a = w.a; Bytes kb = pattern(16, 1); sa_rights rt = rights_all();
    if (k == K_KEY) {
        if (how == 0) { sa_import_parameters_symmetric p = {&rt}; return CALL(a, sa_key_import, h, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb.data(), 15, &p); }
        sa_generate_parameters_ec g = {(sa_elliptic_curve) 99}; return CALL(a, sa_key_generate, h, &rt, SA_KEY_TYPE_EC, &g);
    }
    if (k == K_SVP) return CALL(a, sa_svp_buffer_create, h, nullptr, 8);
    sa_handle key; rt.usage_flags = 0; if (mkkey(a, &key, kb, rt) != SA_STATUS_OK) return SA_STATUS_INTERNAL_ERROR;
    sa_status s = k == K_CIPHER ? CALL(a, sa_crypto_cipher_init, h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, key, nullptr) : CALL(a, sa_crypto_mac_init, h, SA_MAC_ALGORITHM_CMAC, key, nullptr);
    rel(a, K_KEY, key);
    return s;
}
// checks that h (claimed to be o) behaves as that object; the use of a MAC feeds it
static std::string works(W& w, Live& o) {
    Api& a = w.a;
    if (o.k == K_KEY) {
        sa_header hd; sa_status s = CALL(a, sa_key_header, &hd, o.h); if (s) return std::string("header: ") + sn(s);
        char id[64]; snprintf(id, sizeof id, "obj-%d", o.id); if (strcmp(hd.rights.id, id)) return std::string("is key ") + hd.rights.id;
        if (o.how == 0) { uint8_t d[64]; size_t n = sizeof d; s = CALL(a, sa_key_digest, d, &n, o.h, SA_DIGEST_ALGORITHM_SHA256); if (s) return sn(s); if (Bytes(d, d + n) != ref_digest("SHA256", mat(o.id))) return "has other material"; }
        return "";
    }
    if (o.k == K_CIPHER) {
        Bytes z = pattern(16, 3), out(16); sa_buffer I = cbuf(z.data(), 16), O = cbuf(out.data(), 16); size_t n = 16;
        sa_status s = CALL(a, sa_crypto_cipher_process, &O, o.h, &I, &n); if (s) return sn(s);
        return out == ref_cipher("AES-256-ECB", o.how == 0, mat(o.id), {}, z, false) ? "" : "is another cipher";
    }
    if (o.k == K_MAC) { Bytes more = pattern(5, (unsigned) o.fed.size() + o.id); sa_status s = CALL(a, sa_crypto_mac_process, o.h, more.data(), more.size()); if (s) return sn(s); o.fed = cat({o.fed, more}); size_t n = 0; s = CALL(a, sa_crypto_mac_compute, nullptr, &n, o.h); return s ? sn(s) : n == (o.how ? 32u : 16u) ? "" : "is another MAC"; }
    Bytes d = ref_digest("SHA256", mat(o.id));
    sa_status s = CALL(a, sa_svp_buffer_check, o.h, 0, 32, SA_DIGEST_ALGORITHM_SHA256, d.data(), 32); if (s) return sn(s);
    return memcmp(o.mem, mat(o.id).data(), 32) ? "wrote to the buffer" : "";
}
// every operation that takes a handle of this kind refuses h
static std::string refused(W& w, Kind k, sa_handle h) {
    Api& a = w.a; Bytes z(16), out(600); size_t n = 600;
    if (k == K_KEY) {
        sa_header hd; if (!CALL(a, sa_key_header, &hd, h)) return "header"; if (!CALL(a, sa_key_digest, out.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256)) return "digest";
        n = 600; if (!CALL(a, sa_key_get_public, out.data(), &n, h)) return "get_public"; n = 600; if (!CALL(a, sa_key_export, out.data(), &n, nullptr, 0, h)) return "export";
        sa_handle c; if (!CALL(a, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, h, nullptr)) return "cipher_init";
        if (!CALL(a, sa_crypto_mac_init, &c, SA_MAC_ALGORITHM_CMAC, h, nullptr)) return "mac_init";
    } else if (k == K_CIPHER) {
        sa_buffer I = cbuf(z.data(), 16), O = cbuf(out.data(), 600); n = 16; if (!CALL(a, sa_crypto_cipher_process, &O, h, &I, &n)) return "process"; n = 16; if (!CALL(a, sa_crypto_cipher_process, nullptr, h, &I, &n)) return "process size query";
        if (!CALL(a, sa_crypto_cipher_process_last, &O, h, &I, &n, nullptr)) return "process_last"; if (!CALL(a, sa_crypto_cipher_update_iv, h, z.data(), 16)) return "update_iv";
    } else if (k == K_MAC) {
        if (!CALL(a, sa_crypto_mac_process, h, z.data(), 16)) return "process"; n = 600; if (!CALL(a, sa_crypto_mac_compute, out.data(), &n, h)) return "compute"; if (!CALL(a, sa_crypto_mac_compute, nullptr, &n, h)) return "compute size query";
    } else {
        Bytes d(32); if (CALL(a, sa_svp_buffer_check, h, 0, 0, SA_DIGEST_ALGORITHM_SHA256, ref_digest("SHA256", {}).data(), 32) == SA_STATUS_OK) return "check";
        sa_svp_offset of = {0, 0, 1}; if (!CALL(a, sa_svp_buffer_write, h, z.data(), 16, &of, 1)) return "write"; if (!CALL(a, sa_svp_buffer_copy, h, h, &of, 1)) return "copy";
    }
    return rel(a, k, h) == SA_STATUS_OK ? "release" : "";
}
static const sa_handle SPECIAL[] = {INVALID_HANDLE, INVALID_HANDLE - 1, 255, 256, 257, 0xFFFFFFFFu, 0x100000000ull, 0x8000000000000000ull, 0x7FFFFFFFFFFFFFFFull, 0x5555};
static bool probe(Run& r, W& w) {
    uint64_t st = 7;
    for (auto& o : w.v) { std::string e = works(w, o); r.transitions(); if (!r.check(e.empty(), "%s handle %llu (object %d): %s", KINDN[o.k], (unsigned long long) o.h, o.id, e.c_str())) return false; st = st * 31 + o.k * 5 + o.how; }
    std::vector<std::pair<Kind, sa_handle>> dead = w.gone;
    for (int k = 0; k < 4; k++) {
        std::vector<sa_handle> c(SPECIAL, SPECIAL + sizeof SPECIAL / sizeof *SPECIAL);
        sa_handle top = 0; for (auto& o : w.v) { c.push_back(o.h | 1ull << 32); c.push_back(o.h | 1ull << 63); c.push_back(o.h + 256); c.push_back(o.h + 65536); if (o.h < 250) top = std::max(top, o.h); }
        for (sa_handle h = 0; h <= top + 2; h++) c.push_back(h); // neighbours, and handles of objects of another kind
        for (auto& g : dead) if (g.first == k) c.push_back(g.second);
        for (auto h : c) {
            bool live = false; for (auto& o : w.v) live |= o.k == k && o.h == h;
            if (live) continue;
            std::string e = refused(w, (Kind) k, h); r.transitions(6);
            if (!r.check(e.empty(), "%s works on the %s handle %llx, which is not live", e.c_str(), KINDN[k], (unsigned long long) h)) return false;
        }
    }
    for (auto& o : w.v) { std::string e = works(w, o); if (!r.check(e.empty(), "%s handle %llu (object %d) after trying other handles: %s", KINDN[o.k], (unsigned long long) o.h, o.id, e.c_str())) return false; }
    r.state(st);
    return true;
}
// actions: 0..7 create kind*2+how (key has a third: 8); 9..12 failing creation per kind; 13..16 release the i-th of the live; 17 release the last; 18 release a dead handle again
static const int NACT = 19;
static bool can(int nlive, int ngone, int a) {
    if (a <= 8) return nlive < 5;
    if (a <= 12) return true;
    if (a <= 16) return a - 13 < nlive;
    if (a == 17) return nlive > 4;
    return ngone > 0;
}
static void runseq(Run& r, const std::vector<int>& seq) {
    env::reset(); env::caller = uuid_of(1); W w;
    w.a.ta = false;
    uint64_t f0 = r.failures();
    for (int a : seq) {
        if (a <= 8) {
            Kind k = a == 8 ? K_KEY : a < 2 ? K_KEY : a < 4 ? K_CIPHER : a < 6 ? K_MAC : K_SVP; int how = a == 8 ? 2 : a & 1;
            Live o; sa_status s = create(w, k, how, &o); r.transitions();
            if (!r.check(s == SA_STATUS_OK && o.h != INVALID_HANDLE, "creating a %s: %s", KINDN[k], sn(s))) break;
            for (auto& x : w.v) r.check(x.k != k || x.h != o.h, "two live %s objects share handle %llu", KINDN[k], (unsigned long long) o.h);
            w.gone.erase(std::remove_if(w.gone.begin(), w.gone.end(), [&](auto& g) { return g.first == k && g.second == o.h; }), w.gone.end());
            w.v.push_back(o);
        } else if (a <= 12) {
            for (int how = 0; how < (a == 9 ? 2 : 1); how++) { sa_handle h; sa_status s = bad_create(w, (Kind) (a - 9), how, &h); r.transitions(); r.check(s != SA_STATUS_OK, "an invalid creation succeeds");
            bool live = false; for (auto& x : w.v) live |= x.k == a - 9 && x.h == h;
            r.check(!live, "a failed creation returned a live handle");
            if (!live) { std::string e = refused(w, (Kind) (a - 9), h); r.check(e.empty(), "a failed creation returned a handle that works (%s)", e.c_str()); } }
        } else if (a <= 17) {
            size_t i = a == 17 ? w.v.size() - 1 : a - 13; Live o = w.v[i];
            if (o.k == K_MAC) { Bytes t(64); size_t n = 64; sa_status s = CALL(w.a, sa_crypto_mac_compute, t.data(), &n, o.h); t.resize(n); r.check(s == SA_STATUS_OK && t == (o.how ? ref_hmac("SHA256", mat(o.id), o.fed) : ref_cmac(mat(o.id), o.fed)), "MAC object %d gives a wrong result (%s)", o.id, sn(s)); }
            sa_status s; if (o.k == K_SVP) { void* m = nullptr; size_t n = 0; s = CALL(w.a, sa_svp_buffer_release, &m, &n, o.h); r.check(s != SA_STATUS_OK || (m == o.mem && n == 32), "another buffer's memory returned"); } else s = rel(w.a, o.k, o.h);
            r.transitions(); r.check(s == SA_STATUS_OK, "releasing %s object %d: %s", KINDN[o.k], o.id, sn(s));
            w.v.erase(w.v.begin() + i); w.gone.push_back({o.k, o.h});
        } else for (auto& g : w.gone) { r.transitions(); r.check(rel(w.a, g.first, g.second) != SA_STATUS_OK, "a released %s handle was released again", KINDN[g.first]); }
        if (r.failures() != f0) break;
    }
    if (r.failures() == f0) probe(r, w);
    for (auto& o : w.v) { sa_status s = rel(w.a, o.k, o.h); r.check(s == SA_STATUS_OK || r.failures() != f0, "releasing %s object %d at the end: %s", KINDN[o.k], o.id, sn(s)); }
    // everything is free again, whatever happened
    r.traces();
}
static void sequences(Run& r, std::vector<int>& seq, int live, int gone, int depth, int step) {
    if (r.stop()) return;
    if (!seq.empty() && (!step || (int) seq.size() > step)) { std::string d; for (int a : seq) d += " " + std::to_string(a); if (r.take("seq%s", d.c_str())) { r.nontrivial(hash(d)); runseq(r, seq); } }
    if ((int) seq.size() == depth) return;
    for (int a = 0; a < NACT; a++) {
        if (!can(live, gone, a)) continue;
        if (step && (a == 1 || a == 3 || a == 5 || a == 7 || a == 8 || a >= 9 && a <= 12 || a == 18)) continue;
        seq.push_back(a); sequences(r, seq, live + (a <= 8) - (a >= 13 && a <= 17), gone + (a >= 13 && a <= 17), depth, step); seq.pop_back();
    }
}
// all slots of a kind in use: every operation creating such an object reports it and works once one is released
static void fullslots(Run& r, Kind k, int pat) {
    env::reset(); env::caller = uuid_of(1); W w; std::vector<Live> v; sa_handle base = INVALID_HANDLE;
    if (k != K_KEY) mkkey(w.a, &base, Bytes(16, 1), rights_all());
    for (;;) {
        Live o; sa_status s = create(w, k, k == K_KEY ? 0 : (int) v.size() & 1, &o); r.transitions();
        if (s != SA_STATUS_OK) {
            r.check(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "no slot available reported as %s", sn(s));
            bool live = false; for (auto& x : v) live |= x.h == o.h;
            r.check(!live, "a failed creation returned a live handle");
            break;
        }
        for (auto& x : v) if (x.h == o.h) { r.fail("two live objects share a handle"); return; }
        v.push_back(o);
        if (v.size() > 400) break;
    }
    r.check(v.size() >= 250, "only %zu %s objects", v.size(), KINDN[k]);
    size_t cap = v.size();
    auto all = [&](const char* when) { for (auto& o : v) { std::string e = works(w, o); r.transitions(); if (!r.check(e.empty(), "%s object %d %s: %s", KINDN[k], o.id, when, e.c_str())) return; } };
    all("with all slots in use");
    std::vector<size_t> out; // release in a pattern
    if (pat == 0) out = {v.size() - 1}; else if (pat == 1) out = {0}; else if (pat == 2) for (size_t i = v.size(); i-- > 0;) { if (i % 2) out.push_back(i); } else if (pat == 3) for (size_t i = v.size(); i-- > 0;) out.push_back(i); else out = {200, 100, 3, 2, 1};
    for (size_t i : out) { r.check(rel(w.a, k, v[i].h) == SA_STATUS_OK, "release"); r.check(rel(w.a, k, v[i].h) != SA_STATUS_OK, "released twice"); v.erase(v.begin() + i); }
    all("after releasing others");
    size_t n = 0;
    for (;; n++) { Live o; if (create(w, k, 0, &o) != SA_STATUS_OK) break; r.transitions(); for (auto& x : v) if (x.h == o.h) { r.fail("two live objects share a handle"); return; } v.push_back(o); if (v.size() > 400) break; }
    r.check(n == out.size(), "%zu objects released and %zu created", out.size(), n);
    r.check(v.size() == cap, "capacity changed");
    all("after refilling");
    for (auto& o : v) r.check(rel(w.a, k, o.h) == SA_STATUS_OK, "release at the end");
    if (base != INVALID_HANDLE) rel(w.a, K_KEY, base);
    r.traces();
}
// an operation of the catalogue while `room` slots of the kind it creates are left
static void crowded(Run& r, const Op& op, Kind k, int room) {
    env::reset(); env::caller = uuid_of(1); Api A; Fix f(A);
    f.key("aes"); f.key("hm"); f.cipher("cbc-enc"); f.mac("hmac"); f.svp("svpB");
    for (auto& n : op.uses) { if (n.compare(0, 3, "svp") == 0) f.svp(n); else if (n == "hmac" || n == "cmac") f.mac(n); else if (n.find('-') != std::string::npos) f.cipher(n); else f.key(n); }
    if (!f.err.empty()) { r.fail("%s", f.err.c_str()); return; }
    std::vector<sa_handle> v; static uint8_t mem[16]; Bytes kb(16, 1);
    for (;;) { sa_handle h; sa_status s = k == K_KEY ? mkkey(A, &h, kb, rights_all()) : k == K_CIPHER ? CALL(A, sa_crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, f.key("aes"), nullptr) :
            k == K_MAC ? CALL(A, sa_crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, f.key("aes"), nullptr) : CALL(A, sa_svp_buffer_create, &h, mem, 16); if (s) break; v.push_back(h); if (v.size() > 400) break; }
    for (int i = 0; i < room; i++) { rel(A, k, v.back()); v.pop_back(); }
    for (int rep = 0; rep < 2; rep++) {
        Args g; g.sites.reserve(64); Res res = op.run(f, g); r.transitions();
        if (res.s != SA_STATUS_OK) {
            r.check(res.s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "with %d free slots: %s", room, sn(res.s));
            for (auto h : {res.created, res.created2, res.created3}) if (h != INVALID_HANDLE) { bool live = res.ck == k && std::find(v.begin(), v.end(), h) != v.end(); for (auto& o : f.o) live |= o.second.kind == res.ck && o.second.h == h; r.check(!live, "a failed creation returned a live handle"); if (!live) r.check(rel(A, res.ck, h) != SA_STATUS_OK, "a failed creation returned a working handle"); }
            r.count("no_slot"); r.nontrivial(hash(op.name) * 8 + room);
            if (rep == 0) { int n = 0; std::vector<sa_handle> t; for (;;) { sa_handle h; sa_status s = k == K_KEY ? mkkey(A, &h, kb, rights_all()) : SA_STATUS_INTERNAL_ERROR; if (s) break; t.push_back(h); n++; } for (auto h : t) rel(A, k, h); if (k == K_KEY) r.check(n == room, "after a refused creation %d slots are free, %d expected", n, room); }
        } else { r.check(room > 0 || res.ck != k || res.created == INVALID_HANDLE, "created although no slot was free"); for (auto h : {res.created, res.created2, res.created3}) if (h != INVALID_HANDLE) for (auto& x : v) r.check(res.ck != k || x != h, "two live objects share a handle"); drop_created(f, res); if (op.obj.size()) break; }
    }
    std::string e = f.intact(op.uses); r.check(e.empty(), "%s", e.c_str());
    for (auto h : v) r.check(rel(A, k, h) == SA_STATUS_OK, "an unrelated object was lost");
    e = f.release_all(); r.check(e.empty(), "%s", e.c_str());
    r.traces();
}
static void explore(Run& r) {
    static std::vector<Op> ops = build_ops();
    for (int k = 0; k < 4; k++) for (int p = 0; p < 5; p++) if (r.take("full %s %d", KINDN[k], p)) fullslots(r, (Kind) k, p);
    for (auto& op : ops) for (int k = 0; k < 4; k++) for (int room = 0; room < 4; room++) {
        if (op.random && op.name == "random") continue;
        if (room && k) continue;
        if (r.take("crowded %s %s %d", op.name.c_str(), KINDN[k], room)) crowded(r, op, (Kind) k, room);
    }
    std::vector<int> seq;
    sequences(r, seq, 0, 0, r.thorough ? 5 : 4, 0);
    sequences(r, seq, 0, 0, r.thorough ? 8 : 5, r.thorough ? 5 : 4);
}
int main(int argc, char** argv) {
    Spec s; s.property = "C01";
    s.rule = "All sequences (quick: 4 steps with every creation variant, 5 with one per kind and no failing creation; thorough 5 and 8) of creating, failing to create, releasing the i-th live object and releasing dead handles, at most 5 live objects, checked in the state reached by using every live object and trying every other handle value near the live ones, of other kinds, and special values with every function; all slots of each kind filled with five release patterns; every operation of the catalogue with 0 to 3 slots left. Non-trivial: distinct sequences and refused creations.";
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
