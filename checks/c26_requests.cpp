// C26: whatever request a hostile client forms, the trusted side answers it without touching memory the request does not describe.
#include "requests.hpp"
static const char* KINDS[] = {"none", "value in", "value out", "value inout", "4", "in", "out", "inout", "whole", "partial in", "partial out", "partial inout", "huge"};
static const uint32_t KINDV[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15, 0xffffffff};
// ---- what is done to a request
struct Mut { std::string name; std::function<void(Req&)> f; };
static void run(mc::Run& r, const Req& q, const std::string& what, bool& changed) {
    uint32_t* types = (uint32_t*) malloc(16); ta_param* ps = (ta_param*) malloc(sizeof(ta_param) * 4); std::unique_ptr<Blk> b[4]; (void) what;
    for (int i = 0; i < 4; i++) {
        const Par& x = q.p[i]; types[i] = x.type; ps[i].mem_ref = nullptr; ps[i].mem_ref_size = x.size;
        if (x.null) continue;
        if (!k_mem(x.type)) { ps[i].mem_ref = wild; continue; } // not a reference to memory
        b[i].reset(new Blk(x.size)); size_t n = x.data.size() < x.size ? x.data.size() : (size_t) x.size; for (size_t j = 0; j < x.size; j++) b[i]->p[j] = j < n ? x.data[j] : (uint8_t) (j * 7 + 1); ps[i].mem_ref = b[i]->p;
    }
    Bytes in[4]; for (int i = 0; i < 4; i++) if (b[i] && k_in(q.p[i].type)) in[i] = b[i]->bytes();
    sa_status s = env::real_command(q.session, q.cmd, types, ps); r.transitions();
    for (int i = 0; i < 4; i++) if (b[i] && k_in(q.p[i].type)) r.check(in[i] == b[i]->bytes(), "%s: wrote parameter %d, which is input only", sn(s), i);
    for (int i = 0; i < 4; i++) r.check(types[i] == q.p[i].type && ps[i].mem_ref_size == q.p[i].size && ps[i].mem_ref == (b[i] ? b[i]->p : q.p[i].null ? nullptr : wild), "%s: changed the description of parameter %d", sn(s), i);
    r.check((int) s >= 0 && s <= 255 && strcmp(sn(s), "?"), "returned %d, which is no status", (int) s);
    changed = s == SA_STATUS_OK || s == SA_STATUS_VERIFICATION_FAILED || s == SA_STATUS_INTERNAL_ERROR; r.count(s ? "refused" : "accepted"); r.state(mc::hash(std::string(sn(s)) + strf("%u", q.cmd) + (b[0] ? mc::hex(b[0]->p, b[0]->n < 64 ? b[0]->n : 64) : "")));
    free(types); free(ps);
}
static void usable(mc::Run& r) {
    sa_version v; memset(&v, 0, sizeof v); sa_status s = CALL(ST.A, sa_get_version, &v); r.check(s == SA_STATUS_OK && v.specification_major, "afterwards the session does not answer: %s", sn(s));
    sa_handle k; s = mkkey(ST.A, &k, Bytes(16, 9), rights_all()); if (!r.check(s == SA_STATUS_OK, "afterwards no key can be created: %s", sn(s))) return; s = rel(ST.A, K_KEY, k); r.check(s == SA_STATUS_OK, "afterwards a new key cannot be released: %s", sn(s));
}
static void one(mc::Run& r, const Base& b, const Mut& m) {
    if (ST.op != b.op || ST.k != b.k) { if (!prepare(b.op, b.k)) { r.fail("the operation does not make its request %d", b.k); return; } }
    Req q = b.q; q.session = cap.session; for (int i = 0; i < 4; i++) if (q.p[i].data.size() == cap.p[i].data.size()) q.p[i].data = cap.p[i].data; // contents that differ from run to run
    m.f(q); bool changed = true; run(r, q, m.name, changed); usable(r); r.traces(); if (changed) clean();
}
// ---- the mutations
static void put(Bytes& d, size_t at, size_t w, uint64_t v) { if (at + w <= d.size()) memcpy(&d[at], &v, w); }
static uint64_t get(const Bytes& d, size_t at, size_t w) { uint64_t v = 0; memcpy(&v, &d[at], w); return v; }
static std::vector<uint64_t> sizes(uint64_t n, bool th) { std::vector<uint64_t> v = {0, 1, 2, 7, 8, 15, 16, 17, 24, 32}; for (uint64_t x : std::initializer_list<uint64_t>{n - 1, n + 1, n - 8, n + 8, n / 2, n * 2, n + 64, (uint64_t) 256, (uint64_t) 4096}) v.push_back(x); if (th) for (uint64_t x : std::initializer_list<uint64_t>{3, 4, 5, 9, 12, 31, 33, 48, 63, 64, 65, 127, 128, 129, 255, 257, 511, 512, 513, 1024, 2048, 65536}) v.push_back(x); std::vector<uint64_t> o; for (auto x : v) if (x != n && x < (1 << 20) && std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); return o; }
static const uint64_t NN[] = {0, 1, 63, 64, UINT64_MAX, UINT64_MAX - 15, (uint64_t) 1 << 63};
static const uint64_t V8[] = {0, 1, 2, 7, 15, 16, 17, 31, 32, 255, 256, 512, 4096, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 0x1000000000000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, UINT64_MAX - 16, UINT64_MAX - 15, UINT64_MAX - 1, UINT64_MAX};
static const uint64_t V4[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 64, 127, 128, 255, 256, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
static void each(mc::Run& r, const std::vector<Base>& bs, const Base& b, bool first, bool th, const std::function<void(const Mut&)>& go) {
    const Req& q = b.q; (void) r;
    go({"as it is", [](Req&) {}});
    if (first) { // every vector of kinds
        int n = (int) (sizeof KINDV / 4); std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(i); if (!th) ks = {0, 1, 5, 6, 7};
        for (int a : ks) for (int c : ks) for (int d : ks) for (int e : ks) for (int nul = 0; nul < (th ? 3 : 2); nul++) {
            if (!th && a != 5 && a != 7 && (c || d || e)) continue; // what comes first must be readable // nul: 1 parameters not needed are references to nowhere, 2 all are null
            go({strf("kinds %s, %s, %s, %s%s", KINDS[a], KINDS[c], KINDS[d], KINDS[e], nul == 1 ? ", all referring to something" : nul ? ", all null" : ""), [=](Req& x) { int k[4] = {a, c, d, e}; for (int i = 0; i < 4; i++) { x.p[i].type = KINDV[k[i]]; if (nul == 1 && x.p[i].null) { x.p[i].null = false; x.p[i].size = 16; x.p[i].data = Bytes(16, 3); } if (nul == 2 && i) { x.p[i].null = true; x.p[i].data.clear(); } } }});
        }
        for (int i = 0; i < 4; i++) for (int k = 0; k < n; k++) for (int v = 0; v < 4; v++) go({strf("parameter %d is %s, %s", i, KINDS[k], v == 0 ? "null" : v == 1 ? "null of 16 bytes" : v == 2 ? "of no bytes" : "huge and null"), [=](Req& x) { Par& p = x.p[i]; p.type = KINDV[k]; p.data.clear(); p.null = v != 2; p.size = v == 1 ? 16 : v == 3 ? UINT64_MAX : 0; }});
    }
    for (int i = 0; i < 4; i++) { // null references, sizes
        if (!q.p[i].null) go({strf("parameter %d null", i), [=](Req& x) { x.p[i].null = true; }});
        for (uint64_t n : sizes(q.p[i].null ? 0 : q.p[i].size, th)) { if (q.p[i].null) continue; go({strf("parameter %d of %llu bytes", i, (unsigned long long) n), [=](Req& x) { x.p[i].size = n; }}); }
        if (!q.p[i].null) for (int j = i + 1; j < 4; j++) if (!q.p[j].null) for (uint64_t n : sizes(q.p[i].size, false)) for (uint64_t m : sizes(q.p[j].size, false)) if (th || ((n < 9 || n > 4000) && (m < 9 || m > 4000))) go({strf("parameters %d and %d of %llu and %llu bytes", i, j, (unsigned long long) n, (unsigned long long) m), [=](Req& x) { x.p[i].size = n; x.p[j].size = m; }});
        if (!q.p[i].null) for (int j = 0; j < 4; j++) if (j != i && !q.p[j].null) go({strf("parameter %d null, %d of no bytes", i, j), [=](Req& x) { x.p[i].null = true; x.p[j].size = 0; }});
        if (!q.p[i].null) for (int j = i + 1; j < 4; j++) if (!q.p[j].null) go({strf("parameters %d and %d null", i, j), [=](Req& x) { x.p[i].null = x.p[j].null = true; }});
    }
    for (int i = 0; i < 4; i++) { // every word of every structure
        if (!structured(q, i)) continue; size_t n = q.p[i].data.size(), lim = th ? n : n < 160 ? n : first || i ? 160 : 48;
        auto word = [&](size_t at, size_t w, uint64_t v) { if (!th && n > 200 && at > 24 && at < 80 && at % 16) return; /* the name in the rights */ if (get(q.p[i].data, at, w) == v) return; go({strf("parameter %d: %zu-byte word at %zu is %llx", i, w, at, (unsigned long long) v), [=](Req& x) { put(x.p[i].data, at, w, v); }}); };
        for (size_t at = 0; at + 4 <= lim; at += 4) for (auto v : V4) word(at, 4, v);
        for (size_t at = 0; at + 8 <= lim; at += 8) for (auto v : V8) word(at, 8, v);
        for (size_t at = 0; at < lim; at++) if (at < 24 || th) for (uint64_t v : {0, 1, 2, 127, 128, 255}) word(at, 1, v);
        if (!th && n > lim) for (size_t at = n & 7; at + 8 <= n; at += 8) if (at >= lim && at % 64 < 8) for (uint64_t v : {(uint64_t) 0, UINT64_MAX}) word(at, 8, v);
        if (!th && n > 64) for (size_t at = n - 32 & ~7ull; at + 8 <= n; at += 8) for (auto v : V8) word(at, 8, v);
    }
    for (int i = 1; i < 4; i++) if (!q.p[i].null) { // a size together with a number that states or scales it, or a position in it
        size_t n0 = q.p[0].data.size(); for (uint64_t n : sizes(q.p[i].size, th)) for (size_t at = 8; at + 8 <= n0 && at < 88; at += 8) {
            uint64_t now = get(q.p[0].data, at, 8); bool states = now == q.p[i].size || (now && now <= q.p[i].size && q.p[i].size % now == 0); if (!th && !states && !first) continue; if (th || states || n == 0 || n == q.p[i].size * 2) for (uint64_t v : std::initializer_list<uint64_t>{n, n / 8, n / 16, n / 24, n + 1, n - 1, (1ULL << 60) + n / 16, (1ULL << 61) + n / 8, (1ULL << 32) + n, (uint64_t) 0, UINT64_MAX}) { if (!th && n > 40 && n != q.p[i].size * 2) continue; go({strf("parameter %d of %llu bytes and the number at %zu is %llx", i, (unsigned long long) n, at, (unsigned long long) v), [=](Req& x) { x.p[i].size = n; put(x.p[0].data, at, 8, v); }}); } }
    }
    if (first) { // two numbers of the structure
        size_t n0 = q.p[0].data.size(); std::vector<size_t> ws; for (size_t at = 8; at + 8 <= n0 && at < 96; at += 8) ws.push_back(at);
        for (size_t a = 0; a < ws.size(); a++) for (size_t c = a + 1; c < ws.size(); c++) for (uint64_t v : NN) for (uint64_t u : NN) go({strf("the numbers at %zu and %zu are %llx and %llx", ws[a], ws[c], (unsigned long long) v, (unsigned long long) u), [=](Req& x) { put(x.p[0].data, ws[a], 8, v); put(x.p[0].data, ws[c], 8, u); }});
        for (size_t at = 8; at + 4 <= n0 && at < 96; at += 4) for (size_t a2 : ws) for (uint64_t v : {0, 1, 2, 255}) for (uint64_t u : {(uint64_t) 0, (uint64_t) 64, UINT64_MAX, UINT64_MAX - 15}) if (a2 / 8 != at / 8) go({strf("the numbers at %zu and %zu are %llx and %llx (4)", at, a2, (unsigned long long) v, (unsigned long long) u), [=](Req& x) { put(x.p[0].data, at, 4, v); put(x.p[0].data, a2, 8, u); }});
    }
    // another command
    if (first) for (uint32_t c = 0; c <= 40; c++) if (c != q.cmd) for (int fit = 0; fit < 2; fit++) go({strf("as command %u%s", c, fit ? " with its kinds" : ""), [=, &bs](Req& x) { x.cmd = c; if (fit) for (auto& o : bs) if (o.q.cmd == c) { for (int i = 0; i < 4; i++) { x.p[i].type = o.q.p[i].type; } break; } }});
    if (first) for (uint32_t c : {100u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) go({strf("as command %u", c), [=](Req& x) { x.cmd = c; }});
    // parameters of other commands
    if (first) for (auto& o : bs) if (&o != &b && !(q.cmd == SA_KEY_PROVISION_TA && o.name != b.name)) { go({"with the parameters of " + o.name, [&o](Req& x) { uint32_t c = x.cmd; void* s = x.session; x = o.q; x.cmd = c; x.session = s; }}); for (int i = 1; i < 4; i++) if (!o.q.p[i].null) go({strf("with parameter %d of ", i) + o.name, [&o, i](Req& x) { x.p[i] = o.q.p[i]; }}); }
}
static void setup(mc::Run&) { requests_setup(); }
static void explore(mc::Run& r) {
    std::vector<std::pair<uint32_t, std::string>> seen; std::unordered_set<uint64_t> all;
    for (auto& b : BASES) {
        std::string sig; for (int i = 0; i < 4; i++) sig += strf("%u/%d/%zu ", b.q.p[i].type, b.q.p[i].null, structured(b.q, i) ? b.q.p[i].data.size() : (size_t) 0); bool first = true; for (auto& x : seen) first &= !(x.first == b.q.cmd && (x.second == sig || !r.thorough)); seen.push_back({b.q.cmd, sig});
        each(r, BASES, b, first, r.thorough, [&](const Mut& m) {
            if (r.stop()) return;
            if (r.take("%s: %s", b.name.c_str(), m.name.c_str())) { r.nontrivial(mc::hash(r.current())); one(r, b, m); }
        });
    }
    for (int v = 0; v < 3; v++) if (r.take("null %s", v == 0 ? "session" : v == 1 ? "parameters" : "kinds")) {
        prepare(BASES[0].op, BASES[0].k); uint32_t t[4] = {7, 0, 0, 0}; sa_get_version_s g; memset(&g, 0, sizeof g); g.api_version = 1; ta_param p[4] = {{&g, sizeof g}, {}, {}, {}}; sa_status s = env::real_command(v == 0 ? nullptr : cap.session, SA_GET_VERSION, v == 2 ? nullptr : t, v == 1 ? nullptr : p); r.check(s != SA_STATUS_OK, "accepted"); usable(r); clean();
    }
    if (r.take("opening and closing without a place")) { sa_status s = ta_open_session_handler(nullptr); r.check(s != SA_STATUS_OK, "opened"); usable(r); ta_close_session_handler(nullptr); usable(r); }
}
int main(int argc, char** argv) {
    mc::Spec s; s.property = "C26";
    s.rule = "every request the client library makes over the operation catalogue, changed in its kinds (all vectors), references, sizes, every word of its structures, pairs of those, its command number, or given the parameters of another request; each is sent to the command entry point with every parameter in a block of exactly its size under a memory sanitizer; a case is one request";
    s.assumptions = {"pointers inside provisioning structures are the client's promise and are not changed", "the platform's check of protected memory admits only the protected region", "the client does not change the request while it is served (C27 covers that)"};
    s.setup = setup; s.explore = explore; s.hang_s = 30;
    return mc::main(argc, argv, s);
}
