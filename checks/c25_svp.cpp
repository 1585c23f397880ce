// C25: protected buffers against a byte-exact model: ranges, overflow, unusable memory, stale handles, histories.
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); Session S(ta, uuid_of(1)); Api& A = S.A
static const size_t GUARD = 32;
// secure memory with guards on both sides; the model is a plain copy
struct Reg {
    uint8_t* base; size_t n; Bytes model; sa_handle h = INVALID_HANDLE; Api& A; bool live = false;
    Reg(Api& a, size_t n_, unsigned salt) : base((uint8_t*) malloc(n_ + 2 * GUARD)), n(n_), model(pattern(n_ + 2 * GUARD, 500 + salt)), A(a) { memcpy(base, model.data(), model.size()); }
    ~Reg() { if (live) drop(); free(base); }
    uint8_t* p() { return base + GUARD; }
    sa_status make() { h = INVALID_HANDLE; sa_status s = CALL(A, sa_svp_buffer_create, &h, p(), n); live = s == SA_STATUS_OK; return s; }
    sa_status drop(void** m = nullptr, size_t* sz = nullptr) { void* m2; size_t s2; live = false; return CALL(A, sa_svp_buffer_release, m ? m : &m2, sz ? sz : &s2, h); }
    bool same() const { return !memcmp(base, model.data(), model.size()); }
    void resync() { memcpy(base, model.data(), model.size()); }
};
typedef std::vector<sa_svp_offset> Offs;
static std::string os(const Offs& o) { std::string s; for (auto& x : o) s += strf(" [out %zx in %zx len %zx]", x.out_offset, x.in_offset, x.length); return s; }
static bool inside(size_t off, size_t len, size_t n) { return off <= n && len <= n - off; }
static bool fits(const Offs& o, size_t out_n, size_t in_n) { for (auto& x : o) if (!inside(x.out_offset, x.length, out_n) || !inside(x.in_offset, x.length, in_n)) return false; return true; }
static bool do_write(Run& r, Api& A, Reg& d, const Bytes& in, Offs o) {
    Blk b(in); Offs keep = o; Blk ob(Bytes((uint8_t*) o.data(), (uint8_t*) (o.data() + o.size())));
    sa_status s = CALL(A, sa_svp_buffer_write, d.h, b.p, b.n, (sa_svp_offset*) ob.p, o.size()); r.transitions();
    bool ok = fits(o, d.n, in.size());
    if (ok) for (auto& x : o) if (x.length) memcpy(d.model.data() + GUARD + x.out_offset, in.data() + x.in_offset, x.length);
    r.state(hash(d.model.data(), d.model.size()));
    if (!r.check((s == SA_STATUS_OK) == ok, "write of %zu bytes into a buffer of %zu,%s: %s", in.size(), d.n, os(o).c_str(), sn(s))) { d.resync(); return false; }
    if (!r.check(d.same(), "write of %zu bytes into a buffer of %zu,%s: %s, but other contents than requested", in.size(), d.n, os(o).c_str(), sn(s))) { d.resync(); return false; }
    return r.check(b.bytes() == in && !memcmp(ob.p, keep.data(), ob.n), "write changed its input");
}
static bool do_copy(Run& r, Api& A, Reg& d, Reg& s0, Offs o) {
    Blk ob(Bytes((uint8_t*) o.data(), (uint8_t*) (o.data() + o.size())));
    sa_status s = CALL(A, sa_svp_buffer_copy, d.h, s0.h, (sa_svp_offset*) ob.p, o.size()); r.transitions();
    bool ok = fits(o, d.n, s0.n);
    if (ok) for (auto& x : o) if (x.length) memmove(d.model.data() + GUARD + x.out_offset, s0.model.data() + GUARD + x.in_offset, x.length);
    r.state(hash(d.model.data(), d.model.size()));
    const char* w = &d == &s0 ? "within one buffer" : "between buffers";
    if (!r.check((s == SA_STATUS_OK) == ok, "copy %s of %zu and %zu,%s: %s", w, s0.n, d.n, os(o).c_str(), sn(s))) { d.resync(); return false; }
    if (!r.check(d.same() && s0.same(), "copy %s of %zu and %zu,%s: %s, but other contents than requested", w, s0.n, d.n, os(o).c_str(), sn(s))) { d.resync(); s0.resync(); return false; }
    return true;
}
static bool do_check(Run& r, Api& A, Reg& d, size_t off, size_t len, int alg, int alter) { // alter: -1 right hash, else the byte of the hash that is wrong
    bool ok = inside(off, len, d.n); Bytes h = ref_digest(dname(alg), ok ? sub(d.model, GUARD + off, len) : Bytes());
    if (alter >= 0) h[(size_t) alter] ^= alter & 1 ? 0x80 : 1;
    Blk hb(h); sa_status s = CALL(A, sa_svp_buffer_check, d.h, off, len, (sa_digest_algorithm) alg, hb.p, hb.n); r.transitions();
    bool want = ok && alter < 0;
    return r.check((s == SA_STATUS_OK) == want && (!ok || alter < 0 || s == SA_STATUS_VERIFICATION_FAILED), "check of %zx bytes at %zx of %zu, digest %d, %s hash: %s", len, off, d.n, alg, alter < 0 ? "right" : "wrong", sn(s)) && r.check(d.same(), "check changed the buffer");
}
// every boundary value of a coordinate
static std::vector<size_t> coords(size_t n, const void* base, bool small) {
    std::vector<size_t> v{0, 1, n / 2, n ? n - 1 : 0, n, n + 1};
    if (!small) for (size_t x : {(size_t) 2, n + 15, (size_t) 0x7fffffff, (size_t) 0x80000000, (size_t) 0xffffffff, (size_t) 1 << 32, ((size_t) 1 << 32) + 1, ((size_t) 1 << 32) + n, (size_t) 1 << 62, (size_t) 1 << 63, ((size_t) 1 << 63) + n, SIZE_MAX / 2, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - n, SIZE_MAX - n + 1, SIZE_MAX - n / 2, SIZE_MAX - n - 1, (size_t) 0 - (size_t) base, (size_t) 0 - (size_t) base + 1, (size_t) 0 - (size_t) base - 1}) v.push_back(x);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static void ranges(Run& r, bool ta, size_t n, size_t m, int op) { // op 0 write, 1 copy, 2 copy within
    SETUP(ta); Reg a(A, n, 1), b(A, m, 2); Bytes in = pattern(m, 77); if (a.make() != SA_STATUS_OK || b.make() != SA_STATUS_OK) { r.fail("buffers of %zu and %zu cannot be created", n, m); return; }
    auto vo = coords(n, a.p(), false), vi = coords(op == 2 ? n : m, op == 2 ? a.p() : b.p(), false), vl = coords(std::min(n, m), a.p(), false);
    for (size_t o : vo) for (size_t i : vi) for (size_t l : vl) { Offs f{{o, i, l}}; if (op == 0 ? !do_write(r, A, a, in, f) : op == 1 ? !do_copy(r, A, a, b, f) : !do_copy(r, A, a, a, f)) return; }
    r.beat();
    // a wrong range after (and before) right ones: nothing at all may change
    for (size_t o : vo) for (size_t i : vi) { if (inside(o, 1, n) && inside(i, 1, op == 2 ? n : m)) continue; size_t g = std::min<size_t>(1, std::min(n, m));
        for (int pos = 0; pos < 3; pos++) { Offs f; for (int k = 0; k < 3; k++) f.push_back(k == pos ? sa_svp_offset{o, i, 1} : sa_svp_offset{0, 0, g}); if (op == 0 ? !do_write(r, A, a, in, f) : op == 1 ? !do_copy(r, A, a, b, f) : !do_copy(r, A, a, a, f)) return; } }
    r.traces();
}
// all lists of `k` ranges over tiny buffers
static void lists(Run& r, bool ta, size_t n, size_t m, int k, int op) {
    SETUP(ta); Reg a(A, n, 3), b(A, m, 4); Bytes in = pattern(m, 78); a.make(); b.make();
    std::vector<sa_svp_offset> one; size_t src = op == 2 ? n : m;
    for (size_t o = 0; o <= n; o++) for (size_t i = 0; i <= src; i++) for (size_t l = 0; l <= std::min(n - o, src - i) + (o == n || i == 0 ? 1 : 0); l++) one.push_back({o, i, l});
    size_t tot = 1; for (int i = 0; i < k; i++) tot *= one.size();
    for (size_t c = 0; c < tot; c++) { Offs f; for (size_t i = 0, q = c; (int) i < k; i++, q /= one.size()) f.push_back(one[q % one.size()]); if (op == 0 ? !do_write(r, A, a, in, f) : op == 1 ? !do_copy(r, A, a, b, f) : !do_copy(r, A, a, a, f)) return; if (c % 4096 == 0) { r.beat(); a.model = pattern(a.model.size(), (unsigned) c); a.resync(); } }
    r.traces();
}
static void many(Run& r, bool ta, int count) { // long lists, every range its own
    SETUP(ta); Reg a(A, 300, 5), b(A, 300, 6); Bytes in = pattern(300, 79); a.make(); b.make();
    for (int op = 0; op < 3; op++) for (int bad = -1; bad < count; bad += std::max(1, count / 9)) { Offs f; for (int i = 0; i < count; i++) f.push_back({(size_t) (i * 7) % 290, (size_t) (i * 11 + 3) % 290, (size_t) i % 11}); if (bad >= 0) f[(size_t) bad] = {295, 0, 6}; if (op == 0 ? !do_write(r, A, a, in, f) : op == 1 ? !do_copy(r, A, a, b, f) : !do_copy(r, A, a, a, f)) return; }
    r.traces();
}
static void checks(Run& r, bool ta, size_t n, int alg) {
    SETUP(ta); Reg a(A, n, 7); a.make(); auto v = coords(n, a.p(), false); size_t dl = dlen(alg);
    for (size_t o : v) for (size_t l : v) { if (!do_check(r, A, a, o, l, alg, -1)) return; if (inside(o, l, n)) for (size_t w = 0; w < dl; w++) if (!do_check(r, A, a, o, l, alg, (int) w)) return; }
    if (n <= 24) for (size_t o = 0; o <= n + 1; o++) for (size_t l = 0; l <= n + 1; l++) { // each byte of the range matters, no other does
        if (!do_check(r, A, a, o, l, alg, -1)) return; if (!inside(o, l, n)) continue;
        Bytes h = ref_digest(dname(alg), sub(a.model, GUARD + o, l));
        for (size_t w = 0; w < n; w++) { a.p()[w] ^= 4; sa_status s = CALL(A, sa_svp_buffer_check, a.h, o, l, (sa_digest_algorithm) alg, h.data(), h.size()); a.p()[w] ^= 4; r.transitions();
            bool in = w >= o && w < o + l; if (!r.check(s == (in ? SA_STATUS_VERIFICATION_FAILED : SA_STATUS_OK), "check of %zu at %zu of %zu with byte %zu changed: %s", l, o, n, w, sn(s))) return; } }
    // the length of the hash has to be that of the digest
    Bytes h = ref_digest(dname(alg), sub(a.model, GUARD, n));
    for (size_t hl : {(size_t) 0, (size_t) 1, dl - 1, dl + 1, (size_t) 20, (size_t) 32, (size_t) 48, (size_t) 64, (size_t) 128}) { if (hl == dl) continue; Bytes x = h; x.resize(hl, 0); Blk b(x); sa_status s = CALL(A, sa_svp_buffer_check, a.h, 0, n, (sa_digest_algorithm) alg, b.p, b.n); r.transitions(); if (!r.check(s != SA_STATUS_OK, "check with digest %d accepts a hash of %zu bytes", alg, hl)) return; }
    Blk b(Bytes(64, 0)); for (unsigned al : {4u, 5u, 255u, 256u, 0x7fffffffu, 0xffffffffu}) for (size_t hl : {(size_t) 0, (size_t) 1, (size_t) 20, (size_t) 32, (size_t) 64, SIZE_MAX}) { if (hl == SIZE_MAX && !ta) continue; sa_status s = CALL(A, sa_svp_buffer_check, a.h, 0, n, (sa_digest_algorithm) al, b.p, hl); r.transitions(); if (!r.check(s != SA_STATUS_OK, "check with the unknown digest %u and a hash of %zx bytes is accepted", al, hl)) return; }
    // only trusted applications may ask
    sa_uuid ree; memset(&ree, 0, sizeof ree); ree.id[15] = 1; { Session R(ta, ree); sa_handle x = INVALID_HANDLE; env::caller = ta ? env::caller : ree; CALL(R.A, sa_svp_buffer_create, &x, a.p(), n); sa_status s = CALL(R.A, sa_svp_buffer_check, x, 0, n, (sa_digest_algorithm) alg, h.data(), h.size()); if (ta) r.check(s == SA_STATUS_OPERATION_NOT_ALLOWED || s == SA_STATUS_OPERATION_NOT_SUPPORTED, "a check by the rich side is answered: %s", sn(s)); env::caller = uuid_of(1); rel(R.A, K_SVP, x); }
    r.traces();
}
// secure memory is only part of the address space: creation and use inside, across and outside it
static void regions(Run& r, bool ta, size_t lo, size_t hi) {
    SETUP(ta); const size_t N = 12; Bytes m0 = pattern(N + 2, 90); Blk mem(m0); uint8_t* q = mem.p + 1; Bytes in = pattern(N, 91);
    for (int when = 0; when < 2; when++) // 0: at creation; 1: the region shrinks after creation
        for (size_t a = 0; a <= N; a++) for (size_t e = a; e <= N; e++) {
            env::restrict_svp = true; env::svp_lo = (uintptr_t) q + (when ? 0 : lo); env::svp_hi = (uintptr_t) q + (when ? N : hi);
            if (!when && e == a && !(a >= lo && a <= hi)) { }
            sa_handle h = INVALID_HANDLE; sa_status s = CALL(A, sa_svp_buffer_create, &h, q + a, e - a); r.transitions(); bool in1 = a >= (when ? 0 : lo) && e <= (when ? N : hi);
            if (e > a && !r.check((s == SA_STATUS_OK) == in1, "buffer over [%zu,%zu) with secure memory [%zu,%zu): %s", a, e, when ? 0 : lo, when ? N : hi, sn(s))) return;
            if (s != SA_STATUS_OK) { if (!r.check(h == INVALID_HANDLE, "a refused buffer has a handle")) return; continue; }
            env::svp_lo = (uintptr_t) q + lo; env::svp_hi = (uintptr_t) q + hi; bool ok = a >= lo && e <= hi;
            if (e > a) for (int op = 0; op < 4; op++) {
                Bytes before = mem.bytes(), want = before; Offs f{{0, 0, e - a}}; sa_handle o = INVALID_HANDLE; uint8_t* om = nullptr; bool good = ok;
                if (op == 0) { s = CALL(A, sa_svp_buffer_write, h, in.data(), in.size(), f.data(), 1); if (ok) memcpy(want.data() + 1 + a, in.data(), e - a); }
                else if (op == 3) { Bytes hs = ref_digest("SHA256", sub(before, 1 + a, e - a)); s = CALL(A, sa_svp_buffer_check, h, 0, e - a, SA_DIGEST_ALGORITHM_SHA256, hs.data(), hs.size()); }
                else { // copies from and to another, usable, buffer (when there is any secure byte)
                    if (hi == lo) continue; om = q + lo; if (CALL(A, sa_svp_buffer_create, &o, om, hi - lo) != SA_STATUS_OK) { r.fail("buffer over all secure memory refused"); return; }
                    f[0].length = std::min(e - a, hi - lo); if (op == 1) { s = CALL(A, sa_svp_buffer_copy, o, h, f.data(), 1); if (ok) memmove(want.data() + 1 + lo, before.data() + 1 + a, f[0].length); } else { s = CALL(A, sa_svp_buffer_copy, h, o, f.data(), 1); if (ok) memmove(want.data() + 1 + a, before.data() + 1 + lo, f[0].length); }
                    rel(A, K_SVP, o);
                }
                r.transitions(); static const char* on[] = {"write", "copy out", "copy in", "check"};
                if (!r.check((s == SA_STATUS_OK) == good, "%s over [%zu,%zu) with secure memory [%zu,%zu): %s", on[op], a, e, lo, hi, sn(s))) return;
                if (!r.check(mem.bytes() == want, "%s over [%zu,%zu) with secure memory [%zu,%zu): %s and other contents", on[op], a, e, lo, hi, sn(s))) return;
            }
            void* rm = nullptr; size_t rs = 77; s = CALL(A, sa_svp_buffer_release, &rm, &rs, h); if (!r.check(s == SA_STATUS_OK && rm == q + a && rs == e - a, "release of [%zu,%zu): %s %p %zu", a, e, sn(s), rm, rs)) return;
        }
    env::restrict_svp = false; r.traces();
}
static void creation(Run& r, bool ta) {
    SETUP(ta); Blk b(Bytes(16, 3));
    for (size_t sz : {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - (size_t) b.p, SIZE_MAX - (size_t) b.p + 1, (size_t) 1 << 63}) { uintptr_t e; bool ov = __builtin_add_overflow((uintptr_t) b.p, sz, &e); sa_handle h = INVALID_HANDLE; sa_status s = CALL(A, sa_svp_buffer_create, &h, b.p, sz); r.transitions(); if (ov && !r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "a region that wraps around is accepted (%zx)", sz)) return; if (s == SA_STATUS_OK) { void* m; size_t n; CALL(A, sa_svp_buffer_release, &m, &n, h); if (!r.check(m == b.p && n == sz, "release of a large region")) return; } }
    sa_handle h = INVALID_HANDLE; sa_status s = CALL(A, sa_svp_buffer_create, &h, nullptr, 16); r.check(s != SA_STATUS_OK && h == INVALID_HANDLE, "a null region is accepted");
    for (size_t n = 1; n <= 16; n++) for (size_t o = 0; o + n <= 16; o++) { s = CALL(A, sa_svp_buffer_create, &h, b.p + o, n); void* m = nullptr; size_t k = 0; if (!r.check(s == SA_STATUS_OK, "buffer of %zu: %s", n, sn(s))) return; s = CALL(A, sa_svp_buffer_release, &m, &k, h); r.transitions(2); if (!r.check(s == SA_STATUS_OK && m == b.p + o && k == n, "release returns %p %zu, created over %p %zu", m, k, (void*) (b.p + o), n)) return; }
    r.check(b.all(3), "creating and releasing changed memory");
    r.traces();
}
// every sequence of operations on two handles over two (overlapping or separate) regions
struct Hist {
    Run& r; Api& A; bool overlap; Bytes mem, model; sa_handle h[2] = {INVALID_HANDLE, INVALID_HANDLE}, stale[2] = {INVALID_HANDLE, INVALID_HANDLE}; bool live[2] = {false, false};
    size_t off(int i) const { return i == 0 ? 8 : overlap ? 12 : 24; } static size_t len(int i) { return i ? 10 : 8; }
    sa_handle dead(int i) { return stale[i]; }
    // returns false when something is wrong
    bool step(int op, unsigned salt, const std::string& path) {
        auto bad = [&](const char* w, sa_status s) { r.fail("%s: %s: %s", path.c_str(), w, sn(s)); return false; }; sa_status s; int i = op & 1;
        auto H = [&](int k) { return live[k] ? h[k] : stale[k]; };
        switch (op / 2) {
            case 0: { if (live[i]) { // release
                        void* m = nullptr; size_t n = 0; s = CALL(A, sa_svp_buffer_release, &m, &n, h[i]); if (s != SA_STATUS_OK || m != mem.data() + off(i) || n != len(i)) return bad("release", s); stale[i] = h[i]; live[i] = false;
                    } else { sa_handle x = INVALID_HANDLE; s = CALL(A, sa_svp_buffer_create, &x, mem.data() + off(i), len(i)); if (s != SA_STATUS_OK || (live[!i] && x == h[!i])) return bad("create", s); h[i] = x; live[i] = true; for (auto& q : stale) if (q == x) q = INVALID_HANDLE; } break; }
            case 1: { Bytes in = pattern(12, salt); Offs f{{1, 2, 3}, {(size_t) (salt % 3), 5, 4}}; s = CALL(A, sa_svp_buffer_write, H(i), in.data(), in.size(), f.data(), f.size()); if ((s == SA_STATUS_OK) != live[i]) return bad(live[i] ? "write" : "write to a stale buffer", s); if (live[i]) for (auto& x : f) memcpy(model.data() + off(i) + x.out_offset, in.data() + x.in_offset, x.length); break; }
            case 2: { Offs f{{0, 1, 6}}; bool ok = live[0] && live[1]; s = CALL(A, sa_svp_buffer_copy, H(i), H(!i), f.data(), 1); if ((s == SA_STATUS_OK) != ok) return bad(ok ? "copy" : "copy with a stale buffer", s); if (ok) memmove(model.data() + off(i), model.data() + off(!i) + 1, 6); break; }
            case 3: { Bytes hs = ref_digest("SHA1", sub(model, off(i) + 1, len(i) - 2)); s = CALL(A, sa_svp_buffer_check, H(i), 1, len(i) - 2, SA_DIGEST_ALGORITHM_SHA1, hs.data(), hs.size()); if ((s == SA_STATUS_OK) != live[i]) return bad(live[i] ? "check" : "check of a stale buffer", s); break; }
            case 4: { Bytes in = pattern(12, salt); Offs f{{0, 0, 2}, {i ? len(0) - 1 : 0, 0, 2}, {0, i ? 0u : 11u, 2}}; s = CALL(A, sa_svp_buffer_write, H(0), in.data(), in.size(), f.data(), f.size()); if (s == SA_STATUS_OK) return bad("a write outside the buffer is accepted", s); break; }
            default: { if (stale[i] == INVALID_HANDLE) break; void* m = nullptr; size_t n = 0; s = CALL(A, sa_svp_buffer_release, &m, &n, stale[i]); if (s == SA_STATUS_OK) return bad("a second release is accepted", s); }
        }
        r.transitions(); r.state(hash(model.data(), model.size(), (uint64_t) (live[0] + 2 * live[1])));
        if (mem != model) { r.fail("%s: contents are not those of the operations", path.c_str()); return false; }
        return true;
    }
};
static const char* HN[] = {"mk/rel0", "mk/rel1", "write0", "write1", "copy1>0", "copy0>1", "check0", "check1", "badwrite", "badwrite2", "rel stale0", "rel stale1"};
static void history(Run& r, bool ta, bool overlap, int first, int second, int depth) {
    SETUP(ta); size_t tot = 1; for (int i = 2; i < depth; i++) tot *= 12;
    for (size_t c = 0; c < tot; c++) {
        Hist x{r, A, overlap, pattern(48, 60), pattern(48, 60)}; std::string path; bool ok = true;
        for (int i = 0; i < depth && ok; i++) { size_t q = c; for (int k = 2; k < i; k++) q /= 12; int op = i == 0 ? first : i == 1 ? second : (int) (q % 12); path += std::string(i ? ", " : "") + HN[op]; ok = x.step(op, (unsigned) (10 + i), path); }
        for (int i = 0; i < 2; i++) if (x.live[i]) rel(A, K_SVP, x.h[i]);
        if (!ok) return; if (c % 1024 == 0) r.beat();
    }
    r.traces(tot);
}
// comparing a decryption with an expected value
static void keycheck(Run& r, bool ta, int svp, size_t n, size_t klen) {
    SETUP(ta); Bytes kb = pattern(klen, 3); sa_rights rt = rights_all(); sa_handle k; mkkey(A, &k, kb, rt); Reg a(A, n, 9); a.make();
    Blk clear(Bytes(a.p(), a.p() + n)); const char* cn = klen == 16 ? "AES-128-ECB" : "AES-256-ECB"; auto v = coords(n, a.p(), false);
    for (size_t o : v) for (size_t l : v) { if (l > 64 && (l % 16 || ta == false)) continue; // a length is also the size of the expected value
        bool ok = inside(o, l, n) && l % 16 == 0; Bytes want = ok && l ? ref_cipher(cn, false, kb, {}, sub(a.model, GUARD + o, l), false) : Bytes(l > 64 ? 16 : l, 0);
        for (int w = -1; w < (ok ? (int) l : 0); w += w < 0 ? 1 : 3) { Bytes e = want; if (w >= 0) e[(size_t) w] ^= 0x10; Blk eb(e); sa_buffer b = svp ? sbuf(a.h, o) : cbuf(clear.p, n, o); if (!ok && l > 64) { } else if (!l) continue;
            sa_status s = CALL(A, sa_svp_key_check, k, &b, l, eb.p, l); r.transitions();
            if (!r.check((s == SA_STATUS_OK) == (ok && w < 0) && (!ok || w < 0 || s == SA_STATUS_VERIFICATION_FAILED), "key check of %zx bytes at %zx of %zu (%s), %s value: %s", l, o, n, svp ? "svp" : "clear", w < 0 ? "right" : "wrong", sn(s))) return; }
        if (!r.check(a.same(), "key check changed the buffer")) return; }
    rel(A, K_KEY, k); r.traces();
}
#define T(...) (!r.stop() && r.take(__VA_ARGS__) && (r.nontrivial(hash(r.current())), true))
static void explore(Run& r) {
    sah_setup();
    static const size_t SZ[] = {1, 2, 3, 15, 16, 17, 33, 256};
    static const char* OPN[] = {"write", "copy", "copy within"};
    for (int ta = 1; ta >= 0; ta--) for (size_t n : SZ) for (size_t m : SZ) { if (ta == 0 && !r.thorough && n != m && n != 16) continue; for (int op = 0; op < 3; op++) if (op < 2 || n == m) if (T("%s %s of %zu and %zu", ta ? "ta" : "api", OPN[op], n, m)) ranges(r, ta, n, m, op); }
    for (int ta = 1; ta >= 0; ta--) for (int op = 0; op < 3; op++) { for (size_t n = 1; n <= (r.thorough ? 5 : 3); n++) for (size_t m = 1; m <= (r.thorough ? 5 : 3); m++) if (op < 2 || n == m) if (T("%s lists of two: %s of %zu and %zu", ta ? "ta" : "api", OPN[op], n, m)) lists(r, ta, n, m, 2, op);
        for (size_t n = 1; n <= 2; n++) if (T("%s lists of three: %s of %zu", ta ? "ta" : "api", OPN[op], n)) lists(r, ta, n, n, 3, op);
        for (size_t n = 3; n <= (r.thorough ? 12 : 8); n++) if (op != 1) if (T("%s single ranges: %s of %zu", ta ? "ta" : "api", OPN[op], n)) lists(r, ta, n, n, 1, op); }
    for (int ta = 1; ta >= 0; ta--) for (size_t n : {257, 65535, 65536, 65541}) for (size_t m : {257, 65536, 70000}) for (int op = 0; op < 3; op++) if ((op < 2 || m == 257) && T("%s %s of %zu and %zu", ta ? "ta" : "api", OPN[op], n, op == 2 ? n : m)) ranges(r, ta, n, op == 2 ? n : m, op);
    for (int ta = 1; ta >= 0; ta--) for (int c : {1, 2, 5, 64, 255, 256, 257, 1000}) if (T("%s list of %d ranges", ta ? "ta" : "api", c)) many(r, ta, c);
    for (int ta = 1; ta >= 0; ta--) for (size_t n : {1, 2, 16, 23, 64, 65, 300}) for (int alg = 0; alg < 4; alg++) if (T("%s digest %d of %zu", ta ? "ta" : "api", alg, n)) checks(r, ta, n, alg);
    for (int ta = 1; ta >= 0; ta--) for (size_t lo = 0; lo <= 12; lo++) for (size_t hi = lo; hi <= 12; hi++) { if (!r.thorough && !ta && (lo * 13 + hi) % 5) continue; if (T("%s secure memory [%zu,%zu)", ta ? "ta" : "api", lo, hi)) regions(r, ta, lo, hi); }
    for (int ta = 1; ta >= 0; ta--) if (T("%s creation", ta ? "ta" : "api")) creation(r, ta);
    for (int ta = 1; ta >= 0; ta--) for (int ov = 0; ov < 2; ov++) for (int f = 0; f < 12; f++) for (int s = 0; s < 12; s++) { int d = r.thorough ? 6 : ta ? 5 : 4; if (T("%s history of %d, %s, %s, %s", ta ? "ta" : "api", d, ov ? "overlapping" : "separate", HN[f], HN[s])) history(r, ta, ov, f, s, d); }
    for (int ta = 1; ta >= 0; ta--) for (int svp = 0; svp < 2; svp++) for (size_t n : {16, 17, 32, 48, 64}) for (size_t kl : {16, 32}) if (T("%s key check %s %zu key %zu", ta ? "ta" : "api", svp ? "svp" : "clear", n, kl)) keycheck(r, ta, svp, n, kl);
}
int main(int argc, char** argv) {
    Spec s; s.property = "C25";
    s.rule = "a case fixes the interface (client, trusted side), the operation and the buffer sizes; within it every combination of boundary values (0, 1, n/2, n-1, n, n+1, 32- and 64-bit limits, values that wrap with the size or the address) of output offset, input offset and length is executed, every list of two (three) ranges over tiny buffers, a bad range at each position of a list, every placement of a buffer relative to a secure region, every sequence of operations on two (overlapping) buffers up to the depth, every digest range and each altered byte; contents, guards, sources and statuses are compared with a byte-exact model after every call; every case is non-trivial (it contains accepted and refused operations)";
    s.assumptions = {"secure memory is ordinary memory; whether a region is secure is decided by the vendor hook memory_is_valid_svp, which the harness models as an interval"};
    s.explore = explore; return mc::main(argc, argv, s);
}
