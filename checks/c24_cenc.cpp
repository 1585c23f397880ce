// C24: common encryption against an independent model of the four schemes (cenc, cens, cbc1, cbcs).
#include "gates.hpp"
using namespace mc;
struct Sub { size_t clear, prot; };
static const size_t G = 48; // guard bytes on either side
struct Sample { Bytes iv; size_t crypt = 0, skip = 0; std::vector<Sub> subs; size_t in_off = 0, out_off = 0, in_extra = 0, out_extra = 0; unsigned salt = 0; };
static size_t total(const Sample& s) { size_t n = 0; for (auto& x : s.subs) n += x.clear + x.prot; return n; }
static const Bytes& cachekey(int big) { static Bytes a = pattern(16, 1), b = pattern(32, 2); return big ? b : a; }
static Bytes keystream(int big, const Bytes& iv, size_t n) { // the counter is the low 64 bits, the nonce never changes
    static std::map<Bytes, Bytes> cache; Bytes k = iv; k.push_back((uint8_t) big); Bytes& o = cache[k];
    if (o.size() < n) { size_t blocks = std::max<size_t>(64, (n + 15) / 16); Bytes c; uint64_t ctr = 0; for (int i = 8; i < 16; i++) ctr = ctr << 8 | iv[(size_t) i]; for (size_t i = 0; i < blocks; i++, ctr++) { c.insert(c.end(), iv.begin(), iv.begin() + 8); for (int b = 7; b >= 0; b--) c.push_back((uint8_t) (ctr >> 8 * b)); } o = ref_cipher(big ? "AES-256-ECB" : "AES-128-ECB", true, cachekey(big), {}, c, false); if (cache.size() > 20000) { Bytes keep = o; cache.clear(); return keep; } }
    return o;
}
static Bytes model(bool cbc, int big, const Sample& s, const Bytes& in) {
    Bytes out = in; std::vector<size_t> run; size_t at = 0;
    auto flush = [&] { // the collected protected bytes form one chain
        if (run.empty()) return; if (!cbc) { Bytes ks = keystream(big, s.iv, run.size()); for (size_t i = 0; i < run.size(); i++) out[run[i]] ^= ks[i]; }
        else { Bytes c; for (size_t i : run) c.push_back(in[i]); Bytes p = ref_cipher(big ? "AES-256-CBC" : "AES-128-CBC", false, cachekey(big), s.iv, c, false); for (size_t i = 0; i < run.size(); i++) out[run[i]] = p[i]; } run.clear(); };
    for (auto& x : s.subs) {
        at += x.clear;
        if (s.crypt == 0) { size_t n = cbc ? x.prot / 16 * 16 : x.prot; for (size_t i = 0; i < n; i++) run.push_back(at + i); }
        else { size_t blocks = x.prot / 16; for (size_t b = 0, ph = 0; b < blocks; b++) { if (ph < s.crypt) for (size_t i = 0; i < 16; i++) run.push_back(at + b * 16 + i); if (++ph == s.crypt + s.skip || s.crypt + s.skip < s.crypt) { if (s.crypt + s.skip >= s.crypt) ph = 0; } } if (cbc) flush(); }
        at += x.prot;
    }
    flush(); return out;
}
struct Rig {
    Api& A; bool cbc; int big; int bufs; sa_handle k = INVALID_HANDLE, c = INVALID_HANDLE; // bufs: 0 clear, 1 svp, 2 clear to svp
    Rig(Api& a, bool cb, int bg, int bu) : A(a), cbc(cb), big(bg), bufs(bu) { sa_rights rt = rights_all(); mkkey(A, &k, cachekey(big), rt); Bytes z(16, 0); sa_cipher_parameters_aes_cbc p = {z.data(), 16}; sa_cipher_parameters_aes_ctr q = {z.data(), 16}; CALL(A, sa_crypto_cipher_init, &c, cbc ? SA_CIPHER_ALGORITHM_AES_CBC : SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, cbc ? (void*) &p : (void*) &q); }
    ~Rig() { rel(A, K_CIPHER, c); rel(A, K_KEY, k); }
};
struct Mem { uint8_t* p; size_t n; sa_handle h = INVALID_HANDLE; bool svp; Api& A; Mem(Api& a, size_t n_, bool s) : p((uint8_t*) malloc(n_ + 1)), n(n_), svp(s), A(a) { if (svp) CALL(A, sa_svp_buffer_create, &h, p, n); } ~Mem() { if (svp) rel(A, K_SVP, h); free(p); } };
struct Job { std::vector<Sample> s; };
static std::string desc(const Rig& g, const Job& j) { std::string o = strf("%s-%d bufs %d:", g.cbc ? "cbc" : "ctr", g.big ? 256 : 128, g.bufs); for (auto& s : j.s) { o += strf(" [iv %s crypt %zu skip %zu at %zu/%zu", hex(s.iv.data(), 16).c_str(), s.crypt, s.skip, s.in_off, s.out_off); for (auto& x : s.subs) o += strf(" %zu+%zu", x.clear, x.prot); o += "]"; } return o; }
// runs a list of samples; each sample has buffers of its own. expect: the index of the first sample that is refused, or -1
static bool run(Run& r, Rig& g, const Job& j, int bad = -1, std::function<void(std::vector<sa_sample>&)> spoil = nullptr, bool any_refusal = false) {
    size_t n = j.s.size(); std::vector<sa_sample> v(n); std::vector<sa_buffer> bi(n), bo(n); std::vector<std::vector<sa_subsample_length>> sl(n); std::vector<std::unique_ptr<Mem>> mi, mo; std::vector<Bytes> want_in, want_out;
    for (size_t i = 0; i < n; i++) { auto& s = j.s[i]; size_t t = total(s); mi.emplace_back(new Mem(g.A, s.in_off + t + s.in_extra, g.bufs == 1)); mo.emplace_back(new Mem(g.A, s.out_off + t + s.out_extra, g.bufs != 0));
        Bytes in = pattern(mi[i]->n, 300 + s.salt + (unsigned) i), out = pattern(mo[i]->n, 900 + (unsigned) i); if (mi[i]->n) memcpy(mi[i]->p, in.data(), in.size()); if (mo[i]->n) memcpy(mo[i]->p, out.data(), out.size());
        want_in.push_back(in); want_out.push_back(out); for (auto& x : s.subs) sl[i].push_back({x.clear, x.prot}); sl[i].reserve(1);
        bi[i] = mi[i]->svp ? sbuf(mi[i]->h, s.in_off) : cbuf(mi[i]->p, mi[i]->n, s.in_off); bo[i] = mo[i]->svp ? sbuf(mo[i]->h, s.out_off) : cbuf(mo[i]->p, mo[i]->n, s.out_off);
        v[i] = {(void*) s.iv.data(), s.iv.size(), s.crypt, s.skip, s.subs.size(), sl[i].data(), g.c, &bo[i], &bi[i]}; }
    if (spoil) spoil(v);
    for (auto& x : j.s) if (total(x) == 0) return true; // a sample without any byte may be refused
    sa_status st = CALL(g.A, sa_process_common_encryption, n, v.data()); r.transitions(n); r.beat();
    auto D = [&] { return desc(g, j); };
    if (bad < 0 ? !r.check(st == SA_STATUS_OK, "%s: %s", D().c_str(), sn(st)) : !r.check(st != SA_STATUS_OK, "%s: sample %d is wrong but accepted", D().c_str(), bad)) return false;
    size_t done = bad < 0 ? n : g.A.ta ? 0 : (size_t) bad; // the client sends the samples one at a time, the trusted side refuses all
    for (size_t i = 0; i < n; i++) {
        auto& s = j.s[i]; size_t t = total(s), adv = i < done ? t : 0; if (i < done) { Bytes o = model(g.cbc, g.big, s, sub(want_in[i], s.in_off, t)); std::copy(o.begin(), o.end(), want_out[i].begin() + (long) s.out_off); r.state(hash(o.data(), o.size(), s.subs.size())); }
        if (!r.check(!memcmp(mo[i]->p, want_out[i].data(), want_out[i].size()), "%s: output of sample %zu differs%s", D().c_str(), i, bad >= 0 ? " after a refusal" : "")) return false;
        if (!r.check(!memcmp(mi[i]->p, want_in[i].data(), want_in[i].size()), "%s: input of sample %zu changed", D().c_str(), i)) return false;
        if (any_refusal || (bad >= 0 && i >= (size_t) bad)) continue;
        size_t io = mi[i]->svp ? bi[i].context.svp.offset : bi[i].context.clear.offset, oo = mo[i]->svp ? bo[i].context.svp.offset : bo[i].context.clear.offset;
        if (!r.check(io == s.in_off + adv && oo == s.out_off + adv, "%s: offsets of sample %zu: %zu %zu, expected %zu %zu", D().c_str(), i, io, oo, s.in_off + adv, s.out_off + adv)) return false;
    }
    return true;
}
static Bytes iv_of(uint64_t ctr, bool ones) { Bytes v = ones ? Bytes(8, 0xff) : pattern(8, 5); for (int b = 7; b >= 0; b--) v.push_back((uint8_t) (ctr >> 8 * b)); return v; }
static const uint64_t CTR0[] = {0, UINT64_MAX, 1, UINT64_MAX - 1, UINT64_MAX - 2, UINT64_MAX - 3, UINT64_MAX - 4, (uint64_t) 1 << 63, (uint64_t) 1 << 60, UINT64_MAX - ((uint64_t) 1 << 60), UINT64_MAX - 8, 0xffffffff, 0xfffffffe, UINT64_MAX << 32};
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); Session S(ta, uuid_of(1)); Api& A = S.A
static Sample plain(uint64_t ctr, bool ones, std::vector<Sub> subs) { Sample s; s.iv = iv_of(ctr, ones); s.subs = subs; s.in_off = 3; s.out_off = 7; s.in_extra = 5; s.out_extra = 40; return s; }
// protected ranges of every length, in sequences
static void sequences(Run& r, bool ta, bool cbc, int big, int bufs, size_t first) {
    SETUP(ta); Rig g(A, cbc, big, bufs);
    static const size_t small[] = {1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 49}; std::vector<size_t> P; for (size_t x : small) P.push_back(x); size_t depth = r.thorough ? 4 : 3;
    for (uint64_t c : CTR0) { if (cbc && c > 1 && c != UINT64_MAX) continue;
        for (size_t len = 1; len <= depth; len++) { size_t combos = 1; for (size_t i = 1; i < len; i++) combos *= P.size(); for (size_t i = 0; i < combos; i++) {
            std::vector<Sub> subs{{i % 3 == 0 ? 0u : 5u, first}}; for (size_t k = 1, q = i; k < len; k++, q /= P.size()) subs.push_back({(q + k) % 4 == 0 ? (size_t) 3 : 0, P[q % P.size()]});
            Job j; j.s.push_back(plain(c, (i + len) % 2, subs)); if (!run(r, g, j)) return; } } }
    r.traces();
}
// long runs of tiny ranges
static void tiny(Run& r, bool ta, int big, int bufs, size_t step) {
    SETUP(ta); Rig g(A, false, big, bufs);
    for (uint64_t c : CTR0) for (size_t count : {2, 3, 15, 16, 17, 33, 100}) for (size_t clear : {0, 1, 16}) { std::vector<Sub> subs; for (size_t i = 0; i < count; i++) subs.push_back({clear, step + (i % 7 == 6 ? 1 : 0)}); Job j; j.s.push_back(plain(c, count & 1, subs)); if (!run(r, g, j)) return; }
    r.traces();
}
// ranges longer than 16 bits of length can say, clear and protected
static void longranges(Run& r, bool ta, bool cbc, int big, int bufs) {
    SETUP(ta); Rig g(A, cbc, big, bufs);
    for (size_t n : {255, 256, 257, 4096, 65535, 65536, 65537, 65552, 131072}) for (size_t clear : {(size_t) 0, (size_t) 3, (size_t) 256, (size_t) 65536, (size_t) 65541}) for (uint64_t c : {(uint64_t) 0, UINT64_MAX - 5, UINT64_MAX - 4095, UINT64_MAX - n / 16}) { if (cbc && c) continue; Job j; j.s.push_back(plain(c, clear & 1, {{clear, n}, {1, 33}})); if (!run(r, g, j)) return; j.s[0].subs = {{clear, 0}, {clear, n}}; if (!run(r, g, j)) return; r.beat(); }
    r.traces();
}
static void patterns(Run& r, bool ta, bool cbc, int big, int bufs, size_t crypt) {
    SETUP(ta); Rig g(A, cbc, big, bufs);
    std::vector<size_t> skips; for (size_t i = 0; i <= (r.thorough ? 12u : 10u); i++) skips.push_back(i); for (size_t x : {SIZE_MAX, SIZE_MAX - 3, (size_t) 1 << 60, ((size_t) 1 << 60) + 1, ((size_t) 1 << 61) + 2, (size_t) 1 << 63, (size_t) 1 << 32}) skips.push_back(x);
    for (size_t skip : skips) for (size_t prot = 0; prot <= 26 * 16; prot += r.thorough ? 1 : prot < 35 ? 1 : prot % 16 == 0 ? 1 : 15) for (int two = 0; two < 2; two++) {
        if (!r.thorough && two && (skip + prot / 16) % 3) continue;
        if (crypt == 0 && skip) { if (prot != 32) continue; Job j; j.s.push_back(plain(1, false, {{4, prot}})); j.s[0].crypt = 0; j.s[0].skip = skip; if (!run(r, g, j, 0)) return; continue; }
        for (uint64_t c : {UINT64_MAX - 2, (uint64_t) 0}) { if (c == 0 && (cbc || prot % 5)) continue; Job j; j.s.push_back(plain(c, true, two ? std::vector<Sub>{{4, prot}, {0, 16}, {9, prot}} : std::vector<Sub>{{4, prot}})); j.s[0].crypt = crypt; j.s[0].skip = skip; if (!run(r, g, j)) return; } }
    r.traces();
}
// every list of three samples out of a few, over one context
static void lists(Run& r, bool ta, bool cbc, int big, int bufs) {
    SETUP(ta); Rig g(A, cbc, big, bufs);
    auto mk = [](int i) { Sample s = plain(i == 1 ? UINT64_MAX : i == 4 ? 0 : 9, i & 1, i == 0 ? std::vector<Sub>{{0, 16}} : i == 1 ? std::vector<Sub>{{3, 40}, {1, 8}} : i == 2 ? std::vector<Sub>{{20, 0}} : i == 3 ? std::vector<Sub>{{0, 0}, {0, 1}} : i == 4 ? std::vector<Sub>{{1, 100}, {0, 60}} : std::vector<Sub>{{0, 7}, {0, 9}, {5, 33}}); if (i == 4) { s.crypt = 1; s.skip = 2; } s.salt = (unsigned) i; s.in_off = (size_t) i; s.out_off = 2 * (size_t) i; s.in_extra = i == 2 ? 0 : 4; s.out_extra = i == 3 ? 0 : 3; return s; };
    for (int a = 0; a < 6; a++) { Job j; j.s = {mk(a)}; if (!run(r, g, j)) return; for (int b = 0; b < 6; b++) { Job k = j; k.s.push_back(mk(b)); if (!run(r, g, k)) return; for (int c = 0; c < 6; c++) { Job l = k; l.s.push_back(mk(c)); if (!run(r, g, l)) return; } } }
    r.traces();
}
// one malformed sample in a list: at every position, every defect
static void refused(Run& r, bool ta, bool cbc, int bufs) {
    SETUP(ta); Rig g(A, cbc, 0, bufs); Job j; for (int i = 0; i < 3; i++) j.s.push_back(plain(7 + (uint64_t) i, false, {{3, 20}, {0, 33}})); if (!run(r, g, j)) return;
    auto off = [](sa_buffer* b) -> size_t& { return b->buffer_type == SA_BUFFER_TYPE_SVP ? b->context.svp.offset : b->context.clear.offset; };
    sa_handle other_mode = INVALID_HANDLE, other_alg = INVALID_HANDLE, mac = INVALID_HANDLE; Bytes z(16, 0); sa_cipher_parameters_aes_ctr q = {z.data(), 16}; CALL(A, sa_crypto_cipher_init, &other_mode, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_ENCRYPT, g.k, &q); CALL(A, sa_crypto_cipher_init, &other_alg, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, g.k, nullptr); (void) mac;
    for (int at = 0; at < 3; at++) {
        auto bad = [&](std::function<void(sa_sample&)> f) { auto keep = std::make_shared<std::vector<sa_subsample_length>>(); bool ok = run(r, g, j, at, [&](std::vector<sa_sample>& v) { f(v[(size_t) at]); }, true); if (ok) run(r, g, j); return ok; };
        for (size_t n = 0; n <= 40; n++) if (n != 16) bad([&](sa_sample& s) { s.iv_length = n; });
        bad([](sa_sample& s) { s.iv = nullptr; }); bad([](sa_sample& s) { s.subsample_lengths = nullptr; }); bad([](sa_sample& s) { s.subsample_count = 0; }); bad([](sa_sample& s) { s.in = nullptr; }); bad([](sa_sample& s) { s.out = nullptr; });
        for (size_t k : {(size_t) 1, (size_t) 9, SIZE_MAX, (size_t) 1 << 60, (size_t) 1 << 63}) bad([&](sa_sample& s) { s.crypt_byte_block = 0; s.skip_byte_block = k; });
        for (sa_handle h : {other_mode, other_alg, g.k + 200, (sa_handle) INVALID_HANDLE, (sa_handle) 254, (sa_handle) 1 << 32}) if (h != g.c) bad([&](sa_sample& s) { s.context = h; });
        for (int side = 0; side < 2; side++) { auto buf = [side](sa_sample& s) { return side ? s.out : s.in; };
            for (int t : {-1, 2, 3, 100}) bad([&](sa_sample& s) { buf(s)->buffer_type = (sa_buffer_type) t; });
            size_t slack = side ? 40 : 5, len = side ? 7 + 56 + 40 : 3 + 56 + 5, o0 = side ? 7 : 3; for (size_t o : {o0 + slack + 1, o0 + slack + 2, len - 1, len, len + 1, len + 1000, SIZE_MAX, SIZE_MAX - 55, SIZE_MAX - 56, SIZE_MAX / 2}) bad([&](sa_sample& s) { off(buf(s)) = o; });
            bool svp = side ? bufs != 0 : bufs == 1;
            if (!svp) { bad([&](sa_sample& s) { buf(s)->context.clear.buffer = nullptr; }); for (size_t l : {(size_t) 0, (size_t) 1, o0 - 1, o0, o0 + 55}) bad([&](sa_sample& s) { buf(s)->context.clear.length = l; }); }
            else for (sa_handle h : {(sa_handle) INVALID_HANDLE, (sa_handle) 254, (sa_handle) 1 << 40}) bad([&](sa_sample& s) { buf(s)->context.svp.buffer = h; }); }
        if (bufs == 1) bad([](sa_sample& s) { s.in->context.svp.buffer = s.out->context.svp.buffer; });
        if (bufs == 1) bad([](sa_sample& s) { static uint8_t m[200]; *s.out = cbuf(m, 200, 0); }); // protected to clear
        // lengths whose sum overflows or exceeds a buffer
        std::vector<std::vector<sa_subsample_length>> L = {{{0, 62}}, {{62, 0}}, {{31, 31}}, {{SIZE_MAX, 1}}, {{SIZE_MAX, 0}}, {{0, SIZE_MAX}}, {{1, SIZE_MAX}}, {{SIZE_MAX, 57}}, {{SIZE_MAX - 10, 0}, {11, 56}}, {{(size_t) 1 << 63, 0}, {(size_t) 1 << 63, 20}}, {{16, 0}, {0, SIZE_MAX}, {1, 0}}, {{0, (size_t) 1 << 32}}, {{0, SIZE_MAX - 15}}, {{0, SIZE_MAX - 6}}};
        for (auto& l : L) { bool over = true; if (l.size() == 1 && l[0].bytes_of_clear_data + l[0].bytes_of_protected_data == 62 && l[0].bytes_of_clear_data <= 62) over = true; if (over) bad([&](sa_sample& s) { s.subsample_lengths = l.data(); s.subsample_count = l.size(); }); }
        if (r.failures()) break;
    }
    sa_sample none; memset(&none, 0, sizeof none); sa_status st = CALL(A, sa_process_common_encryption, 1, nullptr); r.check(st != SA_STATUS_OK, "no samples: %s", sn(st)); if (!A.ta) { st = CALL(A, sa_process_common_encryption, 0, &none); r.check(st != SA_STATUS_OK, "0 samples: %s", sn(st)); }
    if (A.ta && bufs == 0) { // output overlapping the input is refused by the trusted side
        Blk m(256); for (long d = -40; d <= 40; d++) { if (d == 40 || d == -40) continue; Bytes before = pattern(256, 5); memcpy(m.p, before.data(), 256); sa_buffer bi = cbuf(m.p, 256, 100), bo = cbuf(m.p, 256, (size_t) (100 + d)); Bytes iv(16, 1); sa_subsample_length sl = {0, 40}; sa_sample s = {iv.data(), 16, 0, 0, 1, &sl, g.c, &bo, &bi}; st = CALL(A, sa_process_common_encryption, 1, &s); r.check(st != SA_STATUS_OK && m.bytes() == before, "overlap at distance %ld: %s", d, sn(st)); } }
    rel(A, K_CIPHER, other_mode); rel(A, K_CIPHER, other_alg); r.traces();
}
#define T(...) (!r.stop() && r.take(__VA_ARGS__) && (r.nontrivial(hash(r.current())), true))
static void explore(Run& r) {
    for (bool ta : {true, false}) for (int cbc = 0; cbc < 2; cbc++) for (int big = 0; big < 2; big++) for (int b = 0; b < 3; b++) { const char* a = ta ? "ta" : "api";
        if (!r.thorough && (!ta || big) && b == 2) continue;
        for (size_t first : {0, 1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 47, 48, 64, 65, 1000}) if ((r.thorough || ta || first % 3 == 0) && T("%s cbc %d big %d bufs %d first %zu", a, cbc, big, b, (size_t) first)) sequences(r, ta, cbc, big, b, first);
        if (!cbc) for (size_t st : {1, 2, 3, 5, 8, 11, 15, 16}) if (T("%s tiny big %d bufs %d step %zu", a, big, b, (size_t) st)) tiny(r, ta, big, b, st);
        for (size_t c : {(size_t) 0, (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 5, (size_t) 9, (size_t) 10, (size_t) 1 << 60, ((size_t) 1 << 60) + 1, (size_t) 1 << 63, SIZE_MAX, (size_t) 1 << 32}) if (T("%s cbc %d big %d bufs %d crypt %zu", a, cbc, big, b, c)) patterns(r, ta, cbc, big, b, c);
        if (T("%s cbc %d big %d bufs %d lists", a, cbc, big, b)) lists(r, ta, cbc, big, b);
        if (T("%s cbc %d big %d bufs %d long ranges", a, cbc, big, b)) longranges(r, ta, cbc, big, b);
        if (!big && T("%s cbc %d bufs %d refused", a, cbc, b)) refused(r, ta, cbc, b);
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C24";
    s.rule = "Through the trusted and the client API, counter and chaining mode, both key sizes, clear, protected and clear-to-protected buffers: every sequence of up to three (thorough: four) protected ranges of 19 first and 12 further lengths for 14 initial counters around zero, 2^32, 2^60, 2^63 and the end of the counter; long runs of tiny ranges; patterns of 12 crypt and 18 skip counts (including ones whose byte count overflows) over protected lengths 0 to 416; all lists of up to three of six samples over one context; every malformed parameter at every position of a list, every distance of overlapping buffers. Output, surrounding bytes, input and offsets are compared with an independent model built on single-block AES. Non-trivial: distinct families.";
    s.assumptions = {"output adjacent to the input, and a sample of no bytes, may be refused", "the client library sends the samples of a list one after the other"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
