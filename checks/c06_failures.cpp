// C06: a call that fails leaves the session exactly as it was. Every operation x every single (thorough: every pair of)
// invalid argument variant, on the client API and on the trusted API of a session of its own.
#include "ops.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using namespace mc;
static size_t first_offset; // of the output of the first sample of a refused call
// common encryption of two samples: the first is valid, the arguments of the second vary
static void two_samples(std::vector<Op>& v) {
    for (int b = 0; b < 3; b++) { // clear, protected output, both samples through the same buffers
        std::vector<std::string> us = {"ctr-dec", "cbc-dec"}; if (b == 1) us.push_back("svpB");
        v.push_back({std::string("cenc2-") + (b == 0 ? "clear" : b == 1 ? "to-svp" : "one-buffer"), FL_DECRYPT, "aes", "ctr-dec", us, [b](Fix& f, Args& g) { Res r; Arena a; sa_handle c0 = f.cipher("ctr-dec"), c1 = f.cipher("cbc-dec"); Bytes in = pattern(128, 21);
            uint8_t* op = a.out(128); sa_buffer I[2], O[2]; for (int i = 0; i < 2; i++) { I[i] = cbuf(a.in(in), b == 2 ? 90 : 32); O[i] = b == 1 ? sbuf(f.svp("svpB"), i * 32) : cbuf(op + 64 * i, b == 2 ? 92 : 32); } if (b == 2) I[0].context.clear.length = g.L("in_total", 64, {32, 50, 63}), O[0].context.clear.length = g.L("out_total", 64, {32, 40, 63});
            sa_subsample_length ss[2] = {{16, 16}, {g.L("clear0", 16, {17, 61, SIZE_MAX}), g.L("protected0", 16, {SIZE_MAX})}}; if (ss[1].bytes_of_clear_data < 16) ss[1].bytes_of_clear_data = 17; if (ss[1].bytes_of_protected_data < 16) ss[1].bytes_of_protected_data = 17;
            sa_sample s[2]; memset(s, 0, sizeof s); for (auto& x : s) { x.iv = a.in(pattern(16, 8)); x.iv_length = 16; x.subsample_count = 1; } s[0].subsample_lengths = ss; s[0].context = c0;
            s[1].iv = g.P("iv", s[1].iv); s[1].iv_length = g.L("iv_length", 16); s[1].crypt_byte_block = 0; s[1].skip_byte_block = g.at("skip", 1) >= 0; s[1].subsample_count = g.at("count", 1) >= 0 ? 0 : 1; s[1].subsample_lengths = g.P("subsample_lengths", ss + 1); s[1].context = g.H("context", c1, K_CIPHER, f);
            s[0].out = O; s[0].in = I; s[1].out = b == 2 ? O : g.B("out", O + 1, f); s[1].in = b == 2 ? I : g.B("in", I + 1, f);
            r.s = CALL(f.A, sa_process_common_encryption, 2, s); first_offset = b == 1 ? O[0].context.svp.offset : O[0].context.clear.offset; return r; }});
    }
}
static void one(Run& r, const Op& op, bool ta, int s1, int v1, int s2, int v2, bool stale) {
    env::reset(); env::caller = uuid_of(1);
    Api A; A.ta = ta; A.u = uuid_of(1);
    if (ta && !r.check(ta_sa_init(&A.c, &A.u) == SA_STATUS_OK, "session not opened")) return;
    {
        Fix f(A);
        for (auto n : {"aes", "hm"}) f.key(n);
        f.cipher("cbc-enc"); f.mac("hmac"); f.svp("svpB");
        for (auto& n : op.uses) { if (n.compare(0, 3, "svp") == 0) f.svp(n); else if (n == "hmac" || n == "cmac") f.mac(n); else if (n.find('-') != std::string::npos) f.cipher(n); else f.key(n); }
        if (!f.err.empty()) { r.fail("%s", f.err.c_str()); return; }
        if (stale) for (int k = 0; k < 4; k++) f.dead((Kind) k);
        Args g; g.site = s1; g.var = v1; g.site2 = s2; g.var2 = v2;
        Res res = op.run(f, g);
        r.transitions();
        if (s1 < 0) { r.check(res.s == SA_STATUS_OK, "valid %s returned %s", op.name.c_str(), sn(res.s)); r.count("valid"); drop_created(f, res); }
        else if (res.s == SA_STATUS_OK) { r.count("accepted"); drop_created(f, res); }
        else {
            r.count("refused");
            uint64_t key = hash(op.name) * 31 + s1 * 64 + v1; r.state(key);
            r.nontrivial(hash(&res.s, sizeof res.s, key));
            // the same failing call many times: nothing may be retained, no slot, lock or reference may be lost
            size_t mem[3] = {};
            for (int i = 0; i < 36; i++) {
                Args h; h.site = s1; h.var = v1; h.site2 = s2; h.var2 = v2; h.sites.reserve(64);
                size_t nm = f.mems.size();
                Res q = op.run(f, h);
                while (f.mems.size() > nm) { free(f.mems.back()); f.mems.pop_back(); }
                r.transitions();
                if (!r.check(q.s != SA_STATUS_OK, "refused with %s the first time and accepted on repetition %d", sn(res.s), i)) break;
                if (i == 19) mem[0] = __sanitizer_get_current_allocated_bytes();
                if (i == 35) mem[1] = __sanitizer_get_current_allocated_bytes();
            }
            r.check(mem[1] < mem[0] + 16 * 8, "each refused call (%s) retains %zu bytes of memory", sn(res.s), (mem[1] - mem[0]) / 16);
            int have[4] = {};
            for (auto& e : f.o) have[e.second.kind]++;
            bool kinds[4] = {}; kinds[res.ck] = true; kinds[hash(g.sites[s1].name) % 4] = true;
            for (auto& n : op.uses) if (f.o.count(n)) kinds[f.o[n].kind] = true;
            for (int k = 0; k < 4; k++) {
                if (!kinds[k] && !r.thorough) continue;
                int n = slots_free(A, (Kind) k, f.o["aes"].h);
                r.check(n == 256 - have[k], "after refused calls (%s) %d %s slots are free, %d expected", sn(res.s), n, KINDN[k], 256 - have[k]);
            }
            // (a message whose last call failed verification has ended)
            std::vector<std::string> skip; if (res.s == SA_STATUS_VERIFICATION_FAILED && op.name.compare(0, 12, "cipher-last-") == 0) skip.push_back(op.obj);
            if (op.name.compare(0, 6, "cenc2-") == 0) { // nothing of the first sample either
                std::vector<std::string> others; for (auto& x : f.o) if (x.first != "ctr-dec" && x.first != "svpB") others.push_back(x.first); else skip.push_back(x.first);
                std::string e = f.intact(others); r.check(e.empty() && first_offset == 0, "the first sample of a refused request of two has been processed%s (%s): %s", ta ? "" : " by the client library", sn(res.s), e.c_str());
            }
            std::string e = f.intact(skip);
            r.check(e.empty(), "after a refused call (%s): %s", sn(res.s), e.c_str());
            r.traces();
        }
        std::string e = f.release_all();
        r.check(e.empty(), "after the call (%s): %s", sn(res.s), e.c_str());
    }
    if (ta) r.check(ta_sa_close(A.c, &A.u) == SA_STATUS_OK, "the session does not close after the call");
}
static void explore(Run& r) {
    static std::vector<Op> ops = [] { auto v = build_ops(); two_samples(v); return v; }();
    for (int ta = 0; ta < 2; ta++)
        for (auto& op : ops) {
            const char* ap = ta ? "trusted" : "client";
            if (r.take("%s %s valid", ap, op.name.c_str())) one(r, op, ta, -1, 0, -1, 0, false);
            // learn the argument sites (without recording)
            Args probe; { env::reset(); env::caller = uuid_of(1); Api A; Fix f(A); Res q = op.run(f, probe); drop_created(f, q); f.release_all(); }
            auto& st = probe.sites;
            auto stale = [&](int i) { return st[i].nv == 4 || st[i].nv == 9; }; // may refer to a released object
            for (int s = 0; s < (int) st.size(); s++)
                for (int v = 0; v < st[s].nv; v++) {
                    if (r.stop()) return;
                    if (r.take("%s %s %s#%d", ap, op.name.c_str(), st[s].name.c_str(), v)) one(r, op, ta, s, v, -1, 0, stale(s));
                    if (r.thorough)
                        for (int s2 = s + 1; s2 < (int) st.size(); s2++)
                            for (int w = 0; w < st[s2].nv; w++)
                                if (r.take("%s %s %s#%d %s#%d", ap, op.name.c_str(), st[s].name.c_str(), v, st[s2].name.c_str(), w)) one(r, op, ta, s, v, s2, w, stale(s) || stale(s2));
                }
        }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C06";
    s.rule = "Every operation of the catalogue (all API functions, all algorithms) x every argument x every invalid variant of it (null, zero, one less, one more, out of range, invalid enumerator, invalid / never issued / stale handle, wrong buffer kind and offset), on the client API and on the trusted API; thorough: every pair of them. A refused call is repeated 36 times, then free slots, memory, and the continuation of every object are compared. Non-trivial: distinct (operation, argument, variant, status) that was refused.";
    s.assumptions = {"lengths larger than the memory passed are not used, except where the interface has to detect them"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
