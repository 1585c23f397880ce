// C09: validity window, video outputs and allowed applications gate every use of a key: when a key is first used, and at each
// later step of a cipher already initialised. A refusal leaves everything intact.
#include "gates.hpp"
using namespace mc;
static bool gated(const Op& op) { return (op.flag >= 0 && !starts(op.name, "export-") && op.name != "import-exported" && !starts(op.name, "cipher-iv-")) || starts(op.name, "public-") || op.name == "digest" || starts(op.name, "mac-process-key"); }
static std::vector<std::string> gate_keys(const Op& op) { std::vector<std::string> k; for (auto& n : needs(op)) k.push_back(n.key); if (k.empty()) k.push_back(op.key); return k; }
static std::string clear_check(const Op& op) { return op.name == "svp-key-check" ? "x" : ""; }
static bool reads_clear(const Op& op) { return clear_out(op) || op.name == "svp-key-check"; }
// runs the operation; want: 1 must succeed, 0 must be refused, -1 either
static void expect(Run& r, Fix& f, const Op& op, int want, const std::string& cond, const std::function<void()>& restore, bool deep) {
    Args g; Res q = op.run(f, g); r.transitions();
    if (want == 1) r.check(q.s == SA_STATUS_OK, "%s: %s refused with %s", cond.c_str(), op.name.c_str(), sn(q.s));
    else if (want == 0) {
        if (!r.check(q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "%s: %s gives %s", cond.c_str(), op.name.c_str(), sn(q.s))) return;
        r.check(q.created == INVALID_HANDLE, "%s: refused and something created", cond.c_str());
    }
    restore(); drop_created(f, q);
    if (want == 0 && deep) { std::string e = f.intact(); r.check(e.empty(), "%s: after the refusal: %s", cond.c_str(), e.c_str()); }
    if (want == 0 && op.obj.empty()) { Args g2; Res q2 = op.run(f, g2); r.transitions(); r.check(q2.s == SA_STATUS_OK, "%s: refused again (%s) when the condition is over", cond.c_str(), sn(q2.s)); drop_created(f, q2); }
}
static const uint64_t T0 = 1700000000;
struct Win { uint64_t nb, na; };
static const Win WIN[] = {{0, UINT64_MAX}, {T0, T0 + 1}, {T0 - 5, T0 + 5}, {T0, T0}, {T0 + 1, T0 - 1}, {0, 0}, {UINT64_MAX, UINT64_MAX}, {0, T0}, {T0, UINT64_MAX}, {1, 0x100000000ull}, {0x100000000ull, 0x100000001ull}, {0x7fffffff, 0x80000000ull}, {0x100000000ull + T0, 0x200000000ull + T0}, {0, 0x80000000ull}};
static std::vector<uint64_t> times() { std::vector<uint64_t> t = {1, T0, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, T0 + 0x100000000ull}; for (int d = -6; d <= 6; d++) t.push_back(T0 + d); return t; }
static void time_gate(Run& r, const Op& op, const std::string& which, bool ta, Win w, uint64_t t) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1));
    bool in = w.nb <= t && t < w.na; time_t good = 0;
    {
        Fix f(s.A);
        f.rights = [&](const std::string& n, sa_rights& rt) { if (n == which) { rt.not_before = w.nb; rt.not_on_or_after = w.na; } };
        bool empty = w.nb >= w.na;
        if (later_step(op)) {
            if (empty) { env::now = (time_t) t; r.check(f.cipher(op.obj) == INVALID_HANDLE, "a context is made with a key that is never valid"); goto end; }
            good = (time_t) (w.nb <= T0 && T0 < w.na ? T0 : w.nb); env::now = good; // made while the key is valid
        } else good = empty ? (time_t) t : (time_t) w.nb;
        { bool only_key = empty; if (only_key) env::now = (time_t) t; else env::now = good; }
        fixture(f, op);
        if (!r.check(f.err.empty(), "%s", f.err.c_str())) goto end;
        env::now = (time_t) t;
        if (empty) { Args g; Res q = op.run(f, g); r.transitions(); r.check(q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "window [%llu,%llu) at %llu: %s gives %s", (unsigned long long) w.nb, (unsigned long long) w.na, (unsigned long long) t, op.name.c_str(), sn(q.s)); drop_created(f, q); }
        else expect(r, f, op, in, strf("window [%llu,%llu) at %llu", (unsigned long long) w.nb, (unsigned long long) w.na, (unsigned long long) t), [&] { env::now = good; }, true);
    end:
        f.release_all();
    }
    r.traces(); r.nontrivial(hash(&w, sizeof w, hash(op.name + which)) ^ t * 0x9e3779b97f4a7c15ull); r.state(in * 2 + ta);
    r.count(in ? "in_window" : "out_of_window");
}
// video outputs: five permissions x states of the four outputs and the protected path
static const uint64_t VF[] = {F(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED), F(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA), F(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED), F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14), F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22), F(SA_USAGE_FLAG_SVP_OPTIONAL)};
static void set_video(int m, uint32_t n) { env::video = {m & 1 ? n : 0, m & 2 ? n : 0, m & 4 ? n : 0, m & 8 ? n : 0, m & 16 ? n : 0, (m & 32) != 0}; }
static void video_gate(Run& r, const Op& op, const std::string& which, bool ta, int perm) {
    for (int st = 0; st < 65; st++) for (uint32_t n : {1u, 2u, 1000u}) {
        if (n == 2 && !r.thorough) continue;
        if (n > 1 && (st & (st - 1)) && st != 63 && !r.thorough) continue;
        if (r.stop()) return; r.beat();
        env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1));
        Fix f(s.A);
        f.rights = [&](const std::string& k, sa_rights& rt) { if (k == which) { for (int i = 0; i < 6; i++) if (!(perm >> i & 1)) rt.usage_flags &= ~VF[i]; } };
        set_video(32, 0); // nothing connected, protected path engaged: any key works
        bool all_ok = true; for (int i = 0; i < 5; i++) if (st >> i & 1 && !(perm >> i & 1)) all_ok = false;
        if (!(st & 32) && !(perm & 32)) all_ok = false;
        bool fails = st == 64; if (fails) all_ok = false;
        int want = all_ok; bool clear_refused = !(perm & 32) && reads_clear(op);
        if (clear_refused) { if (all_ok || later_step(op)) { want = 0; } }
        if (clear_refused && later_step(op)) { f.rights = [&](const std::string& k, sa_rights& rt) { if (k == which) { for (int i = 0; i < 5; i++) if (!(perm >> i & 1)) rt.usage_flags &= ~VF[i]; rt.usage_flags &= ~VF[5]; } }; }
        // a context whose key needs the protected path cannot take its first block from clear memory: made without it
        if (later_step(op) && !(perm & 32)) f.cipher(op.obj, false);
        fixture(f, op);
        if (!r.check(f.err.empty(), "%s", f.err.c_str())) return;
        if (!all_ok && !sym(which)) { f.release_all(); continue; } // unspecified for asymmetric keys
        if (fails) env::video_fails = true; else set_video(st, n);
        Args g; 
        if (later_step(op) && !(perm & 32)) { // position 0 of the context; only whether it is refused is compared
            Res q = op.run(f, g); r.transitions();
            if (want) { bool same_kind = !starts(op.name, "cipher-last-"); r.check(q.s == SA_STATUS_OK || !same_kind, "outputs %02x permitted %02x: %s refused with %s", st, perm, op.name.c_str(), sn(q.s)); }
            else r.check(q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "outputs %02x permitted %02x: %s gives %s", st, perm, op.name.c_str(), sn(q.s));
        } else if (clear_refused) { Res q = op.run(f, g); r.transitions(); r.check(q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "outputs %02x permitted %02x: %s gives %s", st, perm, op.name.c_str(), sn(q.s)); }
        else expect(r, f, op, want, strf("outputs %02x x%u permitted %02x", st, n, perm), [&] { env::video_fails = false; set_video(32, 0); }, st % 8 == perm % 8);
        env::video_fails = false; set_video(32, 0);
        f.release_all();
        r.traces(); r.nontrivial(hash(op.name + which) * 8192 + perm * 128 + st); r.state(st * 64 + perm); r.count(all_ok ? "output_permitted" : "output_refused");
    }
}
static void uuid_gate(Run& r, const Op& op, const std::string& which, bool ta, int cfg) {
    env::reset(); sa_uuid me = uuid_of(1); env::caller = me; Session s(ta, me);
    sa_uuid none; memset(&none, 0, sizeof none); sa_uuid all; memset(&all, 0xff, sizeof all);
    sa_rights rt0 = rights_all(); for (auto& u : rt0.allowed_tas) u = none;
    bool ok = false; std::string d;
    int pos[] = {0, 1, 15, 30, 31};
    if (cfg < 5) { rt0.allowed_tas[pos[cfg]] = me; ok = true; d = "listed at " + std::to_string(pos[cfg]); }
    else if (cfg < 10) { rt0.allowed_tas[pos[cfg - 5]] = all; ok = true; d = "all at " + std::to_string(pos[cfg - 5]); }
    else if (cfg == 10) d = "no application";
    else if (cfg == 11) { for (int i = 0; i < 32; i++) rt0.allowed_tas[i] = uuid_of(i + 2); d = "32 others"; }
    else if (cfg < 28) { int b = cfg - 12; rt0.allowed_tas[3] = me; rt0.allowed_tas[3].id[b] ^= b & 1 ? 0x80 : 0x01; d = "differs in byte " + std::to_string(b); }
    else if (cfg < 44) { int b = cfg - 28; rt0.allowed_tas[31] = all; rt0.allowed_tas[31].id[b] = 0xfe; d = "all but byte " + std::to_string(b); }
    else { for (int i = 0; i < 31; i++) rt0.allowed_tas[i] = uuid_of(i + 2); rt0.allowed_tas[31] = me; ok = true; d = "last of 32"; }
    {
        Fix f(s.A);
        f.rights = [&](const std::string& k, sa_rights& rt) { if (k == which) memcpy(rt.allowed_tas, rt0.allowed_tas, sizeof rt.allowed_tas); };
        if (later_step(op) && !ok) { r.check(f.cipher(op.obj) == INVALID_HANDLE, "%s: a context is made", d.c_str()); r.transitions(); }
        else {
            fixture(f, op);
            if (r.check(f.err.empty(), "%s", f.err.c_str())) {
                Args g; Res q = op.run(f, g); r.transitions();
                r.check(ok ? q.s == SA_STATUS_OK : q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "caller %s: %s gives %s", d.c_str(), op.name.c_str(), sn(q.s));
                if (!ok) r.check(q.created == INVALID_HANDLE, "refused and something created");
                drop_created(f, q);
            }
        }
        std::string e = f.release_all(); r.check(e.empty(), "%s", e.c_str());
    }
    r.traces(); r.nontrivial(hash(op.name + which) * 64 + cfg); r.count(ok ? "listed" : "not_listed");
}
// histories: the conditions change between the steps of one message; refused steps leave no trace in the result
static void history(Run& r, const std::string& cn, int len, unsigned code) {
    env::reset(); env::caller = uuid_of(1); Api A; Fix f(A);
    f.rights = [&](const std::string&, sa_rights& rt) { rt.not_before = T0 - 10; rt.not_on_or_after = T0 + 10; rt.usage_flags &= ~VF[2]; };
    env::now = T0; set_video(32, 0);
    CParam p = Fix::cparam_of(cn); sa_handle c = f.cipher(cn, false);
    if (!r.check(c != INVALID_HANDLE, "%s", f.err.c_str())) return;
    Bytes pt = pattern(16 * (len + 1), 5), st; { CParam q = p; q.enc = true; st = p.enc ? pt : c_raw(q, pt); }
    Bytes exp = c_raw(p, st), got; size_t pos = 0;
    for (int i = 0; i < len; i++) {
        int cond = code % 4; code /= 4; // bit 0: expired, bit 1: output not permitted
        env::now = cond & 1 ? T0 + 10 : T0; set_video(cond & 2 ? 32 | 4 : 32, 1);
        Bytes in = sub(st, pos, 16), out(16, 0xee); sa_buffer I = cbuf(in.data(), 16), O = cbuf(out.data(), 16); size_t m = 16;
        sa_status s = CALL(A, sa_crypto_cipher_process, &O, c, &I, &m); r.transitions();
        if (cond) { r.check(s == SA_STATUS_OPERATION_NOT_ALLOWED, "step %d with condition %d: %s", i, cond, sn(s)); r.check(out == Bytes(16, 0xee), "a refused step wrote output"); r.check(I.context.clear.offset == 0 && O.context.clear.offset == 0, "a refused step advanced an offset"); }
        else if (r.check(s == SA_STATUS_OK, "step %d: %s", i, sn(s))) { out.resize(m); got = cat({got, out}); pos += 16; }
        r.state((pos << 8) + cond);
    }
    r.check(got.size() <= exp.size() && std::equal(got.begin(), got.end(), exp.begin()), "the output differs from that of the message without the refused steps");
    env::now = T0; set_video(32, 0);
    f.release_all(); r.traces();
}
static void explore(Run& r) {
    static std::vector<Op> ops = build_ops();
    for (auto cn : {"ecb-enc", "ecb-dec", "cbc-enc", "cbc-dec", "ctr-enc", "ctr-dec", "gcm-enc", "chacha20-enc", "chacha20-poly1305-enc"}) {
        bool known = false; for (int a = 0; a < NCALG; a++) known |= std::string(CALGN[a]) == std::string(cn).substr(0, strlen(cn) - 4);
        if (!known) { r.fail("harness: %s", cn); continue; }
        int len = r.thorough ? 6 : 4; unsigned n = 1; for (int i = 0; i < len; i++) n *= 4;
        for (unsigned c = 0; c < n; c++) if (r.take("history %s %u", cn, c)) { r.nontrivial(c * 16 + strlen(cn)); history(r, cn, len, c); }
    }
    for (int ta = 0; ta < 2; ta++) for (auto& op : ops) {
        if (!gated(op)) continue;
        for (auto& k : gate_keys(op)) {
            if (r.stop()) return;
            for (auto& w : WIN) for (auto t : times()) {
                bool edge = t == w.nb || t + 1 == w.nb || t == w.na || t + 1 == w.na || t == T0;
                if (!r.thorough && (!edge || (ta && w.nb != T0 - 5 && w.nb != T0))) continue;
                if (r.take("time %s %s [%llu,%llu) %llu %s", op.name.c_str(), k.c_str(), (unsigned long long) w.nb, (unsigned long long) w.na, (unsigned long long) t, ta ? "trusted" : "client")) time_gate(r, op, k, ta, w, t);
            }
            for (int c = 0; c < 45; c++) if (!ta || r.thorough || c == 0 || c == 5 || c == 10) if (r.take("caller %s %s %d %s", op.name.c_str(), k.c_str(), c, ta ? "trusted" : "client")) uuid_gate(r, op, k, ta, c);
            for (int p = 0; p < 64; p++) {
                int bits = __builtin_popcount(p);
                if (!r.thorough && (ta || (bits > 1 && bits < 5))) continue;
                if (r.take("video %s %s %02x %s", op.name.c_str(), k.c_str(), p, ta ? "trusted" : "client")) video_gate(r, op, k, ta, p);
            }
        }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C09";
    s.rule = "Every operation that uses a key x each key it uses: 14 validity windows x the times on both sides of each bound and around 2^31 and 2^32; 45 lists of allowed applications (each position, none, all, near misses in each byte); video permissions (quick: none, one, all but one, all; thorough: all 64) x all 64 states of the outputs and the protected path x counts, and a failing poll. Later steps of ciphers are tried on a context made while allowed; after each refusal the objects are continued and the operation repeated under good conditions. All histories of 4 (thorough 6) steps with changing conditions. Non-trivial: distinct (operation, key, condition).";
    s.assumptions = {"whether an asymmetric key may be used with outputs it does not permit is not specified and not compared"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
