// C08: usage flags. Every operation that uses a key x all 128 combinations of key usage and cacheable flags of each key it
// uses x child usage flags, on both APIs, against the table flag <-> operation; every encryption context on the operations that decrypt.
#include "gates.hpp"
using namespace mc;
static const int BITS[] = {SA_USAGE_FLAG_KEY_EXCHANGE, SA_USAGE_FLAG_DERIVE, SA_USAGE_FLAG_UNWRAP, SA_USAGE_FLAG_ENCRYPT, SA_USAGE_FLAG_DECRYPT, SA_USAGE_FLAG_SIGN, SA_USAGE_FLAG_CACHEABLE};
static uint64_t flags_of(int m, bool output) { uint64_t f = output ? OUT_FLAGS : 0; for (int i = 0; i < 7; i++) if (m >> i & 1) f |= F(BITS[i]); return f; }
static bool has(int m, int flag) { for (int i = 0; i < 7; i++) if (BITS[i] == flag) return m >> i & 1; return false; }
// one operation with the given flags of one of its keys; the other keys may do everything
static void one(Run& r, const Op& op, bool ta, const std::string& which, int flag, int mask, int child) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1));
    {
        Fix f(s.A);
        f.rights = [&](const std::string& n, sa_rights& rt) { if (n == which) { rt.usage_flags = flags_of(mask, true); rt.child_usage_flags = child == 0 ? 0 : child == 1 ? ALL_FLAGS : ~rt.usage_flags & ALL_FLAGS; } };
        bool want = flag < 0 || has(mask, flag);
        if (later_step(op) && !want) { // the context cannot even be made
            sa_handle c = f.cipher(op.obj); r.transitions();
            r.check(c == INVALID_HANDLE, "a context for %s is made without flag %d (flags %x)", op.name.c_str(), flag, mask);
        } else {
            fixture(f, op);
            if (!r.check(f.err.empty(), "%s with flags %x", f.err.c_str(), mask)) return;
            Args g; Res q = op.run(f, g); r.transitions();
            if (want) r.check(q.s == SA_STATUS_OK, "%s refused with %s although flag %d of key %s is set (flags %x child %d)", op.name.c_str(), sn(q.s), flag, which.c_str(), mask, child);
            else if (r.check(q.s == SA_STATUS_OPERATION_NOT_ALLOWED, "%s without flag %d of key %s (flags %x child %d): %s", op.name.c_str(), flag, which.c_str(), mask, child, sn(q.s))) {
                r.check(!created_any(q) || q.created == INVALID_HANDLE, "a refused operation created something");
                if (mask % 16 == 3) { std::string e = f.intact(); r.check(e.empty(), "after a refused call: %s", e.c_str()); }
            }
            r.count(want ? "allowed" : "refused");
            drop_created(f, q);
        }
        f.release_all();
    }
    r.traces(); r.nontrivial(hash(op.name + which) * 1024 + mask * 4 + child); r.state(hash(op.name) * 2 + has(mask, flag));
}
// contexts made for encryption never decrypt, and the other way round
static void mode(Run& r, int alg, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1));
    Fix f(s.A);
    for (int enc = 0; enc < 2; enc++) {
        std::string n = std::string(CALGN[alg]) + (enc ? "-enc" : "-dec"); CParam p = Fix::cparam_of(n);
        f.rights = [&](const std::string&, sa_rights& rt) { rt.usage_flags = OUT_FLAGS | F(enc ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT); };
        sa_handle c = f.cipher(n);
        if (!r.check(c != INVALID_HANDLE, "%s", f.err.c_str())) return;
        if (enc || (alg != CBC && alg != CTR)) for (int pat = 0; pat < 2; pat++) for (int b = 0; b < 2; b++) { // common encryption with an encryption context or an unsuitable algorithm
            Arena a; uint8_t *ip = a.in(pattern(64, 3)), *op = a.out(64); sa_buffer I = cbuf(ip, 64), O = cbuf(op, 64); if (b) O = sbuf(f.svp("svpB"));
            sa_subsample_length ss = {0, 64}; sa_sample sm; memset(&sm, 0, sizeof sm); uint8_t iv[16] = {1}; sm.iv = iv; sm.iv_length = 16; sm.crypt_byte_block = pat; sm.skip_byte_block = pat; sm.subsample_count = 1; sm.subsample_lengths = &ss; sm.context = c; sm.in = &I; sm.out = &O;
            sa_status st = CALL(s.A, sa_process_common_encryption, 1, &sm); r.transitions();
            r.check(st != SA_STATUS_OK, "common encryption with a %s context succeeds", n.c_str());
            for (int i = 0; i < 64; i++) if (op[i] != 0xee) { r.fail("common encryption with a %s context wrote output", n.c_str()); break; }
        }
        // the other direction needs the other flag
        sa_handle h; Args none; sa_status st = f.cinit_(none, &h, [&] { CParam q = p; q.enc = !enc; return q; }(), f.o[Fix::ckey(n)].h); r.transitions();
        r.check(st == SA_STATUS_OPERATION_NOT_ALLOWED, "a key for %s only: the other direction gives %s", enc ? "encryption" : "decryption", sn(st));
        std::string e = f.intact(); r.check(e.empty(), "%s", e.c_str());
        f.release_all();
    }
    r.traces();
}
static void explore(Run& r) {
    static std::vector<Op> ops = build_ops();
    for (int ta = 0; ta < 2; ta++) {
        for (int a = 0; a < NCALG; a++) if (r.take("mode %s %d", CALGN[a], ta)) mode(r, a, ta);
        for (auto& op : ops) {
            std::vector<Need> v = needs(op);
            bool free_use = op.flag < 0 && op.key.size() && op.obj.empty() && !starts(op.name, "mac-"); // header, public part, digest: no flag needed
            if (free_use || starts(op.name, "mac-process-key")) v.push_back({op.key, -1});
            if (starts(op.name, "cipher-iv-")) continue;
            for (auto& n : v) for (int m = 0; m < 128; m++) for (int c = 0; c < 3; c++) {
                if (r.stop()) return;
                if (ta && !r.thorough && (c || (m & (m - 1)) && (~m & 127 & ((~m & 127) - 1)))) continue; // trusted API in quick: one flag set, one flag missing
                if (later_step(op) && c && !r.thorough) continue;
                if (r.take("%s %s flags%02x child%d %s", op.name.c_str(), n.key.c_str(), m, c, ta ? "trusted" : "client")) one(r, op, ta, n.key, n.flag, m, c);
            }
        }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C08";
    s.rule = "Every operation of the catalogue that uses a key (all algorithms and key types) x each key it uses x all 128 combinations of the six key usage flags and cacheable x child usage none, all, or the complement of the own flags; client API, and trusted API (quick: with one flag set or one flag missing). Also every context of each cipher with the operations of the other direction. Non-trivial: distinct (operation, key, flags, child flags).";
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
