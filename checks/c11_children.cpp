// C11: rights of keys derived, exchanged or unwrapped from another key.
#include "gates.hpp"
using namespace mc;
static const uint64_t OUT = 0x1fc0, USE = 0x3f; // output protections (bits 6-12), key usage (bits 0-5)
static uint64_t B(int b) { return 1ull << b; }
struct Par { uint64_t usage, child; };
static uint64_t expected(uint64_t asked, const Par& p, uint64_t& must_not) { // what the child may do
    must_not |= ~p.usage & OUT;
    if (!(p.usage & USE & ~B(FL_UNWRAP)) && p.child != 0) must_not |= ~p.child & USE; // key-only parent with child usage
    return asked & ~must_not;
}
static sa_rights request(uint64_t usage, int form) {
    sa_rights r = rights_all(); memset(r.id, 0, sizeof r.id); r.usage_flags = usage; r.child_usage_flags = 0;
    switch (form) {
        case 0: strcpy(r.id, "child"); break;
        case 1: memset(r.id, 'z', 63); r.child_usage_flags = ~0ull; r.not_before = 5; r.not_on_or_after = 4; break; // a window that never opens
        case 2: r.child_usage_flags = 0x2a; r.not_before = UINT64_MAX; memset(r.allowed_tas, 0, sizeof r.allowed_tas); break;
        case 3: r.id[0] = 'x'; for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++) for (int j = 0; j < 16; j++) r.allowed_tas[i].id[j] = (uint8_t) (i * 16 + j); r.not_on_or_after = 1; r.child_usage_flags = B(63); break;
    }
    return r;
}
// one parent, many requests
static void family(Run& r, const Op& op, const std::string& which, const Par& p, const std::vector<std::pair<uint64_t, int>>& reqs) {
    env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session s(true, uuid_of(1)); Api& A = s.A;
    Fix f(A); f.rights = [&](const std::string& n, sa_rights& rt) { rt.child_usage_flags = 0; if (n == which) { rt.usage_flags = p.usage; rt.child_usage_flags = p.child; } };
    fixture(f, op);
    if (!r.check(f.err.empty(), "%s", f.err.c_str())) return;
    Args none;
    for (auto& q : reqs) {
        sa_rights ask = request(q.first, q.second); child_request = &ask; Res x = op.run(f, none); child_request = nullptr; r.transitions();
        if (!r.check(x.s == SA_STATUS_OK, "%s: %s", op.name.c_str(), sn(x.s))) return;
        uint64_t never = 0, want = expected(ask.usage_flags, p, never);
        for (sa_handle k : {x.created, x.created2, x.created3}) if (k != INVALID_HANDLE) {
            sa_header h; if (!r.check(CALL(A, sa_key_header, &h, k) == SA_STATUS_OK, "header")) continue;
            r.check(h.rights.usage_flags == want, "%s: parent %s usage %llx child usage %llx, asked %llx: child may %llx, expected %llx", op.name.c_str(), which.c_str(), (unsigned long long) p.usage, (unsigned long long) p.child, (unsigned long long) q.first, (unsigned long long) h.rights.usage_flags, (unsigned long long) want);
            sa_rights g = h.rights; g.usage_flags = ask.usage_flags; r.check(!memcmp(&g, &ask, sizeof g), "%s: form %d: rights other than the usage differ from those asked", op.name.c_str(), q.second);
            rel(A, K_KEY, k); r.state(h.rights.usage_flags);
        }
        if (r.failures()) break;
    }
    f.release_all(); r.traces();
}
// a grandchild never regains what its grandparent lacks
static void chain(Run& r, const Op& a, const Op& b, uint64_t outs) {
    env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session s(true, uuid_of(1)); Api& A = s.A; Args none;
    Fix f(A); f.rights = [&](const std::string&, sa_rights& rt) { rt.usage_flags = (rt.usage_flags & ~OUT) | outs; };
    fixture(f, a); sa_rights ask = request(~0ull, 0); child_request = &ask; Res x = a.run(f, none); r.transitions();
    if (r.check(f.err.empty() && x.s == SA_STATUS_OK, "%s: %s", a.name.c_str(), sn(x.s))) {
        // the child takes the place of the parent of the second operation
        Fix g(A); sa_header h; CALL(A, sa_key_header, &h, x.created);
        if (h.type == SA_KEY_TYPE_SYMMETRIC) {
            sa_kdf_parameters_hkdf hp = {16, SA_DIGEST_ALGORITHM_SHA256, x.created, nullptr, 0, nullptr, 0}; sa_kdf_parameters_concat cp = {16, SA_DIGEST_ALGORITHM_SHA256, x.created, nullptr, 0}; sa_kdf_parameters_ansi_x963 xp = {16, SA_DIGEST_ALGORITHM_SHA256, x.created, nullptr, 0};
            sa_handle k = INVALID_HANDLE; sa_status q = b.name == "derive-hkdf" ? CALL(A, sa_key_derive, &k, &ask, SA_KDF_ALGORITHM_HKDF, &hp) : b.name == "derive-concat" ? CALL(A, sa_key_derive, &k, &ask, SA_KDF_ALGORITHM_CONCAT, &cp) : CALL(A, sa_key_derive, &k, &ask, SA_KDF_ALGORITHM_ANSI_X963, &xp); r.transitions();
            if (r.check(q == SA_STATUS_OK, "second derivation: %s", sn(q))) { sa_header h2; CALL(A, sa_key_header, &h2, k); r.check((h2.rights.usage_flags & OUT) == outs, "%s then %s: outputs %llx, grandparent %llx", a.name.c_str(), b.name.c_str(), (unsigned long long) (h2.rights.usage_flags & OUT), (unsigned long long) outs); rel(A, K_KEY, k); }
        }
    }
    child_request = nullptr; for (auto k : {x.created, x.created2, x.created3}) if (k != INVALID_HANDLE) rel(A, K_KEY, k);
    f.release_all(); r.traces();
}
static void explore(Run& r) {
    auto ops = build_ops(); std::vector<const Op*> v;
    for (auto& o : ops) if ((o.flag == FL_DERIVE || o.flag == FL_EXCHANGE || o.flag == FL_UNWRAP) && (starts(o.name, "derive") || starts(o.name, "exchange") || starts(o.name, "unwrap"))) v.push_back(&o);
    for (auto* o : v) for (auto& n : needs(*o)) {
        bool slow = starts(o->name, "exchange") || o->name.find("rsa") != std::string::npos || o->name.find("ec") != std::string::npos || o->name.find("elg") != std::string::npos;
        // usage of the parent beside the flag needed, with every set of output protections
        std::vector<uint64_t> use; for (int b = -1; b < 6; b++) if (b != n.flag) use.push_back(B(n.flag) | (b < 0 ? 0 : B(b))); use.push_back(USE);
        std::vector<uint64_t> masks; for (uint64_t m = 0; m < 128; m++) if (r.thorough || !slow || __builtin_popcountll(m) <= 1 || __builtin_popcountll(m) >= 6) masks.push_back(m << 6);
        for (size_t u = 0; u < use.size(); u++) for (size_t c = 0; c < masks.size(); c += 8) {
            if (r.stop()) return;
            if (!r.take("%s %s use %zu outputs %zu", o->name.c_str(), n.key.c_str(), u, c)) continue;
            for (size_t i = c; i < c + 8 && i < masks.size(); i++) for (uint64_t child : {0ull, 0x15ull, ~0ull}) {
                if (child && i % 8 && !r.thorough) continue;
                std::vector<std::pair<uint64_t, int>> q = {{~0ull, 0}, {0x3fff, 1}, {0, 2}, {masks[i] | B(FL_SIGN), 3}};
                if (r.thorough || i % 4 == 0) for (int b = 0; b < 14; b++) { q.push_back({B(b), 0}); q.push_back({0x3fff & ~B(b), b & 3}); }
                r.nontrivial(hash(r.current()) + i * 4 + (child & 3)); family(r, *o, n.key, {use[u] | masks[i] | (i & 1 ? B(FL_CACHEABLE) : 0), child}, q);
            }
        }
        if (n.flag != FL_UNWRAP) continue;
        // parents that may only unwrap: every usage of children
        for (uint64_t c = 0; c < 64; c += 4) for (int hi = 0; hi < 2; hi++) {
            if (r.stop()) return;
            if (!r.take("%s unwrap only child usage %llu %d", o->name.c_str(), (unsigned long long) c, hi)) continue;
            for (uint64_t k = c; k < c + 4; k++) for (uint64_t m : {0ull, 127ull, 64ull, 63ull, 42ull}) {
                std::vector<std::pair<uint64_t, int>> q = {{~0ull, 0}, {0x3fff, 1}, {0, 2}, {0x3f, 3}}; if (!slow || r.thorough) for (int b = 0; b < 14; b++) q.push_back({B(b), 0});
                r.nontrivial(hash(r.current()) + k * 8 + (m & 7)); family(r, *o, n.key, {B(FL_UNWRAP) | m << 6 | (k & 1 ? B(FL_CACHEABLE) : 0), k | (hi ? ~0x3full : 0)}, q);
            }
        }
    }
    for (auto* a : v) for (auto* b : v) if (b->name == "derive-hkdf" || b->name == "derive-concat" || b->name == "derive-x963") for (uint64_t m = 0; m < 128; m++) {
        if (!r.thorough && m % 9) continue;
        if (r.stop()) return;
        if (r.take("chain %s %s %llx", a->name.c_str(), b->name.c_str(), (unsigned long long) m)) { r.nontrivial(hash(r.current())); chain(r, *a, *b, m << 6); }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C11";
    s.rule = "For every derivation, exchange and unwrapping and each parent key: every usage of the parent of at most two flags, and all flags, with every set of its seven output protections (slow algorithms: sets missing or holding at most one), and for parents that only unwrap every set of child usage flags; for each, requests of all rights, none, every single flag and all but one flag, with four forms of the other rights. The whole rights of every key created are compared with the rule. Chains of two operations. Non-trivial: distinct parents.";
    s.assumptions = {"rights are read back with sa_key_header, whose truth is C28 and whose enforcement is C08 and C09"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
