// C07: running out of memory. Every operation of the catalogue, on the client and on the trusted API, with the k-th allocation
// failing for every k the operation performs (also: every allocation from the k-th on), in the code's own allocator and in the
// allocator of the crypto library it calls.
#include "ops.hpp"
using namespace mc;
static bool hooked = env::crypto_alloc_hook();
enum Mode { OWN, OWN_ALL, LIB };
static const char* MODEN[] = {"allocation", "allocations from", "crypto library allocation"};
static void prepare(Fix& f, const Op& op) {
    f.key("aes"); f.key("hm"); f.cipher("cbc-enc"); f.mac("hmac"); f.svp("svpB");
    for (auto& n : op.uses) { if (n.compare(0, 3, "svp") == 0) f.svp(n); else if (n == "hmac" || n == "cmac") f.mac(n); else if (n.find('-') != std::string::npos) f.cipher(n); else f.key(n); }
}
static void arm(Mode m, uint64_t k) {
    env::crypto_alloc_hook(); // opening the first session replaces the allocator
    env::alloc_armed = m != LIB; env::crypto_armed = m == LIB;
    env::alloc_failed = env::crypto_failed = false; env::alloc_count = env::crypto_count = 0;
    env::alloc_fail_at = env::crypto_fail_at = k; env::alloc_fail_all = m == OWN_ALL;
}
static void disarm() { env::alloc_armed = env::crypto_armed = false; }
// number of allocations of an operation and its result
struct Ref { uint64_t n[2]; Res res; };
static Ref reference(const Op& op, bool ta) {
    Ref ref{};
    for (int m = 0; m < 2; m++) for (int warm = 0; warm < 2; warm++) {
        env::reset(); env::caller = uuid_of(1);
        Api A; A.ta = ta; A.u = uuid_of(1);
        if (ta) ta_sa_init(&A.c, &A.u);
        { Fix f(A); prepare(f, op); Args g; arm(m ? LIB : OWN, 0); ref.res = op.run(f, g); ref.n[m] = m ? env::crypto_count : env::alloc_count; disarm(); drop_created(f, ref.res); f.release_all(); }
        if (ta) ta_sa_close(A.c, &A.u);
    }
    return ref;
}
static void one(Run& r, const Op& op, bool ta, Mode mode, uint64_t k, const Ref& ref) {
    env::reset(); env::caller = uuid_of(1);
    Api A; A.ta = ta; A.u = uuid_of(1);
    if (ta && !r.check(ta_sa_init(&A.c, &A.u) == SA_STATUS_OK, "session not opened")) return;
    {
        Fix f(A); prepare(f, op);
        if (!f.err.empty()) { r.fail("%s", f.err.c_str()); return; }
        Args g; g.sites.reserve(64);
        arm(mode, k);
        Res res = op.run(f, g);
        bool failed = env::alloc_failed || env::crypto_failed;
        disarm();
        r.transitions();
        if (res.s == SA_STATUS_OK) {
            if (!op.random) r.check(res.out == ref.res.out, "reports success with a different result after %s %llu failed", MODEN[mode], (unsigned long long) k);
            else if (res.created != INVALID_HANDLE) { sa_header h; Bytes id; r.check(f.describe(res.created, &h, &id), "reports success with an unusable key"); }
            drop_created(f, res); r.count("succeeded");
            std::string e = f.intact(op.uses);
            r.check(e.empty(), "after %s %llu failed: %s", MODEN[mode], (unsigned long long) k, e.c_str());
        } else {
            r.count("reported"); r.nontrivial(hash(op.name) * 1000003 + k * 8 + mode * 2 + ta);
            r.check(failed, "refused with %s although no allocation failed", sn(res.s));
            if (res.created != INVALID_HANDLE || res.created2 != INVALID_HANDLE || res.created3 != INVALID_HANDLE)
                for (auto h : {res.created, res.created2, res.created3}) if (h != INVALID_HANDLE) r.check(rel(A, res.ck, h) != SA_STATUS_OK, "an error was reported but the handle returned works");
            std::string e = f.intact(op.obj);
            r.check(e.empty(), "after %s %llu failed: %s", MODEN[mode], (unsigned long long) k, e.c_str());
            // now with memory available, over a fresh copy of the object the operation works on
            Args h; h.sites.reserve(64);
            Res again = op.run(f, h);
            r.transitions();
            if (mode == LIB && again.s != SA_STATUS_OK && op.name.compare(0, 12, "mac-compute-") == 0) r.count("message_ended"); // the failed computation ended the message
            else r.check(again.s == SA_STATUS_OK, "refused (%s) after the failed call although memory is available again", sn(again.s));
            if (again.s == SA_STATUS_OK && !op.random) r.check(again.out == ref.res.out, "the repeated call gives a different result");
            drop_created(f, again);
        }
        r.state(hash(op.name) * 31 + k * 16 + mode * 4 + ta * 2 + (res.s == SA_STATUS_OK));
        int have[4] = {};
        for (auto& x : f.o) have[x.second.kind]++;
        bool kinds[4] = {}; kinds[res.ck] = true;
        for (auto& n : op.uses) if (f.o.count(n)) kinds[f.o[n].kind] = true;
        if (res.s != SA_STATUS_OK && mode != LIB) for (int q = 0; q < 4; q++) if (kinds[q]) {
            int n = slots_free(A, (Kind) q, f.o.count("aes") ? f.o["aes"].h : 0);
            r.check(n == 256 - have[q], "after %s %llu failed %d %s slots are free, %d expected", MODEN[mode], (unsigned long long) k, n, KINDN[q], 256 - have[q]);
        }
        std::string e = f.release_all();
        r.check(e.empty(), "after %s %llu failed: %s", MODEN[mode], (unsigned long long) k, e.c_str());
        r.traces();
    }
    if (ta) r.check(ta_sa_close(A.c, &A.u) == SA_STATUS_OK, "the session does not close");
}
// opening and closing a session
static void session(Run& r, Mode mode, uint64_t k) {
    env::reset(); Api A; A.ta = true; A.u = uuid_of(1);
    arm(mode, k); env::in_call = true;
    sa_status s = ta_sa_init(&A.c, &A.u);
    env::in_call = false; bool failed = env::alloc_failed; disarm();
    r.transitions();
    if (s != SA_STATUS_OK) { r.count("reported"); r.check(failed, "open refused although no allocation failed"); r.check(ta_sa_close(A.c, &A.u) != SA_STATUS_OK, "the handle of a failed open works"); r.check(ta_sa_init(&A.c, &A.u) == SA_STATUS_OK, "no session can be opened any more"); }
    Fix f(A); f.key("aes"); f.cipher("ctr-enc"); f.mac("cmac"); f.svp("svpA");
    r.check(f.err.empty(), "%s", f.err.c_str());
    std::string e = f.intact(); r.check(e.empty(), "%s", e.c_str());
    f.release_all();
    arm(mode, k); env::in_call = true; s = ta_sa_close(A.c, &A.u); env::in_call = false; disarm();
    if (s != SA_STATUS_OK) r.check(ta_sa_close(A.c, &A.u) == SA_STATUS_OK, "the session cannot be closed");
    r.traces();
}
static void explore(Run& r) {
    static std::vector<Op> ops = build_ops();
    for (uint64_t k = 1; k <= 60; k++) for (auto m : {OWN, OWN_ALL}) if (r.take("session %s %llu", MODEN[m], (unsigned long long) k)) session(r, m, k);
    for (int ta = 0; ta < 2; ta++)
        for (auto& op : ops) {
            if (!r.own_group("%s", op.name.c_str())) continue;
            Ref ref = reference(op, ta);
            for (int m = 0; m < 3; m++) {
                uint64_t n = ref.n[m == LIB];
                r.count(m == LIB ? "library_allocations" : m == OWN ? "own_allocations" : "ignore", n);
                if (m == LIB && !ta && !r.thorough) continue; // the client only adds a copy of the request
                for (uint64_t k = 1; k <= n; k++) {
                    if (r.stop()) return;
                    if (m == LIB && !r.thorough && k > 60) { r.count("library_points_left_to_thorough"); continue; }
                    if (r.take_owned("%s %s %s %llu", ta ? "trusted" : "client", op.name.c_str(), MODEN[m], (unsigned long long) k)) one(r, op, ta, (Mode) m, k, ref);
                }
            }
        }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C07";
    s.rule = "Every operation of the catalogue (all API functions, all algorithms) and opening a session, on the client API and on the trusted API, with the k-th allocation failing for every k the operation performs, with all allocations from the k-th on failing, and with the k-th allocation of the crypto library failing (quick: the first 60 of them, trusted API). Afterwards the call is repeated with memory, all objects are continued, counted and released and the session closed. Non-trivial: distinct (operation, k) where the failure was reported.";
    s.assumptions = {"objects a failed cipher or MAC call was working on may have consumed its input only if the call succeeded", "a MAC whose final computation failed inside the crypto library has ended"};
    s.explore = explore; s.setup = [](Run& r) { if (!hooked) r.fail("crypto allocator"); sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
