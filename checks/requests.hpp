// Requests as the client library makes them, recorded before the trusted side sees them.
#pragma once
#include "gates.hpp"
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <unistd.h>
#include "sa_ta_types.h"
extern "C" { sa_status ta_open_session_handler(void** session_context); void ta_close_session_handler(void* session_context); }
using mc::strf;
static bool k_in(uint32_t t) { return t == 5 || t == 13; }
static bool k_mem(uint32_t t) { return t == 5 || t == 6 || t == 7 || t == 13 || t == 14 || t == 15; }
// memory behind protected buffers: blocks with forbidden memory around them
alignas(4096) static uint8_t SVPMEM[16 * 256]; static int nsvp;
static uint8_t* svp_take(size_t n) { uint8_t* p = SVPMEM + 256 * (nsvp++ % 16) + 96; ASAN_UNPOISON_MEMORY_REGION(p, n); return p; }
static void svp_give(uint8_t*) {}
static void svp_reset() { nsvp = 0; ASAN_POISON_MEMORY_REGION(SVPMEM, sizeof SVPMEM); }
static uint8_t* wild; // memory of nobody
struct Par { uint32_t type; bool null; Bytes data; uint64_t size; };      // size: what the request says
struct Req { void* session = nullptr; uint32_t cmd = 0; Par p[4]; };
struct Base { const Op* op; int k; std::string name; Req q; };
// ---- capturing: the k-th request of an operation is recorded and not passed on, the ones before it are
static void* session; // ours: requests of the client library are sent on it
static sa_status ours(void*, uint32_t c, const uint32_t* t, void* p) { return env::real_command(session, c, t, p); }
static Req cap; static int cap_at, cap_n; static bool cap_done;
static sa_status capture(void*, uint32_t c, const uint32_t* t, void* pp) {
    void* s = session;
    if (cap_n++ != cap_at || cap_done) return cap_done ? SA_STATUS_INTERNAL_ERROR : env::real_command(s, c, t, pp);
    cap_done = true; cap.session = s; cap.cmd = c; ta_param* p = (ta_param*) pp;
    for (int i = 0; i < 4; i++) { Par& x = cap.p[i]; x.type = t[i]; x.null = !p[i].mem_ref; x.size = p[i].mem_ref_size; x.data.clear(); if (!x.null) x.data.assign((uint8_t*) p[i].mem_ref, (uint8_t*) p[i].mem_ref + p[i].mem_ref_size); }
    return SA_STATUS_INTERNAL_ERROR;
}
static Api API() { Api a; a.ta = false; a.u = uuid_of(1); return a; }
struct State { Api A = API(); std::unique_ptr<Fix> f; const Op* op = nullptr; int k = -1; sa_handle probe = INVALID_HANDLE; };
static State ST;
static void clean() { if (session) ta_close_session_handler(session); session = nullptr; ST.f.reset(); ST.op = nullptr; sa_status s = ta_open_session_handler(&session); if (s) { fprintf(stderr, "ERROR: no session can be opened: %s\n", sn(s)); _Exit(99); } env::on_command = ours; }
static void provision(int which);
static bool prepare(const Op* op, int k) { // the state before the k-th request of op; fills cap
    clean(); svp_reset(); env::reset(); env::caller = uuid_of(1); env::rand_state = 4711; env::restrict_svp = true; env::svp_lo = (uintptr_t) SVPMEM; env::svp_hi = env::svp_lo + sizeof SVPMEM;
    ST.f.reset(new Fix(ST.A)); fixture(*ST.f, *op); if (!ST.f->err.empty()) { fprintf(stderr, "ERROR: %s: %s\n", op->name.c_str(), ST.f->err.c_str()); _Exit(99); }
    cap_at = k; cap_n = 0; cap_done = false; env::on_command = capture; Args g; g.sites.reserve(64); op->run(*ST.f, g); env::on_command = ours;
    ST.op = op; ST.k = k; return cap_done;
}
static bool structured(const Req& q, int i) { // the parameter is a structure rather than data
    if (i == 0) return true; if (q.p[i].null) return false; size_t n = q.p[i].data.size();
    switch (q.cmd) { case SA_KEY_IMPORT: return i == 2; case SA_KEY_PROVISION_TA: return i > 1; case SA_KEY_UNWRAP: return i == 2; case SA_KEY_DERIVE: return i == 1; case SA_KEY_EXCHANGE: return i == 2; case SA_CRYPTO_CIPHER_INIT: return i == 1 && n == 8;
        case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: return n == 8; case SA_SVP_BUFFER_WRITE: return i == 2; case SA_SVP_BUFFER_COPY: return i == 1; case SA_SVP_KEY_CHECK: return n == 8 && i == 1; case SA_PROCESS_COMMON_ENCRYPTION: return i == 1 || n == 8; }
    return false;
}
static std::vector<Op> OPS; static std::vector<Base> BASES;
static Op provision_op(int which) {
    Op o; o.name = strf("provision-%d", which); o.flag = -1; o.run = [which](Fix& f, Args&) {
        Res r; static Bytes d, c; Soc s; d = s.make(); c = pattern(40, 3); sa_import_parameters_soc p; memset(&p, 0, sizeof p); p.length[0] = sizeof p >> 8; p.length[1] = sizeof p & 255; p.version = 3; p.object_id = 0x0102030405060708ULL; p.default_rights = child_rights();
        WidevineOemProvisioning w = {(unsigned) d.size(), d.data(), (unsigned) c.size(), c.data()}; PlayReadyProvisioning y = {PLAYREADY_MODEL_2K, (unsigned) d.size(), d.data(), (unsigned) c.size(), c.data()}; NetflixProvisioning n = {(unsigned) d.size(), d.data(), (unsigned) d.size(), d.data(), (unsigned) c.size(), c.data()};
        if (which == 0) r.s = sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &w, sizeof w, &p); else if (which == 1) r.s = sa_key_provision_ta(PLAYREADY_MODEL_PROVISIONING, &y, sizeof y, &p); else if (which == 2) r.s = sa_key_provision_ta(NETFLIX_PROVISIONING, &n, sizeof n, &p); else r.s = sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &w, sizeof w, nullptr);
        (void) f; return r; };
    return o;
}
static void requests_setup() {
    sah_setup(); env::reset(); env::caller = uuid_of(1); wild = (uint8_t*) mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); svp_alloc = svp_take; svp_free = svp_give;
    OPS = build_ops(); for (int i = 0; i < 4; i++) OPS.push_back(provision_op(i));
    for (auto& op : OPS) for (int k = 0; k < 8; k++) { if (!prepare(&op, k)) break; bool dup = false; for (auto& o : BASES) { bool same = k && o.q.cmd == cap.cmd; for (int i = 0; i < 4; i++) same &= o.q.p[i].type == cap.p[i].type && o.q.p[i].size == cap.p[i].size; dup |= same; } if (dup) continue; BASES.push_back({&op, k, k ? op.name + strf(" request %d", k + 1) : op.name, cap}); }
    clean();
}
