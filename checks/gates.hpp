// Which key of an operation of the catalogue needs which usage flag.
#pragma once
#include "ops.hpp"
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool ends(const std::string& s, const char* p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }
struct Need { std::string key; int flag; };
static inline std::vector<Need> needs(const Op& op) {
    std::vector<Need> v;
    if (op.flag < 0) return v;
    v.push_back({op.key, op.flag});
    if (starts(op.name, "import-typej")) v.push_back({"kh", FL_SIGN});
    if (op.name == "derive-netflix") v.push_back({"kh", FL_DERIVE});
    if (op.name == "exchange-netflix-dh") v.push_back({"kc", FL_DERIVE});
    return v;
}
// continues a cipher context made earlier
static inline bool later_step(const Op& op) { return starts(op.name, "cipher-process-") || starts(op.name, "cipher-last-") || starts(op.name, "cenc-"); }
static inline bool clear_out(const Op& op) { return later_step(op) && !ends(op.name, "-svp"); }
static inline bool sym(const std::string& k) { return k != "rsa" && k != "ec" && k != "x255" && k != "ed" && k != "dh"; }
static inline void fixture(Fix& f, const Op& op) {
    for (auto& n : op.uses) { if (n.compare(0, 3, "svp") == 0) f.svp(n); else if (n == "hmac" || n == "cmac") f.mac(n); else if (n.find('-') != std::string::npos) f.cipher(n); else f.key(n); }
}
// what a refused call may not change
static inline bool created_any(const Res& r) { return r.created != INVALID_HANDLE || r.created2 != INVALID_HANDLE || r.created3 != INVALID_HANDLE; }
struct Session { // a client API or a trusted session of its own
    Api A; bool open = true;
    Session(bool ta, sa_uuid u) { A.ta = ta; A.u = u; if (ta) open = ta_sa_init(&A.c, &A.u) == SA_STATUS_OK; }
    ~Session() { if (A.ta && open) ta_sa_close(A.c, &A.u); }
};
