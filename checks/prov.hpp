// Driving the OpenSSL provider and the default provider of OpenSSL in lock-step.
#pragma once
#include "sah.hpp"
extern "C" {
#include "sa_provider.h"
}
#include <map>
#include <openssl/kdf.h>
#include <openssl/provider.h>
typedef std::shared_ptr<void> Hold;
static inline OSSL_LIB_CTX* sa_lib() { static OSSL_LIB_CTX* l = sa_get_provider(); return l; }
template <class T, class R> static inline T* prov_fetch(T* (*f)(OSSL_LIB_CTX*, const char*, const char*), bool sa, const char* name, R) {
    static std::map<std::pair<std::string, bool>, T*> m; T*& p = m[{name, sa}];
    if (!p) p = f(sa ? sa_lib() : nullptr, name, sa ? "provider=secapi3" : "provider=default");
    ERR_clear_error();
    return p;
}
#define FETCH(T, sa, name) prov_fetch<T>(T##_fetch, sa, name, 0)
static inline EVP_PKEY* first_of(EVP_PKEY* p) { return p; }

// how a symmetric key reaches a provider context
enum KeyMode { RAW, HANDLE, OWNED, NKM };
static const char* const KMN[] = {"bytes", "handle", "owned-handle"};
// parameters naming a key handle
struct KeyPar {
    sa_key h = INVALID_HANDLE; int del = 1; OSSL_PARAM p[6]; int n = 0;
    KeyPar() { p[0] = OSSL_PARAM_construct_end(); }
    KeyPar(sa_key k, bool owned) : h(k) { add(OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h)); if (owned) add(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del)); }
    KeyPar(const KeyPar&) = delete;
    void add(const OSSL_PARAM& q) { p[n++] = q; p[n] = OSSL_PARAM_construct_end(); }
    const OSSL_PARAM* get() const { return n ? p : nullptr; }
};
// key handles given to the provider during a case, and who is to release them
struct Keys {
    std::vector<std::pair<sa_key, bool>> k;
    sa_key make(const Bytes& b, bool owned) { sa_key h = import_sym(b, rights_all()); k.push_back({h, owned}); return h; }
    // after everything of the provider was freed: the caller's keys are alive (and released now), the provider's are gone
    void done(mc::Run& r) {
        for (size_t i = 0; i < k.size(); i++) { auto& e = k[i]; sa_header hd; bool again = false, alive = header_of(e.first, &hd);
            for (size_t j = i + 1; j < k.size(); j++) again = again || k[j].first == e.first;
            if (again) { r.check(e.second, "the handle of a key the caller owns was given out again"); continue; }
            if (e.second) r.check(!alive, "a key given to the provider is still alive after everything was freed");
            else r.check(alive, "a key the caller owns was released by the provider");
            if (alive) sa_key_release(e.first); }
        k.clear();
    }
};
// runs the body; when it leaves allocated blocks behind, again, to tell caches from leaks
template <class F> static void leakfree(mc::Run& r, F body) {
    ERR_clear_error();
    uint64_t f0 = r.failures();
    int64_t l[4];
    auto go = [&]() { env::live_track = env::crypto_track = true; body(); ERR_clear_error(); env::live_track = env::crypto_track = false; return env::live_allocs; };
    env::live_reset();
    l[0] = go();
    if (l[0] <= 0 || r.failures() != f0) return;
    for (int i = 0; i < 4; i++) { l[i] = go(); if (r.failures() != f0 || (i && l[i] <= l[i - 1])) return; }
    r.fail("%lld blocks leak each time this is done", (long long) (l[3] - l[2]));
}
