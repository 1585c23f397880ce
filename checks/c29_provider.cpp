// C29: the OpenSSL provider in lock-step with OpenSSL's own.
#include "prov.hpp"
#include <map>
#include "prov_sym.hpp"
#include "prov_pkey.hpp"
using namespace mc;
static void explore(Run& r) {
    ciphers(r); macs(r); mac_fresh(r); digests(r); pkeys(r);
}
int main(int argc, char** argv) {
    Spec s; s.property = "C29";
    env::crypto_alloc_hook();
    s.rule = "each call of the provider next to the same call of the default provider of OpenSSL: ciphers, MACs and digests over every split of the data into three pieces and every sequence of calls (init, update, re-key, duplicate, final) up to a depth; signatures with every digest, padding, salt and mask, copied at each point; RSA encryption with every digest, mask and label; key agreement, key derivation and key lifetimes over every sequence of calls up to a depth; keys given as bytes, DER, handle and owned handle; after each case no block leaks, handles of the caller are alive and those of the provider are gone; a case is one configuration and sequence";
    s.assumptions = {"OpenSSL's default provider is the software implementation compared with", "a digest must be set before signing a digest", "calls that OpenSSL 3.0.13 itself does not support on a duplicated context (starting another operation, setting a peer) are left out", "DH keys are not explored"};
    s.setup = [](Run& r) { sah_setup(); env::reset(); sa_key k = import_sym(pattern(16), rights_all()); sa_key_release(k); env::crypto_alloc_hook(); sa_lib(); };
    s.explore = explore;
    return mc::main(argc, argv, s);
}
