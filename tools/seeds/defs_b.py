T = "taimpl/src/"
SEEDS = [
dict(id="key-appended", property="C13", edits=[(T + "internal/key_store.c", """    if (exported_length != required_exported_length) {""", """    if (exported_length < required_exported_length) {""")],
  needs="an exported key container followed by extra bytes",
  breaks="a container that was extended after it was exported is accepted",
  demo="""
int main() {
    S s(ta_uuid(1)); sa_rights r = all_rights(); sa_key k = import_sym(s, bytes(16), r); uint8_t mix[16] = {1}; size_t n = 0;
    MUST(CALL(s, sa_key_export, nullptr, &n, mix, 16, k) == SA_STATUS_OK); Bytes e(n); MUST(CALL(s, sa_key_export, e.data(), &n, mix, 16, k) == SA_STATUS_OK); e.resize(n);
    sa_key j; MUST(CALL(s, sa_key_import, &j, SA_KEY_FORMAT_EXPORTED, e.data(), e.size(), nullptr) == SA_STATUS_OK);
    e.push_back(0); MUST(CALL(s, sa_key_import, &j, SA_KEY_FORMAT_EXPORTED, e.data(), e.size(), nullptr) != SA_STATUS_OK); return 0;
}"""),
dict(id="pad-first-byte", property="C22", edits=[(T + "internal/pad.c", """    for (size_t i = (AES_BLOCK_SIZE - *pad_value); i < AES_BLOCK_SIZE; ++i) {
        if (ptr[i] != *pad_value) {""", """    for (size_t i = (AES_BLOCK_SIZE - *pad_value) + 1; i < AES_BLOCK_SIZE; ++i) {
        if (ptr[i] != *pad_value) {""")],
  needs="a wrapped key whose padding is wrong in its first byte only",
  breaks="a wrapped key is accepted although its padding is wrong in its first byte",
  demo="""
int main() {
    S s(ta_uuid(1)); sa_rights r = all_rights(); Bytes kb = bytes(16); sa_key k = import_sym(s, kb), j;
    Bytes p = bytes(16, 5); p.resize(32, 16); Bytes c = evp(EVP_aes_128_ecb(), true, kb, {}, p);
    MUST(CALL(s, sa_key_unwrap, &j, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, nullptr, k, c.data(), c.size()) == SA_STATUS_OK);
    p[16] ^= 0x40; c = evp(EVP_aes_128_ecb(), true, kb, {}, p);
    MUST(CALL(s, sa_key_unwrap, &j, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, nullptr, k, c.data(), c.size()) != SA_STATUS_OK); return 0;
}"""),
dict(id="oaep-label-256", property="C14", edits=[(T + "internal/cipher_store.c", """    void* oaep_label;
    size_t oaep_label_length;""", """    uint8_t oaep_label_length;
    void* oaep_label;""")],
  needs="an RSA OAEP label of 256 bytes or more",
  breaks="the length of the OAEP label is kept in a byte, so longer labels give the wrong result",
  demo="""
#include <openssl/rsa.h>
#include <openssl/x509.h>
int main() {
    S s(ta_uuid(1)); EVP_PKEY* p = EVP_RSA_gen(1024); unsigned char* der = nullptr; PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(p); int n = i2d_PKCS8_PRIV_KEY_INFO(i, &der); sa_rights r = all_rights();
    sa_import_parameters_rsa_private_key_info ip = {&r}; sa_key k; MUST(CALL(s, sa_key_import, &k, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, der, n, &ip) == SA_STATUS_OK);
    Bytes msg = bytes(16), lab = bytes(300, 4), c(128); EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(p, nullptr); MUST(EVP_PKEY_encrypt_init(x) == 1); EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_OAEP_PADDING);
    EVP_PKEY_CTX_set_rsa_oaep_md(x, EVP_sha1()); EVP_PKEY_CTX_set_rsa_mgf1_md(x, EVP_sha1()); void* l = OPENSSL_memdup(lab.data(), lab.size()); EVP_PKEY_CTX_set0_rsa_oaep_label(x, l, (int) lab.size());
    size_t cn = c.size(); MUST(EVP_PKEY_encrypt(x, c.data(), &cn, msg.data(), msg.size()) == 1);
    sa_cipher_parameters_rsa_oaep op = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, lab.data(), lab.size()}; sa_crypto_cipher_context d;
    MUST(CALL(s, sa_crypto_cipher_init, &d, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_MODE_DECRYPT, k, &op) == SA_STATUS_OK);
    Bytes o(128); size_t m = cn; sa_buffer I = clear_buf(c.data(), cn), O = clear_buf(o.data(), o.size()); MUST(CALL(s, sa_crypto_cipher_process, &O, d, &I, &m) == SA_STATUS_OK); MUST(m == 16 && !memcmp(o.data(), msg.data(), 16)); return 0;
}"""),
dict(id="acquire-unlocked", property="C03", edits=[(T + "internal/object_store.c", """        store_object->reference_count += 1;

        status = SA_STATUS_OK;
    } while (false);

    if (mtx_unlock(&store->mutex) != thrd_success) {
        ERROR("mtx_unlock failed");
    }

    return status;
}

sa_status object_store_release(""", """        status = SA_STATUS_OK;
    } while (false);

    if (mtx_unlock(&store->mutex) != thrd_success) {
        ERROR("mtx_unlock failed");
    }

    if (status == SA_STATUS_OK)
        store_object->reference_count += 1;

    return status;
}

sa_status object_store_release(""")],
  needs="two threads acquiring or releasing the same object at the same time",
  breaks="the reference to an acquired object is counted after the store's lock was given up, so a key can be freed while another thread uses it",
  demo="""
#include <atomic>
#include <thread>
#include <unistd.h>
int main() {
    alarm(60); S s(ta_uuid(1)); std::atomic<bool> bad(false);
    for (int round = 0; round < 40 && !bad; round++) { sa_key k = import_sym(s, bytes(16)); std::vector<std::thread> t;
        for (int i = 0; i < 8; i++) t.emplace_back([&] { for (int j = 0; j < 4000 && !bad; j++) { sa_header h; if (CALL(s, sa_key_header, &h, k) != SA_STATUS_OK) bad = true; } });
        for (auto& x : t) x.join(); if (!bad) MUST(CALL(s, sa_key_release, k) == SA_STATUS_OK); }
    MUST(!bad); return 0;
}"""),
dict(id="header-size", property="C26", edits=[(T + "internal/ta.c", """            CHECK_NOT_TA_PARAM_OUT(param_types[1]) || params[1].mem_ref_size != sizeof(sa_header_s) ||""", """            CHECK_NOT_TA_PARAM_OUT(param_types[1]) || params[1].mem_ref_size < sizeof(sa_rights) ||""")],
  needs="a client that sends a key header request with an output parameter shorter than the header",
  breaks="the trusted side writes beyond the memory a client passed",
  demo="""
extern "C" {
#include "ta.h" // closes the brace itself
int main() {
    void* c = nullptr; MUST(ta_open_session_handler(&c) == SA_STATUS_OK); sa_key_header_s q; memset(&q, 0, sizeof q); q.api_version = API_VERSION; q.key = 77; Bytes out(sizeof(sa_header_s) + 64, 0x5a); size_t n = sizeof(sa_rights) + 8;
    uint32_t ty[NUM_TA_PARAMS] = {7, 6, 0, 0}; ta_param p[NUM_TA_PARAMS] = {{&q, sizeof q}, {out.data(), n}, {nullptr, 0}, {nullptr, 0}};
    MUST(ta_invoke_command_handler(c, SA_KEY_HEADER, ty, p) != SA_STATUS_OK); for (size_t i = n; i < out.size(); i++) MUST(out[i] == 0x5a); ta_close_session_handler(c); return 0;
}"""),
]
