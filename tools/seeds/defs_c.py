T = "taimpl/src/"
SEEDS = [
dict(id="cgmsa-order", property="C20", edits=[(T + "internal/typej.c", """                if (cgmsa_required)
                    SA_USAGE_BIT_CLEAR(*usage_flags, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);
                else
                    SA_USAGE_BIT_SET(*usage_flags, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);

""", """                if (cgmsa_required && SA_USAGE_BIT_TEST(*usage_flags, SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA))
                    SA_USAGE_BIT_CLEAR(*usage_flags, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);
                else
                    SA_USAGE_BIT_SET(*usage_flags, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);

""")],
  needs="a key container that names the CGMS-A requirement before the permission for analog outputs",
  breaks="a key whose container requires CGMS-A on analog outputs may be used with unprotected ones",
  demo="""
#include <openssl/hmac.h>
static std::string b64(const void* p, size_t n, bool url) { std::string o((n + 2) / 3 * 4 + 1, 0); o.resize(EVP_EncodeBlock((unsigned char*) &o[0], (const unsigned char*) p, (int) n)); if (url) { while (!o.empty() && o.back() == '=') o.pop_back(); for (auto& c : o) c = c == '+' ? '-' : c == '/' ? '_' : c; } return o; }
int main() {
    S s(ta_uuid(1)); Bytes ke = bytes(16, 3), km = bytes(32, 4), content = bytes(16, 5); sa_key e = import_sym(s, ke), m = import_sym(s, km);
    for (int order = 0; order < 2; order++) {
        Bytes w = evp(EVP_aes_128_ecb(), true, ke, {}, content); uint8_t rights[3] = {0x04, 0x06, 0x07};
        for (int a = 1; a < 16 && order == 0; a++) ; 
        std::string want;
        // the two rights in both orders, found by what they do: try every pair of right values
        static int analog = -1, cgmsa = -1;
        auto flags = [&](std::vector<uint8_t> rs, uint64_t& f) { std::string pl = "{\\"contentKey\\":\\"" + b64(w.data(), 16, false) + "\\",\\"contentKeyId\\":\\"id\\",\\"contentKeyRights\\":\\"" + b64(rs.data(), rs.size(), false) + "\\",\\"contentKeyUsage\\":1,\\"contentKeyNotBefore\\":\\"2015-11-20T00:00:00Z\\",\\"contentKeyNotOnOrAfter\\":\\"2099-11-20T00:00:00Z\\",\\"contentKeyCacheable\\":true,\\"contentKeyContainerVersion\\":1,\\"contentKeyTransportKey\\":\\"x\\",\\"contentKeyTransportAlgorithm\\":\\"aesEcbNone\\",\\"contentKeyTransportIv\\":\\"\\",\\"contentKeyLength\\":16}";
            std::string h = "{\\"kid\\":\\"k\\",\\"alg\\":\\"HS256\\"}", t = b64(h.data(), h.size(), true) + "." + b64(pl.data(), pl.size(), true); uint8_t mac[32]; unsigned mn = 32; HMAC(EVP_sha256(), km.data(), 32, (const uint8_t*) t.data(), t.size(), mac, &mn); t += "." + b64(mac, 32, true);
            sa_import_parameters_typej p = {e, m}; sa_key k; if (CALL(s, sa_key_import, &k, SA_KEY_FORMAT_TYPEJ, t.data(), t.size(), &p) != SA_STATUS_OK) return false; sa_header hd; MUST(CALL(s, sa_key_header, &hd, k) == SA_STATUS_OK); CALL(s, sa_key_release, k); f = hd.rights.usage_flags; return true; };
        uint64_t f = 0; int known = 0;
        for (int a = 0; a < 256; a++) if (flags({(uint8_t) a}, f)) { known++; if (SA_USAGE_BIT_TEST(f, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED)) analog = a; }
        MUST(known > 3 && analog >= 0);
        for (int a = 0; a < 256; a++) if (flags({(uint8_t) analog, (uint8_t) a}, f) && !SA_USAGE_BIT_TEST(f, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED)) cgmsa = a;
        MUST(cgmsa >= 0);
        MUST(flags({(uint8_t) cgmsa, (uint8_t) analog}, f)); MUST(!SA_USAGE_BIT_TEST(f, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED)); MUST(SA_USAGE_BIT_TEST(f, SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA));
    }
    return 0;
}"""),
dict(id="first-open-race", property="C05", edits=[(T + "internal/client_store.c", """        // someone may have created an instance underneath us
        if (global != NULL) {
            break;
        }

""", "")],
  needs="the first two sessions of a process being opened at the same time",
  breaks="each of two racing first opens creates the process-wide state, and one of the two sessions is lost",
  demo="""
#include <atomic>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
int main() {
    int bad = 0;
    for (int round = 0; round < 400; round++) { pid_t p = fork(); MUST(p >= 0);
        if (!p) { std::atomic<int> ready(0), wrong(0); std::vector<std::thread> t; std::vector<ta_client> c(8);
            for (int i = 0; i < 8; i++) t.emplace_back([&, i] { sa_uuid u = ta_uuid(1); ready++; while (ready < 8) {} if (ta_sa_init(&c[i], &u) != SA_STATUS_OK) wrong++; });
            for (auto& x : t) x.join(); for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) if (c[i] == c[j]) wrong++;
            sa_uuid u = ta_uuid(1); for (int i = 0; i < 8; i++) { uint8_t r[4]; if (ta_sa_close(c[i], &u) != SA_STATUS_OK) wrong++; } _exit(wrong ? 1 : 0); }
        int st = 0; waitpid(p, &st, 0); if (st) bad++; }
    MUST(bad == 0); return 0;
}"""),
dict(id="name-padding", property="C30", edits=[(T + "ta_sa_get_name.c", """    memcpy(name, implementation_name, required_length);
""", """    strncpy(name, implementation_name, *name_length);
""")],
  needs="a buffer larger than the name, shared with other data",
  breaks="asking for the name overwrites the memory behind it",
  demo="""
int main() {
    S s(ta_uuid(1)); size_t n = 0; MUST(CALL(s, sa_get_name, nullptr, &n) == SA_STATUS_OK); Bytes b(n + 8, 0xaa); size_t m = n + 8;
    MUST(CALL(s, sa_get_name, (char*) b.data(), &m) == SA_STATUS_OK); for (size_t i = n; i < n + 8; i++) MUST(b[i] == 0xaa); return 0;
}"""),
dict(id="mixin-last-byte", property="C13", edits=[(T + "internal/key_store.c", """    for (size_t i = 0; i < size; ++i) {
        out[i] = in1[i] ^ in2[i];""", """    for (size_t i = 0; i + 1 < size; ++i) {
        out[i] = in1[i] ^ in2[i];""")],
  needs="an exported container whose sixteenth byte was changed",
  breaks="the last byte of the mixin has no part in sealing an exported key, so it can be altered",
  demo="""
int main() {
    S s(ta_uuid(1)); sa_key k = import_sym(s, bytes(16)), j; uint8_t mix[16] = {1, 2, 3}; size_t n = 0; MUST(CALL(s, sa_key_export, nullptr, &n, mix, 16, k) == SA_STATUS_OK); Bytes e(n);
    MUST(CALL(s, sa_key_export, e.data(), &n, mix, 16, k) == SA_STATUS_OK); MUST(CALL(s, sa_key_import, &j, SA_KEY_FORMAT_EXPORTED, e.data(), e.size(), nullptr) == SA_STATUS_OK);
    for (size_t i = 0; i < 16; i++) { Bytes f = e; f[i] ^= 1; MUST(CALL(s, sa_key_import, &j, SA_KEY_FORMAT_EXPORTED, f.data(), f.size(), nullptr) != SA_STATUS_OK); } return 0;
}"""),
dict(id="wrap-unchecked", property="C07", edits=[(T + "internal/key_store.c", """    uint8_t* padded = memory_secure_alloc(*padded_length);
    if (padded == NULL) {
        ERROR("memory_secure_alloc failed");
        return NULL;
    }
""", """    uint8_t* padded = memory_secure_alloc(*padded_length);
""")],
  needs="the allocation for a key's sealed copy failing",
  breaks="a failed allocation while a key is stored crashes the process",
  demo="""
#include <dlfcn.h>
#include <errno.h>
extern "C" void* __libc_malloc(size_t);
static long fail_at = -1, seen;
extern "C" void* malloc(size_t n) { if (fail_at >= 0 && seen++ == fail_at) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
int main() {
    S s(ta_uuid(1)); Bytes v = bytes(16); sa_rights r = all_rights(); sa_import_parameters_symmetric p = {&r};
    for (long i = 0; i < 40; i++) { sa_key k = INVALID_HANDLE; seen = 0; fail_at = i; sa_status st = CALL(s, sa_key_import, &k, SA_KEY_FORMAT_SYMMETRIC_BYTES, v.data(), v.size(), &p); fail_at = -1;
        if (st == SA_STATUS_OK) MUST(CALL(s, sa_key_release, k) == SA_STATUS_OK); }
    return 0;
}"""),
dict(id="curve-prefix", property="C19", edits=[(T + "internal/ec.c", """            if (strcmp(group_name, ec_get_name(curve)) != 0) {""", """            if (strncmp(group_name, ec_get_name(curve), 5) != 0) {""")],
  needs="a private key of another curve of the same family than the one named",
  breaks="a P-192 key is imported as a P-256 key",
  demo="""
#include <openssl/ec.h>
#include <openssl/x509.h>
int main() {
    S s(ta_uuid(1)); EVP_PKEY* p = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-192"); MUST(p); unsigned char* der = nullptr; PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(p); int n = i2d_PKCS8_PRIV_KEY_INFO(i, &der); sa_rights r = all_rights(); sa_key k;
    sa_import_parameters_ec_private_bytes ok = {&r, SA_ELLIPTIC_CURVE_NIST_P192}, no = {&r, SA_ELLIPTIC_CURVE_NIST_P256};
    MUST(CALL(s, sa_key_import, &k, SA_KEY_FORMAT_EC_PRIVATE_BYTES, der, n, &ok) == SA_STATUS_OK); MUST(CALL(s, sa_key_import, &k, SA_KEY_FORMAT_EC_PRIVATE_BYTES, der, n, &no) != SA_STATUS_OK); return 0;
}"""),
dict(id="empty-final-unverified", property="C15", edits=[(T + "internal/symmetric.c", """    int update_length = (int) in_length;
    if (EVP_DecryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
        ERROR("EVP_DecryptUpdate failed");
        return SA_STATUS_INTERNAL_ERROR;
    }

    int final_length = 0;""", """    if (in_length == 0 && context->cipher_algorithm == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305) {
        *out_length = 0;
        return SA_STATUS_OK;
    }

    int update_length = (int) in_length;
    if (EVP_DecryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
        ERROR("EVP_DecryptUpdate failed");
        return SA_STATUS_INTERNAL_ERROR;
    }

    int final_length = 0;""")],
  needs="a ChaCha20-Poly1305 decryption whose last call carries only the tag, with a wrong tag",
  breaks="a forged message is accepted when its last call carries no ciphertext",
  demo="""
int main() {
    S s(ta_uuid(1)); Bytes kb = bytes(32), iv = bytes(12, 2), pt = bytes(32, 3), ct(32); uint8_t tag[16]; EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int n; MUST(EVP_EncryptInit_ex(x, EVP_chacha20_poly1305(), nullptr, kb.data(), iv.data())); MUST(EVP_EncryptUpdate(x, ct.data(), &n, pt.data(), 32)); MUST(EVP_EncryptFinal_ex(x, ct.data() + n, &n)); MUST(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, tag));
    sa_key k = import_sym(s, kb);
    for (int forged = 0; forged < 2; forged++) { sa_crypto_cipher_context c; sa_cipher_parameters_chacha20_poly1305 p = {iv.data(), iv.size(), nullptr, 0}; MUST(CALL(s, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, SA_CIPHER_MODE_DECRYPT, k, &p) == SA_STATUS_OK);
        Bytes in = ct, out(48); if (forged) in[5] ^= 1; size_t m = 32; sa_buffer I = clear_buf(in.data(), 32), O = clear_buf(out.data(), 48); MUST(CALL(s, sa_crypto_cipher_process, &O, c, &I, &m) == SA_STATUS_OK);
        sa_cipher_end_parameters_chacha20_poly1305 e = {tag, 16}; m = 0; sa_status st = CALL(s, sa_crypto_cipher_process_last, &O, c, &I, &m, &e); MUST(forged ? st != SA_STATUS_OK : st == SA_STATUS_OK); CALL(s, sa_crypto_cipher_release, c); }
    return 0;
}"""),
dict(id="digest-unbounded", property="C26", edits=[(T + "internal/ta.c", """    if (CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1]) && params[1].mem_ref_size != key_digest->out_length) {
        ERROR("Invalid params[1].mem_ref_size");
        return SA_STATUS_INVALID_PARAMETER;
    }

    if (key_digest->api_version""", """    if (key_digest->api_version""")],
  needs="a key digest request whose stated length is not that of its output memory",
  breaks="the digest is written past the end of the memory the request describes",
  demo="""
#include "sa_ta_types.h"
extern "C" {
sa_status ta_open_session_handler(void** session_context);
sa_status ta_invoke_command_handler(void* session_context, SA_COMMAND_ID command_id, const uint32_t* param_types, ta_param* params);
}
int main() {
    void* ctx = nullptr; MUST(ta_open_session_handler(&ctx) == SA_STATUS_OK); sa_rights r = all_rights(); Bytes v = bytes(16);
    sa_key_generate_s g; memset(&g, 0, sizeof g); g.api_version = API_VERSION; g.key = INVALID_HANDLE; g.rights = r; g.key_type = SA_KEY_TYPE_SYMMETRIC; g.key_length = 16;
    uint32_t t[4] = {TEEC_MEMREF_TEMP_INOUT, TEEC_NONE, TEEC_NONE, TEEC_NONE}; ta_param p[4]; memset(p, 0, sizeof p); p[0].mem_ref = &g; p[0].mem_ref_size = sizeof g; MUST(ta_invoke_command_handler(ctx, SA_KEY_GENERATE, t, p) == SA_STATUS_OK);
    sa_key_digest_s d; memset(&d, 0, sizeof d); d.api_version = API_VERSION; d.out_length = 32; d.key = g.key; d.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256; uint8_t out[64]; memset(out, 0xaa, 64);
    t[1] = TEEC_MEMREF_TEMP_OUTPUT; p[0].mem_ref = &d; p[0].mem_ref_size = sizeof d; p[1].mem_ref = out; p[1].mem_ref_size = 4; ta_invoke_command_handler(ctx, SA_KEY_DIGEST, t, p); for (int i = 4; i < 64; i++) MUST(out[i] == 0xaa); return 0;
}"""),
]
