T = "taimpl/src/"
SEEDS = [
dict(id="owner-prefix", property="C02", edits=[(T + "internal/object_store.c", """        if (memory_memcmp_constant(&store_object->owner_uuid, caller_uuid, sizeof(sa_uuid)) != 0) {
            *object = NULL;""", """        if (memory_memcmp_constant(&store_object->owner_uuid, caller_uuid, sizeof(caller_uuid)) != 0) {
            *object = NULL;""")],
  needs="two trusted applications whose UUIDs agree in their first eight bytes, one using the other's handle within the same session number",
  breaks="the owner comparison when an object is acquired covers only the size of a pointer, so another application's objects can be used",
  demo="""
int main() {
    S a(ta_uuid(1)); sa_uuid other = ta_uuid(2); S b = a; b.u = other; // same session number, another caller whose UUID differs in its last byte
    sa_key k = import_sym(a, bytes(16)); sa_header h; sa_status q = CALL(b, sa_key_header, &h, k);
    MUST(q != SA_STATUS_OK); CALL(a, sa_key_release, k); a.close(); return 0;
}"""),
dict(id="svp-partial-write", property="C06", edits=[(T + "porting/svp.c", """            ERROR("attempting to read outside the bounds of input buffer");
            return false;
        }
    }

    uint8_t* out_bytes = (uint8_t*) out_svp_buffer->svp_memory;
    for (size_t i = 0; i < offsets_length; i++)
        memcpy(out_bytes + offsets[i].out_offset, in + offsets[i].in_offset, offsets[i].length);

    return true;""", """            ERROR("attempting to read outside the bounds of input buffer");
            return false;
        }

        memcpy((uint8_t*) out_svp_buffer->svp_memory + offsets[i].out_offset, in + offsets[i].in_offset,
                offsets[i].length);
    }

    return true;""")],
  needs="a protected write with two ranges, the first valid and the second outside the buffer",
  breaks="a refused write has already changed the protected buffer",
  demo="""
int main() {
    S s(ta_uuid(1)); uint8_t mem[64]; memset(mem, 0x55, 64); sa_svp_buffer b; MUST(CALL(s, sa_svp_buffer_create, &b, mem, 64) == SA_STATUS_OK);
    uint8_t in[32]; memset(in, 1, 32); sa_svp_offset o[2] = {{0, 0, 16}, {60, 0, 16}}; MUST(CALL(s, sa_svp_buffer_write, b, in, 32, o, 2) != SA_STATUS_OK);
    for (auto x : mem) MUST(x == 0x55); return 0;
}"""),
dict(id="video-stale", property="C09", edits=[(T + "internal/rights.c", """    if (key_type == SA_KEY_TYPE_SYMMETRIC) {
        if (!validate_video_output_state(rights)) {
            ERROR("validate_video_output_state failed");
            return false;
        }
    }

    return true;
}

bool rights_allowed_encrypt(""", """    // outputs were validated when the key was loaded; only clear (SVP optional) keys are validated again here
    if (key_type == SA_KEY_TYPE_SYMMETRIC && SA_USAGE_BIT_TEST(rights->usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL)) {
        if (!validate_video_output_state(rights)) {
            ERROR("validate_video_output_state failed");
            return false;
        }
    }

    return true;
}

bool rights_allowed_encrypt(""")],
  needs="a key that requires secure video, and outputs that stop being allowed between the initialisation of a decryption and its next step",
  breaks="the output state is not consulted again for keys requiring secure video, so decryption goes on to a forbidden output",
  demo="""
#include "porting/video_output.h"
static video_output_state_t st; extern "C" bool video_output_poll(video_output_state_t* s) { *s = st; return true; }
int main() {
    memset(&st, 0, sizeof st); st.svp_enabled = true; S s(ta_uuid(1)); sa_rights r = all_rights(); r.usage_flags &= ~(SA_USAGE_BIT_MASK(SA_USAGE_FLAG_SVP_OPTIONAL) | SA_USAGE_BIT_MASK(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED));
    sa_key k = import_sym(s, bytes(16), r); sa_crypto_cipher_context c; MUST(CALL(s, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, k, nullptr) == SA_STATUS_OK);
    uint8_t mem[64] = {}, in[64] = {}; sa_svp_buffer b; MUST(CALL(s, sa_svp_buffer_create, &b, mem, 64) == SA_STATUS_OK); size_t n = 16; sa_buffer I = clear_buf(in, 64), O = svp_buf(b);
    MUST(CALL(s, sa_crypto_cipher_process, &O, c, &I, &n) == SA_STATUS_OK); st.digital_unprotected_count = 1; I = clear_buf(in, 64); O = svp_buf(b); n = 16;
    MUST(CALL(s, sa_crypto_cipher_process, &O, c, &I, &n) != SA_STATUS_OK); return 0;
}"""),
dict(id="iv-keeps-finished", property="C16", edits=[(T + "ta_sa_crypto_cipher_update_iv.c", """            status = symmetric_context_set_iv(symmetric_context, iv, iv_length);
            if (status != SA_STATUS_OK) {
                ERROR("symmetric_context_set_iv failed");
                break;
            }

            cipher_set_finished(cipher, false);""", """            // a padded message has no further use for a new iv once it is complete
            if (cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 || !cipher_get_finished(cipher)) {
                status = symmetric_context_set_iv(symmetric_context, iv, iv_length);
                if (status != SA_STATUS_OK) {
                    ERROR("symmetric_context_set_iv failed");
                    break;
                }
            }

            cipher_set_finished(cipher, false);""")],
  needs="a padded CBC context whose message is complete, a new iv, and then another message",
  breaks="the new iv is accepted and ignored after a complete padded message",
  demo="""
int main() {
    S s(ta_uuid(1)); Bytes key = bytes(16), iv = bytes(16, 3), iv2 = bytes(16, 4), pt = bytes(11, 5); sa_key k = import_sym(s, key); sa_cipher_parameters_aes_cbc cp = {iv.data(), 16}; sa_crypto_cipher_context c;
    MUST(CALL(s, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_MODE_ENCRYPT, k, &cp) == SA_STATUS_OK);
    for (int i = 0; i < 2; i++) { uint8_t out[32]; size_t n = pt.size(); sa_buffer I = clear_buf(pt.data(), pt.size()), O = clear_buf(out, 32); MUST(CALL(s, sa_crypto_cipher_process_last, &O, c, &I, &n, nullptr) == SA_STATUS_OK);
      Bytes e = evp(EVP_aes_128_cbc(), true, key, i ? iv2 : iv, pt, true); MUST(n == e.size() && !memcmp(out, e.data(), n)); if (!i) MUST(CALL(s, sa_crypto_cipher_update_iv, c, iv2.data(), 16) == SA_STATUS_OK); }
    return 0;
}"""),
dict(id="mac-key-long", property="C17", edits=[(T + "internal/hmac_context.c", """    size_t key_length = stored_key_get_length(stored_key);
#if OPENSSL_VERSION_NUMBER >= 0x30000000
    if (EVP_MAC_update(""", """    // longer keys are truncated to the block size
    size_t key_length = stored_key_get_length(stored_key);
    if (key_length > 64)
        key_length = 64;

#if OPENSSL_VERSION_NUMBER >= 0x30000000
    if (EVP_MAC_update(""")],
  needs="a symmetric key longer than a block (65 bytes or more) fed into an HMAC",
  breaks="only part of a long key is covered by the MAC",
  demo="""
#include <openssl/hmac.h>
int main() {
    S s(ta_uuid(1)); Bytes key = bytes(32), big = bytes(65, 4); sa_key k = import_sym(s, key), b = import_sym(s, big); sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256}; sa_crypto_mac_context m;
    MUST(CALL(s, sa_crypto_mac_init, &m, SA_MAC_ALGORITHM_HMAC, k, &p) == SA_STATUS_OK); MUST(CALL(s, sa_crypto_mac_process_key, m, b) == SA_STATUS_OK); uint8_t out[32], w[32]; size_t n = 32; unsigned wn = 32; MUST(CALL(s, sa_crypto_mac_compute, out, &n, m) == SA_STATUS_OK);
    HMAC(EVP_sha256(), key.data(), 32, big.data(), big.size(), w, &wn); MUST(!memcmp(out, w, 32)); return 0;
}"""),

dict(id="handle-narrow", property="C01", edits=[(T + "internal/object_store.c", """    if (slot >= store->slot_count) {
        ERROR("Invalid slot");
        return SA_STATUS_INVALID_PARAMETER;
    }

    if (mtx_lock(&store->mutex) != thrd_success) {
        ERROR("mtx_lock failed");
        return SA_STATUS_INTERNAL_ERROR;
    }

    sa_status status = SA_STATUS_INTERNAL_ERROR;
    store_object_t* store_object = &store->objects[slot];
    do {
        if (store_object == NULL) {""", """    // slots are stored as 32 bit values
    uint32_t index = (uint32_t) slot;
    if (index >= store->slot_count) {
        ERROR("Invalid slot");
        return SA_STATUS_INVALID_PARAMETER;
    }

    if (mtx_lock(&store->mutex) != thrd_success) {
        ERROR("mtx_lock failed");
        return SA_STATUS_INTERNAL_ERROR;
    }

    sa_status status = SA_STATUS_INTERNAL_ERROR;
    store_object_t* store_object = &store->objects[index];
    do {
        if (store_object == NULL) {"""), (T + "internal/object_store.c", """    if (slot >= store->slot_count) {
        ERROR("Invalid slot");
        return SA_STATUS_INVALID_PARAMETER;
    }

    if (object == NULL) {
        // silent return""", """    slot = (uint32_t) slot;
    if (slot >= store->slot_count) {
        ERROR("Invalid slot");
        return SA_STATUS_INVALID_PARAMETER;
    }

    if (object == NULL) {
        // silent return""")],
  needs="a handle value whose low 32 bits are those of a live handle",
  breaks="handles are narrowed to 32 bits on acquisition, so values that were never returned name live objects",
  demo="""
int main() { S s(ta_uuid(1)); sa_key k = import_sym(s, bytes(16)); sa_crypto_mac_context m; MUST(CALL(s, sa_crypto_mac_init, &m, SA_MAC_ALGORITHM_CMAC, k, nullptr) == SA_STATUS_OK);
    uint8_t d[16] = {}; MUST(CALL(s, sa_crypto_mac_process, m, d, 16) == SA_STATUS_OK); MUST(CALL(s, sa_crypto_mac_process, m + (1ULL << 32), d, 16) != SA_STATUS_OK); return 0; }"""),
dict(id="ta-list-gap", property="C09", edits=[(T + "internal/rights.c", """        if (memory_memcmp_constant(&rights->allowed_tas[i], &NO_MATCH, sizeof(sa_uuid)) == 0) {
            continue;
        }""", """        // an empty entry ends the list
        if (i > 0 && memory_memcmp_constant(&rights->allowed_tas[i], &NO_MATCH, sizeof(sa_uuid)) == 0) {
            break;
        }""")],
  needs="an allowed-application list with an empty entry before the caller's entry, other than the first",
  breaks="an empty entry inside the list of allowed applications hides the ones after it",
  demo="""
int main() { S s(ta_uuid(1)); sa_rights r = all_rights(); memset(r.allowed_tas, 0, sizeof r.allowed_tas); r.allowed_tas[0] = ta_uuid(9); r.allowed_tas[5] = ta_uuid(1); sa_key k = import_sym(s, bytes(16), r);
    sa_crypto_mac_context m; MUST(CALL(s, sa_crypto_mac_init, &m, SA_MAC_ALGORITHM_CMAC, k, nullptr) == SA_STATUS_OK); return 0; }"""),
dict(id="last-chacha-clear", property="C10", edits=[(T + "ta_sa_crypto_cipher_process_last.c", """        if (out->buffer_type == SA_BUFFER_TYPE_CLEAR && !rights_allowed_clear(rights)) {""",
 """        // a final call without data only completes the message
        if (out->buffer_type == SA_BUFFER_TYPE_CLEAR && *bytes_to_process % AES_BLOCK_SIZE == 0 &&
                !rights_allowed_clear(rights)) {""")],
  needs="a final decryption step of a length that is not a multiple of the block size, with a key requiring secure video and a clear output",
  breaks="the last, partial block of protected content is written to clear memory",
  demo="""
int main() {
    S s(ta_uuid(1)); sa_rights p = all_rights(); p.usage_flags &= ~SA_USAGE_BIT_MASK(SA_USAGE_FLAG_SVP_OPTIONAL); sa_key k = import_sym(s, bytes(16), p);
    Bytes iv = bytes(16, 2); sa_cipher_parameters_aes_ctr cp = {iv.data(), 16}; sa_crypto_cipher_context c; MUST(CALL(s, sa_crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, &cp) == SA_STATUS_OK);
    uint8_t in[32] = {}, out[32] = {}; size_t n = 7; sa_buffer I = clear_buf(in, 32), O = clear_buf(out, 32); MUST(CALL(s, sa_crypto_cipher_process_last, &O, c, &I, &n, nullptr) != SA_STATUS_OK); return 0;
}"""),
]
