#!/usr/bin/env python3
"""One-off generator of /verif/properties.jsonl (kept so the file stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "reference/src/taimpl/src/"
I = T + "internal/"
C = "reference/src/clientimpl/src/"
H = "reference/src/client/include/"

prop("C01", "Handles: valid exactly from creation to release, never confused, never lost",
 "A handle of a key, cipher, MAC or protected buffer works from the successful call that returned it until it is released, and no other handle value ever works. Two live objects never share a handle, releasing one leaves every other intact, and a call that fails to create returns no usable handle. When every slot is occupied creation reports that none is available, existing objects keep working, and each release makes exactly one more object creatable.",
 ["histories"], "every sequence of create / use / release (of live, stale, never-issued and out-of-range handles) up to a depth, from an empty, a partly filled and a completely filled session, for each object kind",
 "tests create and release a few objects in one fixed order and hit slot exhaustion once from the front; they never chain releases, stale reuse and refill histories",
 [I+"object_store.c", I+"slots.c", I+"key_store.c", I+"cipher_store.c", I+"mac_store.c", I+"svp_store.c"],
 [("slot bitmap allocation", I+"slots.c"), ("object table with owner and reference count", I+"object_store.c")],
 ["status and handle returned by every client API call", "key header / MAC / cipher output identifying which object a handle reaches"])

prop("C02", "Sessions and callers are isolated from each other",
 "An object created in one session can be used or released only through that session and only by the caller that created the session; every other session or caller identity gets an error and the object is unaffected. Closing a session invalidates all of its objects and no object of any other session, and a closed or never-opened session handle is refused by every operation that creates or uses objects.",
 ["histories"], "every history of open / create / use / release / close over several sessions and caller identities up to a depth, including handles of equal numeric value in different sessions",
 "tests run in one session with one caller identity and never present one session's caller to another session",
 [I+"client_store.c", I+"object_store.c", T+"ta_sa_init.c", T+"ta_sa_close.c"],
 [("per-session stores behind a session table", I+"client_store.c"), ("owner comparison on acquire and remove", I+"object_store.c")],
 ["status of every call per (session, caller, handle)", "object outputs after foreign attempts"])

prop("C03", "Concurrent key, cipher and MAC calls behave as if executed one at a time",
 "When several threads use the same session, every call returns exactly what it could have returned had the calls run one after another in an order consistent with their real-time order, whatever the interleaving. No interleaving reads freed or unsynchronised state, and every call returns.",
 ["schedules"], "every interleaving of two or three threads, up to a preemption bound, of calls that create, use, release and exhaust the same keys, ciphers and MACs",
 "the thread test runs independent objects on free-running threads, so conflicting interleavings (use racing release, two users of one context, slot reuse) occur by luck and are never enumerated",
 [I+"object_store.c", I+"key_store.c", I+"cipher_store.c", I+"mac_store.c", I+"client_store.c"],
 [("store mutex and reference count; release waits for users", I+"object_store.c"), ("per-context lock held for a whole call", I+"cipher_store.c"), ("per-context lock held for a whole call", I+"mac_store.c")],
 ["status, handle and output bytes of every call in every schedule"])

prop("C04", "Concurrent protected-buffer calls are atomic and never deadlock",
 "When several threads write, copy, check, decrypt into or out of, and release the same protected buffers, every call returns and yields the result and buffer contents of some one-at-a-time order. This includes calls that use two buffers in opposite roles, and a buffer released while another call is using or about to use it.",
 ["schedules"], "every interleaving of two or three threads, up to a preemption bound, of buffer operations over two shared buffers",
 "no test runs protected-buffer calls from two threads, let alone with the buffers in opposite roles",
 [I+"svp_store.c", T+"ta_sa_svp_buffer_copy.c", T+"ta_sa_svp_buffer_release.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_process_common_encryption.c", T+"porting/svp.c"],
 [("per-buffer lock", I+"svp_store.c"), ("reference count; release waits for users", I+"object_store.c")],
 ["status of every call and buffer contents in every schedule; absence of a schedule with no runnable thread"])

prop("C05", "Opening, first use and closing of sessions are safe under concurrency",
 "Sessions opened, used and closed by concurrent threads never interfere: each open yields its own working session, the first opens of a process agree on one set of process-wide state, a close waits for or refuses calls in flight on that session, and every call returns. A call racing the close of its own session either completes normally or is refused.",
 ["schedules"], "every interleaving, up to a preemption bound, of threads that open, use and close sessions, starting both from a fresh process and from one with sessions open",
 "tests open their session once, on one thread, before anything else runs",
 [I+"client_store.c", I+"object_store.c", T+"ta_sa_init.c", T+"ta_sa_close.c", C+"internal/client.c", T+"porting/otp.c"],
 [("one-time creation of the session table", I+"client_store.c"), ("shutdown flag and release count", I+"object_store.c"), ("one-time creation of the client session", C+"internal/client.c")],
 ["status of every call in every schedule", "data-race reports on process-wide state"])

prop("C06", "A call that fails leaves the session exactly as it was",
 "When any call reports an error, no handle has been consumed, no object has changed its contents or behaviour, no object stays locked or in use, and nothing allocated for the call is retained. (A message whose authentication or padding fails verification in its last call has ended.) Every object involved can still be used and released afterwards, and closing the session still completes.",
 ["inputs", "histories"], "every API call combined with every single invalid argument from its argument alphabet (null, out-of-range, wrong kind, wrong length, wrong state, invalid enumerator, foreign handle)",
 "tests check the status of invalid calls but not what the failed call left behind; a leaked reference, lock or slot shows only when something is released, closed or exhausted later",
 [T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_cipher_init.c", T+"ta_sa_key_unwrap.c", T+"ta_sa_process_common_encryption.c", I+"key_store.c", I+"object_store.c"],
 [("single-exit cleanup blocks in every command", T), ("reference release on every path", I+"object_store.c")],
 ["free slots of each kind before and after", "outputs of every pre-existing object after the failure", "completion of release and close", "count of live allocations"])

prop("C07", "Running out of memory is reported, never mis-executed",
 "If any memory allocation made while serving a call fails, the call reports an error or still produces exactly the result it would have produced, without memory errors. After such a failure every object can still be used and released, no slot is lost, and the same call succeeds when memory is available again.",
 ["fault_sequences"], "for every API operation, failure of the k-th allocation for every k the operation performs",
 "tests never make an allocation fail",
 [T+"porting/memory.c", I+"stored_key.c", I+"key_store.c", I+"cipher_store.c", I+"symmetric.c", I+"unwrap.c", I+"typej.c", I+"json.c", I+"soc_key_container.c"],
 [("null checks after every allocation, single-exit cleanup", I)],
 ["status and outputs of the call under each fault", "usability and release of all objects afterwards"])

prop("C08", "A key does only what its usage flags permit",
 "An operation with a key succeeds only if the key's usage flags contain the flag of that operation: encrypting, decrypting, signing and MACing, deriving, exchanging, unwrapping, and exporting. With the flag present and all else valid the operation is not refused, whatever the other flags, and for every key type and algorithm.",
 ["inputs", "configurations"], "every operation and algorithm crossed with every combination of the key usage flags of the key involved",
 "tests remove one flag from a few keys per operation; they do not cover all flag combinations for all operations, key types and key origins",
 [I+"rights.c", T+"ta_sa_crypto_cipher_init.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_mac_init.c", T+"ta_sa_crypto_sign.c", T+"ta_sa_key_derive.c", T+"ta_sa_key_exchange.c", T+"ta_sa_key_unwrap.c", T+"ta_sa_key_export.c"],
 [("usage flag checks before every use of key material", I+"rights.c")],
 ["status of every operation"])

prop("C09", "Time window, video outputs and caller identity gate every use of a key",
 "At every use of a key, including each later step of a cipher already initialised, the key is usable only inside its validity window, only by the trusted applications it lists, and, for symmetric decryption keys, only while every active video output is one the key permits. A refusal leaves the object intact, so use works again as soon as conditions allow.",
 ["inputs", "configurations", "histories"], "every combination of rights boundary times, current time, output state, output permission flags and allowed-caller list, and every change of these between the steps of one cipher",
 "tests cannot move the clock or the display outputs, and check rights at initialisation only",
 [I+"rights.c", I+"key_store.c", I+"cipher_store.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_process_common_encryption.c", T+"porting/video_output.c"],
 [("time, output and caller checks", I+"rights.c"), ("checks when key material is opened", I+"key_store.c"), ("re-check with the rights kept in the context", I+"cipher_store.c")],
 ["status of each step under controlled clock, outputs and caller"])

prop("C10", "Content of keys that require secure video never reaches clear memory",
 "Data decrypted with a key that does not permit clear output is written only to protected buffers: every operation asked to decrypt into clear memory with such a key fails and leaves the clear memory untouched. Data in protected buffers leaves them only by the operations defined to do so, under a key that permits it.",
 ["inputs", "configurations"], "every operation, algorithm, output and input buffer kind, and secure-video flag, at initialisation and at every later step",
 "tests try a few algorithms and buffer combinations, and do not look at the clear memory after a refusal",
 [I+"rights.c", I+"cipher_store.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_process_common_encryption.c", T+"ta_sa_svp_key_check.c", I+"buffer.c"],
 [("clear-output right check on each processing call", I+"rights.c"), ("buffer kind conversion", I+"buffer.c")],
 ["status and clear buffer bytes", "protected buffer contents via hash check"])

prop("C11", "A child key never gains rights its parent does not grant",
 "A key obtained from another key by derivation, exchange or unwrapping carries the requested rights reduced by what the parent's rights allow its children, and never an output-protection permission the parent lacks. Its identity, validity window and allowed applications are those requested, and nothing that is permitted is dropped.",
 ["inputs", "configurations"], "every combination of parent usage flags, parent child-usage flags and requested usage flags, for each way of obtaining a child key",
 "tests sample a few flag combinations for unwrapping and derivation",
 [I+"stored_key.c", I+"unwrap.c", I+"kdf.c", I+"dh.c", I+"ec.c", I+"netflix.c"],
 [("restriction of child rights at creation of the child", I+"stored_key.c")],
 ["rights in the header of the child key"])

prop("C12", "Exporting and importing a key preserves the key and everything it may do",
 "A key exported from one session and imported into any other session is the same key: same material, type, size and rights, and repeated export and import changes nothing. Only keys marked cacheable are exported, and an exported key is usable only with the same mixin and device secret.",
 ["inputs", "histories"], "every key type and size, rights field boundary, mixin length and output length, and every chain of export and import up to a depth",
 "tests round-trip a few keys once with default rights",
 [I+"key_store.c", I+"stored_key.c", T+"ta_sa_key_export.c", T+"ta_sa_key_import.c", T+"porting/otp.c"],
 [("authenticated container with derived wrapping keys", I+"key_store.c"), ("device-bound key derivation", T+"porting/otp.c")],
 ["header, digest and behaviour of the imported key; status of export"])

prop("C13", "Any altered key container is refused",
 "Changing, truncating or extending an exported key container in any way, or an externally produced key container so that it no longer says exactly what was sealed (malformed text encoding included), makes import fail, and no key results from it; import never crashes or reads outside the given data.",
 ["inputs"], "every single-bit change, every truncation, every extension up to a bound and every field substitution of valid containers of each format",
 "tests corrupt one or two fields of one container",
 [I+"key_store.c", I+"typej.c", I+"json.c", I+"soc_key_container.c", T+"ta_sa_key_import.c"],
 [("MAC over header and ciphertext verified before use", I+"key_store.c"), ("signature and field validation", I+"typej.c"), ("authenticated decryption of the container payload", I+"soc_key_container.c")],
 ["status of import", "sanitizer reports"])

prop("C14", "Cipher output is correct and does not depend on how data is split",
 "For every symmetric cipher, encrypting or decrypting a message gives the result defined by the algorithm's standard however the data is divided into calls, in place or not, and the byte counts and buffer offsets reported match exactly what was consumed and produced. A call asking only for the required size changes nothing. RSA and EC ElGamal decryption yield exactly the encrypted plaintext.",
 ["inputs", "histories"], "every algorithm, direction, key size, message length up to a bound and every division of the message into processing calls",
 "tests use fixed message lengths and one or two fixed splits",
 [I+"symmetric.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_cipher_init.c", I+"buffer.c", C+"sa_crypto_cipher_process.c", C+"sa_crypto_cipher_process_last.c"],
 [("streaming state in the cipher context", I+"symmetric.c"), ("offset and length bookkeeping", I+"buffer.c")],
 ["output bytes, byte counts, offsets and bytes around the output"])

prop("C15", "Forged ciphertext, tag, associated data or padding is always rejected",
 "Authenticated decryption reports success only for the exact ciphertext, associated data, nonce and tag produced by encryption, for every permitted tag length, and padded decryption reports success only for well-formed padding. Rejection is reported as a failed verification and never as success, however the data is split.",
 ["inputs"], "every single-bit forgery of ciphertext, tag, associated data and nonce, every tag length, and every possible value and position of padding bytes in the last block",
 "tests corrupt one tag and one padding byte",
 [I+"symmetric.c", I+"pad.c", I+"unwrap.c", T+"ta_sa_crypto_cipher_process_last.c"],
 [("tag comparison at finalisation", I+"symmetric.c"), ("padding check", I+"pad.c")],
 ["status and outputs of the last processing call and of unwrapping"])

prop("C16", "A cipher context follows its defined sequence and stands alone",
 "In every sequence of initialise, update IV, process, finish, size query and release, each call succeeds or fails as the specification of its algorithm and mode says, and outputs are those of a reference cipher in the same state. Contexts are independent of each other and of the later release of their key, and a failing call does not disturb the stream.",
 ["histories"], "every operation sequence up to a depth over two contexts, for each algorithm and mode",
 "tests follow init, process, last, release in order, with at most one deviation",
 [T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_cipher_update_iv.c", I+"cipher_store.c", I+"symmetric.c"],
 [("per-context state", I+"cipher_store.c"), ("algorithm and mode dispatch", T+"ta_sa_crypto_cipher_process.c")],
 ["status and output of every step against a reference model"])

prop("C17", "MAC results equal the standard MAC of everything processed, in any sequence",
 "A MAC context yields the standard HMAC or CMAC of the concatenation of all data and key material fed to it, however split and for every key and digest size. After the result has been computed further use is refused, a size query or refused call changes nothing, and contexts do not influence each other.",
 ["histories", "inputs"], "every sequence of process / process-key / size query / short-buffer / compute / release up to a depth, chunk lengths around block boundaries, for every algorithm and key size class",
 "tests compute MACs of fixed inputs with one or two calls",
 [I+"mac_store.c", I+"hmac_context.c", I+"cmac_context.c", T+"ta_sa_crypto_mac_compute.c", T+"ta_sa_crypto_mac_process.c", T+"ta_sa_crypto_mac_process_key.c"],
 [("finished flag in the MAC context", I+"hmac_context.c"), ("finished flag in the MAC context", I+"cmac_context.c")],
 ["status and MAC bytes of every step against OpenSSL"])

prop("C18", "Signatures verify under the key's own public key and only for the signed data",
 "A signature produced for any algorithm, digest, salt length and precomputed-digest choice verifies with an independent implementation under the public key the system reports for that key, over exactly the given data and parameters. Unsupported combinations and too-small output buffers are refused without output, and the required size reported is the size produced.",
 ["inputs"], "every signature algorithm, key type, size and curve, digest, MGF digest, salt length class, precomputed flag and data length class",
 "tests cover most digests but only a few lengths and parameter combinations, and negative combinations sparsely",
 [T+"ta_sa_crypto_sign.c", I+"rsa.c", I+"ec.c", T+"ta_sa_key_get_public.c", C+"sa_crypto_sign.c"],
 [("digest selection and signing", I+"rsa.c"), ("fixed-size signature encoding", I+"ec.c")],
 ["signature bytes verified by OpenSSL", "status and output length"])

prop("C19", "Import accepts exactly well-formed keys and records them faithfully",
 "Importing clear symmetric, RSA or EC key material succeeds exactly for supported, well-formed keys and yields a key of that material, type, size, curve and requested rights. Every truncated, oversized, out-of-range or malformed input, and malformed rights, are refused with no key and without reading outside the input.",
 ["inputs"], "every symmetric length up to beyond the maximum, every curve with boundary private values and lengths, RSA keys of all sizes with every truncation and single-byte change of the encoding, and malformed rights",
 "tests import a few valid keys and a handful of malformed ones",
 [T+"ta_sa_key_import.c", I+"key_store.c", I+"key_type.c", I+"rsa.c", I+"ec.c", I+"rights.c"],
 [("type and size validation", I+"key_type.c"), ("private key validation", I+"ec.c"), ("private key parsing", I+"rsa.c")],
 ["status, header, public key and behaviour of the imported key"])

prop("C20", "External key containers grant exactly the usage they declare",
 "A key imported from a provisioned or downloaded key container has exactly the type, material and rights its container declares: usage class, key type, validity, and output protections. A container that is inconsistent, lacks a required field, or is not intended for this device or these wrapping keys yields no key.",
 ["inputs", "configurations"], "every combination of declared key usage, key type, decryption and exportability attributes and presence or absence of each field",
 "tests import one container per usage class",
 [I+"typej.c", I+"soc_key_container.c", I+"json.c", T+"ta_sa_key_import.c"],
 [("usage mapping", I+"typej.c"), ("usage mapping", I+"soc_key_container.c")],
 ["header of the imported key and the operations it supports"])

prop("C21", "Derived keys equal the standard derivation for every input shape",
 "Every key derivation function and both key ladders produce the key their specification defines for all permitted key lengths, digests, salts, contexts and counters, deterministically and independently of other calls. Inputs the specification excludes are refused without creating a key.",
 ["inputs"], "every derivation function, digest, output length around block boundaries and up to and beyond the maximum, and salt, context and parent lengths around boundaries",
 "tests use a few fixed lengths per function",
 [I+"kdf.c", I+"netflix.c", T+"ta_sa_key_derive.c", T+"porting/otp.c", C+"sa_key_derive.c"],
 [("derivation functions", I+"kdf.c"), ("ladder", T+"porting/otp.c")],
 ["digest and MAC of the derived key against a reference"])

prop("C22", "Unwrapping yields exactly the wrapped key or nothing",
 "Unwrapping with any cipher yields exactly the key that was wrapped, with the declared type, when the wrapped data is valid for that cipher and key type, including multi-layer wrapping. Wrapped data of a wrong length, forged, badly padded, or containing no valid key of the declared type yields no key, without memory errors.",
 ["inputs"], "every wrapping cipher, key size and wrapped key type, input lengths from zero to beyond the maximum, and every malformed form of each",
 "tests unwrap valid keys of each kind and a few malformed ones",
 [I+"unwrap.c", T+"ta_sa_key_unwrap.c", I+"pad.c", I+"key_type.c", I+"rsa.c", I+"ec.c", C+"sa_key_unwrap.c"],
 [("per-cipher unwrapping", I+"unwrap.c"), ("type validation of the result", I+"key_type.c")],
 ["header and digest or public key of the unwrapped key", "sanitizer reports"])

prop("C23", "Key exchange yields the same secret on both sides or fails",
 "Both parties of an exchange obtain the same shared key, equal to the standard result for the public values used, for every group and curve. A malformed, mismatched or degenerate peer public value is refused and creates no key, and an exchange that creates several keys creates all of them or none.",
 ["inputs"], "every curve and group, boundary and degenerate peer values, every truncation of the peer value, leading-zero secrets, and slot exhaustion between the created keys",
 "tests exchange between fresh random keys once per curve",
 [T+"ta_sa_key_exchange.c", I+"dh.c", I+"ec.c", I+"netflix.c", C+"sa_key_exchange.c"],
 [("peer key parsing and derivation", I+"ec.c"), ("peer key parsing and derivation", I+"dh.c"), ("rollback of created keys", T+"ta_sa_key_exchange.c")],
 ["digest of the exchanged keys on both sides and from OpenSSL"])

prop("C24", "Common encryption decrypts exactly the protected ranges of every sample",
 "For every layout of samples, subsamples and crypt/skip pattern, in counter and block-chaining modes, the output is the input with exactly the protected ranges decrypted as the standard defines and every other byte copied, with the counter continuing across subsamples and wrapping correctly. Offsets advance by exactly the bytes processed, bytes outside the sample are untouched, and inconsistent layouts are refused.",
 ["inputs"], "every small subsample layout, pattern, initial counter near wrap-around, sample count and buffer kind",
 "tests use a few large regular layouts; boundary layouts interact with partial blocks and counter wrap-around only in unsampled combinations",
 [I+"cenc.c", T+"ta_sa_process_common_encryption.c", C+"sa_process_common_encryption.c"],
 [("subsample walk with partial-block and counter bookkeeping", I+"cenc.c")],
 ["output bytes, neighbouring bytes and offsets against an independent model"])

prop("C25", "Protected buffers are written, copied and checked exactly within their bounds",
 "A write, copy or check of a protected buffer affects or examines exactly the requested ranges when all of them lie inside the source and destination, and otherwise is refused and changes nothing at all. Arithmetic overflow in a range, an unusable memory region or a stale buffer is refused, and releasing a buffer returns exactly the memory it was created over.",
 ["inputs", "histories"], "every offset and length combination around and beyond the bounds and the integer limits, lists of ranges with one bad range at each position, and histories of operations over two buffers up to a depth",
 "tests try one out-of-bounds value per parameter",
 [T+"porting/svp.c", I+"svp_store.c", T+"ta_sa_svp_buffer_write.c", T+"ta_sa_svp_buffer_copy.c", T+"ta_sa_svp_buffer_check.c", T+"ta_sa_svp_buffer_create.c", T+"ta_sa_svp_buffer_release.c"],
 [("range validation before any copy", T+"porting/svp.c")],
 ["status, contents of the underlying memory including guard bytes"])

prop("C26", "The trusted side survives any request a hostile client can form",
 "Whatever parameter kinds, sizes, null references, enumerators, handles and contents a client passes to any command, the trusted side returns a status without reading or writing outside the memory the request describes, crashing or hanging. The session remains usable afterwards.",
 ["inputs"], "every command with every parameter-kind vector, parameter sizes around every expected size, null and absent references, and boundary values of every field of the command structure",
 "the tests use the well-behaved client library, which cannot form malformed requests",
 [I+"ta.c"],
 [("parameter kind and size validation per command", I+"ta.c")],
 ["status and sanitizer reports of the command entry point"])

prop("C27", "A client changing a request while it is served cannot bypass its checks",
 "Changing the shared memory of a request while it is being served gives the outcome of the request as it was before the change, or as it is after it, or is refused. This holds for the fixed-size structure of every command and for the key data of imports, unwrapping and key exchange: checked and unchecked values are never mixed and no trusted memory is overrun or leaked.",
 ["schedules"], "every instruction of the trusted side that touches the shared request, crossed with changes of each byte of structures and key data",
 "single-threaded tests never change a request in flight",
 [I+"ta.c"],
 [("copy of the command structure before validation", I+"ta.c")],
 ["status and outputs; number and place of reads of the shared structure"])

prop("C28", "What the system reports about a key is true",
 "The reported header, public key, digest and size of a key, however it was generated, imported, unwrapped, derived or exchanged, match its actual material and requested rights, and the public key is the standard encoding. Size queries report exactly the size then produced, too-small buffers are refused untouched, and generated keys have the requested size and are never repeated.",
 ["inputs"], "every key type, size and curve crossed with every origin and every output buffer size around the required one",
 "tests read headers and public keys of a few keys with exact buffers",
 [T+"ta_sa_key_header.c", T+"ta_sa_key_get_public.c", T+"ta_sa_key_digest.c", T+"ta_sa_key_generate.c", I+"rsa.c", I+"ec.c", I+"dh.c", I+"stored_key.c"],
 [("header kept with the key", I+"stored_key.c"), ("public key derivation", I+"ec.c")],
 ["header fields, DER public keys, digests against references"])

prop("C29", "The OpenSSL provider gives the results of the secure library itself",
 "Applications reaching keys through the OpenSSL provider get results identical to a software implementation of the same algorithm with the same key, for every cipher, MAC, signature, asymmetric cipher and key agreement offered, however data is split, and duplicated contexts continue independently. Freeing contexts and keys in any order neither leaks nor breaks the remaining ones.",
 ["inputs", "histories"], "every offered algorithm, split of the data and order of creating, duplicating and freeing provider contexts up to a depth",
 "provider tests run each algorithm once, unsplit, in one order",
 ["reference/src/client/src/sa_provider_cipher.c", "reference/src/client/src/sa_provider_mac.c", "reference/src/client/src/sa_provider_signature.c", "reference/src/client/src/sa_provider_keymgt.c", "reference/src/client/src/sa_provider_asym_cipher.c", "reference/src/client/src/sa_provider_keyexch.c", "reference/src/client/src/sa_provider_kdf.c", "reference/src/client/src/sa_provider_digest.c"],
 [("provider dispatch to the client library", "reference/src/client/src/sa_provider.c"), ("reference-counted key data", "reference/src/client/src/sa_provider_keymgt.c")],
 ["EVP results compared with the default provider"])
prop("C30", "What the system reports about itself is true; random output is wholly random",
 "The implementation name, the version, the device identifier and the caller's own identity are reported the same at every time, to every caller and through both interfaces: the identity is the caller's, the version that of the specification implemented. A size query reports exactly the size of the name, a shorter buffer is refused untouched and nothing beyond the name is written. A request for random data of any length fills every byte of exactly that range from the random source, or fails; it fails when the source fails.",
 ["inputs", "histories"], "every output buffer size, caller identities differing in any bit, random requests of every length up to 600 and around the limits of 32-bit lengths, every failure of the random source, and every sequence of such calls up to a depth",
 "tests call each query once, and random output is never related to its source or its length",
 [T+"ta_sa_get_name.c", T+"ta_sa_get_version.c", T+"ta_sa_get_device_id.c", T+"ta_sa_get_ta_uuid.c", T+"ta_sa_crypto_random.c", "reference/src/taimpl/src/porting/rand.c", I+"saimpl.c"],
 [("size check before the name is copied", T+"ta_sa_get_name.c"), ("random source of the porting layer", "reference/src/taimpl/src/porting/rand.c")],
 ["status and outputs, and the ranges requested of the random source"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
