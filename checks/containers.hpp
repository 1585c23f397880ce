// Builders of the external key containers (typej and SoC), independent of the code under test.
#pragma once
#include "sah.hpp"
extern "C" bool load_pkcs12_secret_key(void* key, size_t* key_length, char* name, size_t* name_length);
static inline std::string b64(const void* p, size_t n, bool url) {
    const char* t = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const uint8_t* b = (const uint8_t*) p; std::string o;
    for (size_t i = 0; i < n; i += 3) {
        uint32_t v = b[i] << 16 | (i + 1 < n ? b[i + 1] << 8 : 0) | (i + 2 < n ? b[i + 2] : 0);
        o += t[v >> 18]; o += t[v >> 12 & 63];
        if (i + 1 < n) o += t[v >> 6 & 63]; else if (!url) o += '=';
        if (i + 2 < n) o += t[v & 63]; else if (!url) o += '=';
    }
    return o;
}
static inline std::string b64(const Bytes& b, bool url) { return b64(b.data(), b.size(), url); }
static inline std::string b64s(const std::string& s, bool url) { return b64(s.data(), s.size(), url); }
// the 128-bit root keys of the test keystore
static inline Bytes root_key(bool common) {
    static Bytes k[2];
    if (k[common].empty()) {
        Bytes o(64); size_t n = 16; char name[256]; size_t nl = common ? sizeof name : 16;
        strcpy(name, common ? "commonroot" : "");
        if (!load_pkcs12_secret_key(o.data(), &n, name, &nl)) { fprintf(stderr, "root key\n"); abort(); }
        o.resize(n); k[common] = o;
    }
    return k[common];
}
static inline Bytes ecb_dec(const Bytes& key, const Bytes& in) { return ref_cipher("AES-128-ECB", false, key, {}, in, false); }
static inline Bytes ladder3(bool common, const Bytes& c1, const Bytes& c2, const Bytes& c3) { return ecb_dec(ecb_dec(ecb_dec(root_key(common), c1), c2), c3); }

struct TypeJ {
    std::string id = "tj-key", before = "2000-01-01T00:00:00Z", after = "2100-01-01T00:00:00Z", alg = "aesEcbNone";
    Bytes rights = {3, 4, 5}; int usage = 0; bool cacheable = true; int version = 2; // version 0: field absent
    Bytes key = pattern(16, 88), iv = pattern(16, 77); long length = -1; bool has_tas = false; std::vector<std::string> tas;
    std::string header = "{\"kid\":\"x\",\"alg\":\"HS256\"}";
    Bytes kc, kh;    // transport cipher key, mac key
    Bytes wrapped;   // if set, used instead of the encryption of key
    std::string extra;
    std::string payload() const {
        Bytes w = wrapped;
        if (w.empty()) {
            bool pk = alg.find("Pkcs5") != std::string::npos && version > 1, cbc = alg.find("Cbc") != std::string::npos && version > 1;
            Bytes k = key; if (pk) { size_t n = 16 - k.size() % 16; k.insert(k.end(), n, (uint8_t) n); }
            std::string c = std::string(kc.size() == 16 ? "AES-128-" : "AES-256-") + (cbc ? "CBC" : "ECB");
            w = ref_cipher(c.c_str(), true, kc, cbc ? iv : Bytes(), k, false);
        }
        std::string s = "{";
        auto f = [&](const std::string& n, const std::string& v) { if (s.size() > 1) s += ","; s += "\"" + n + "\":" + v; };
        auto q = [](const std::string& v) { return "\"" + v + "\""; };
        f("contentKeyId", q(id)); f("contentKeyRights", q(b64(rights, false))); f("contentKeyUsage", std::to_string(usage));
        f("contentKeyNotBefore", q(before)); f("contentKeyNotOnOrAfter", q(after)); f("contentKeyCacheable", cacheable ? "true" : "false");
        f("contentKey", q(b64(w, false)));
        if (version) f("contentKeyContainerVersion", std::to_string(version));
        if (version >= 2) { f("contentKeyLength", std::to_string(length < 0 ? (long) key.size() : length)); f("contentKeyTransportAlgorithm", q(alg));
            if (alg.find("Cbc") != std::string::npos) f("contentKeyTransportIv", q(b64(iv, false))); }
        if (has_tas) { std::string a = "["; for (auto& t : tas) a += (a.size() > 1 ? "," : "") + q(t); f("entitledTaIds", a + "]"); }
        return s + extra + "}";
    }
    static Bytes sign(const std::string& h64, const std::string& p64, const Bytes& kh) {
        std::string m = h64 + "." + p64;
        m += "." + b64(ref_hmac("SHA256", kh, Bytes(m.begin(), m.end())), true);
        return Bytes(m.begin(), m.end());
    }
    Bytes make() const { return sign(b64s(header, true), b64s(payload(), true), kh); }
};
struct Soc {
    std::string alg = "A128GCM", type = "AES-128", root; int version = 4; Bytes key = pattern(16, 66), iv = pattern(12, 55);
    int usage = 3; bool has_dec = false; int dec = 0; bool has_tas = false; std::vector<std::string> tas;
    Bytes c1 = pattern(16, 31), c2 = pattern(16, 32), c3 = pattern(16, 33);
    std::string extra;
    Bytes aad() const {
        std::string a = alg; a += (char) version;
        if (version >= 5) a += root;
        a += type; a += (char) usage; if (usage == 2) a += (char) dec;
        Bytes o(a.begin(), a.end());
        for (auto* b : {&iv, &c1, &c2, &c3}) o.insert(o.end(), b->begin(), b->end());
        for (auto& t : tas) for (char c : t) o.push_back((uint8_t) tolower(c));
        return o;
    }
    std::string hdr() const { return "{\"alg\":\"" + alg + "\"}"; }
    std::string payload(const Bytes& ct) const {
        std::string s = "{";
        auto f = [&](const std::string& n, const std::string& v) { if (s.size() > 1) s += ","; s += "\"" + n + "\":" + v; };
        auto q = [](const std::string& v) { return "\"" + v + "\""; };
        f("containerVersion", std::to_string(version)); if (!root.empty()) f("rootKeyType", q(root));
        f("keyType", q(type)); f("encryptedKey", q(b64(ct, false))); f("iv", q(b64(iv, false))); f("keyUsage", std::to_string(usage));
        if (has_dec) f("decryptedKeyUsage", std::to_string(dec));
        if (has_tas) { std::string a = "["; for (auto& t : tas) a += (a.size() > 1 ? "," : "") + q(t); f("entitledTaIds", a + "]"); }
        f("c1", q(b64(c1, false))); f("c2", q(b64(c2, false))); f("c3", q(b64(c3, false)));
        return s + extra + "}";
    }
    Bytes make() const {
        Aead e = ref_aead("AES-128-GCM", true, ladder3(root == "common", c1, c2, c3), iv, aad(), key, Bytes(), 16);
        std::string m = b64s(hdr(), true) + "." + b64s(payload(e.out), true) + "." + b64(e.tag, true);
        return Bytes(m.begin(), m.end());
    }
};
