// C13: altered key containers are refused.
#include "anykey.hpp"
#include "gates.hpp"
#include <yajl/yajl_tree.h>
using namespace mc;
static const size_t HD = sizeof(sa_header), O_HD = 16, O_IV = O_HD + HD, O_LEN = O_IV + 16, O_CT = O_LEN + 8;
struct Ctx { // one session to import into
    Session s{true, uuid_of(1)}; sa_handle kc = INVALID_HANDLE, kh = INVALID_HANDLE; int free0 = 0;
    Ctx() { mkkey(s.A, &kc, keyval("kc"), rights_all()); mkkey(s.A, &kh, keyval("kh"), rights_all()); free0 = slots_free(s.A, K_KEY, kc); }
    sa_status imp(int kind, const uint8_t* p, size_t n, sa_handle* h) {
        *h = INVALID_HANDLE; sa_import_parameters_typej tp = {kc, kh};
        return CALL(s.A, sa_key_import, h, kind == 0 ? SA_KEY_FORMAT_EXPORTED : kind == 1 ? SA_KEY_FORMAT_TYPEJ : SA_KEY_FORMAT_SOC, p, n, kind == 1 ? &tp : nullptr);
    }
    sa_status imp(int kind, const Bytes& c, sa_handle* h) { Blk b(c); return imp(kind, b.p, b.n, h); }
};
// ---- what an external container says: decoded, with everything that carries no meaning removed
static int b64v(char c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '-' || c == '+') return 62; if (c == '_' || c == '/') return 63; return -1; }
static bool unb64(std::string s, std::string& o) { // ignores unused bits of the last character
    while (!s.empty() && s.back() == '=') s.pop_back();
    o.clear(); uint32_t v = 0; int n = 0;
    for (char c : s) { int x = b64v(c); if (x < 0) return false; v = v << 6 | (uint32_t) x; n += 6; if (n >= 8) { n -= 8; o += (char) (v >> n & 255); } }
    return n != 6;
}
static bool canon(int kind, const Bytes& c, std::string& out) {
    std::string s(c.begin(), c.end()), h, p, g; size_t a = s.find('.'), b = a == std::string::npos ? a : s.find('.', a + 1);
    if (b == std::string::npos || !unb64(s.substr(b + 1), g)) return false;
    if (kind == 1) { out = s.substr(0, b + 1) + g; return true; } // the text of header and payload is what is signed
    if (!unb64(s.substr(0, a), h) || !unb64(s.substr(a + 1, b - a - 1), p)) return false;
    if (h.find('\0') != std::string::npos || p.find('\0') != std::string::npos) return false;
    out.clear();
    for (int part = 0; part < 2; part++) {
        char err[100]; yajl_val t = yajl_tree_parse(part ? p.c_str() : h.c_str(), err, sizeof err); if (!t) return false;
        if (!YAJL_IS_OBJECT(t)) { yajl_tree_free(t); return false; }
        std::map<std::string, std::string> f; static const char* known[] = {"alg", "containerVersion", "rootKeyType", "keyType", "encryptedKey", "iv", "keyUsage", "decryptedKeyUsage", "c1", "c2", "c3", "entitledTaIds"};
        for (size_t i = 0; i < t->u.object.len; i++) {
            std::string k = t->u.object.keys[i], v; yajl_val x = t->u.object.values[i]; bool kn = false; for (auto q : known) kn |= k == q; if (!kn) continue;
            if (YAJL_IS_STRING(x)) { v = YAJL_GET_STRING(x); if (k == "encryptedKey" || k == "iv" || k[0] == 'c') { std::string d; if (unb64(v, d)) v = d; } }
            else if (YAJL_IS_NUMBER(x)) { char n[40]; double d = YAJL_GET_DOUBLE(x); snprintf(n, sizeof n, "#%g", d); v = n; }
            else if (YAJL_IS_ARRAY(x)) { for (size_t j = 0; j < x->u.array.len; j++) { const char* e = YAJL_GET_STRING(x->u.array.values[j]); std::string l = e ? e : "?"; for (auto& ch : l) ch = (char) tolower(ch); v += l + "|"; } }
            else v = "?";
            f[k] = v;
        }
        for (auto& e : f) out += e.first + "=" + e.second + "\n";
        yajl_tree_free(t);
    }
    out += g; return true;
}
// ---- alterations
struct Cont { int kind; std::string name; Bytes c; std::string can; };
static bool refused(Run& r, Ctx& x, const Cont& o, const Bytes& alt, const char* what, size_t at) {
    if (alt == o.c) return true;
    sa_handle h; sa_status s = x.imp(o.kind, alt, &h); r.transitions();
    if (s != SA_STATUS_OK) return r.check(h == INVALID_HANDLE, "%s: %s %zu: refused (%s), yet a handle was returned", o.name.c_str(), what, at, sn(s));
    std::string c; bool same = o.kind && canon(o.kind, alt, c) && c == o.can; rel(x.s.A, K_KEY, h);
    return r.check(same, "%s: %s %zu: accepted", o.name.c_str(), what, at);
}
static void flips(Run& r, const Cont& o, size_t from, size_t to) {
    env::reset(); env::caller = uuid_of(1); Ctx x; sa_handle h;
    sa_status st = x.imp(o.kind, o.c, &h); if (!r.check(st == SA_STATUS_OK, "%s not accepted unaltered: %s", o.name.c_str(), sn(st))) return; rel(x.s.A, K_KEY, h);
    Bytes a = o.c;
    for (size_t i = from; i < to && i < a.size(); i++) {
        uint8_t was = a[i]; r.beat();
        for (int v = 0; v < 256; v++) {
            uint8_t d = (uint8_t) v ^ was; bool bit = d && !(d & (d - 1));
            bool chr = o.kind && (b64v((char) v) >= 0 || v == '.' || v == '=' || v == 0 || v == ' ' || v == '\n');
            if (!r.thorough && !bit && !(chr && i % 4 == 0) && v != 0 && v != 255) continue;
            a[i] = (uint8_t) v; if (!refused(r, x, o, a, "byte", i)) return;
        }
        a[i] = was;
    }
    r.check(slots_free(x.s.A, K_KEY, x.kc) == x.free0, "%s: key slots lost", o.name.c_str()); r.traces();
}
static void lengths(Run& r, const Cont& o, size_t from, size_t to) { // every prefix, suffix and gap
    env::reset(); env::caller = uuid_of(1); Ctx x;
    for (size_t n = from; n < to && n <= o.c.size(); n++) {
        if (n < o.c.size()) {
            if (!refused(r, x, o, sub(o.c, 0, n), "cut to", n) || !refused(r, x, o, sub(o.c, n, o.c.size() - n), "without the first", n)) return;
            Bytes b = o.c; b.erase(b.begin() + (long) n); if (!refused(r, x, o, b, "without byte", n)) return;
            b = o.c; b.insert(b.begin() + (long) n, b[n]); if (!refused(r, x, o, b, "doubled byte", n)) return;
        }
        for (int v : {0, 255, (int) '=', (int) '.', (int) 'A', (int) ' '}) { Bytes b = o.c; b.insert(b.begin() + (long) n, (uint8_t) v); if (!refused(r, x, o, b, "inserted byte at", n)) return; }
        if (r.thorough || n % 8 == 0) for (size_t l : {2, 4, 8, 15, 16, 32, 48}) { Bytes b = o.c; if (n + l <= b.size()) { b.erase(b.begin() + (long) n, b.begin() + (long) (n + l)); if (!refused(r, x, o, b, "removed range at", n)) return; b = o.c; } b.insert(b.begin() + (long) n, l, 0); if (!refused(r, x, o, b, "inserted range at", n)) return; }
    }
    r.check(slots_free(x.s.A, K_KEY, x.kc) == x.free0, "%s: key slots lost", o.name.c_str()); r.traces();
}
// two containers mixed
static void splice(Run& r, const Cont& o, const Cont& q) {
    env::reset(); env::caller = uuid_of(1); Ctx x;
    if (o.kind == 0) {
        size_t oe = o.c.size(), qe = q.c.size(), ob[] = {0, O_HD, O_IV, O_LEN, O_CT, oe - 32, oe}, qb[] = {0, O_HD, O_IV, O_LEN, O_CT, qe - 32, qe};
        for (int m = 1; m < 63; m++) { // fields taken from q
            Bytes b; for (int f = 0; f < 6; f++) { const Bytes& s = m >> f & 1 ? q.c : o.c; const size_t* e = m >> f & 1 ? qb : ob; b.insert(b.end(), s.begin() + (long) e[f], s.begin() + (long) e[f + 1]); }
            if (b == q.c || b == o.c) continue;
            if (!refused(r, x, o, b, "fields of another container", (size_t) m)) return;
            uint64_t l = (m >> 4 & 1 ? qe : oe) - O_CT - 32; memcpy(&b[O_LEN], &l, 8); if (b == q.c) continue;
            if (!refused(r, x, o, b, "fields of another container, length adjusted", (size_t) m)) return;
        }
        for (size_t i = 1; i < std::min(oe, qe); i += r.thorough ? 1 : 3) { Bytes b = cat({sub(o.c, 0, i), sub(q.c, i, qe - i)}); if (b == q.c || b == o.c) continue; if (!refused(r, x, o, b, "continued by another container from", i)) return; }
    } else {
        auto part = [](const Bytes& c) { std::vector<std::string> v(1); for (uint8_t ch : c) if (ch == '.') v.emplace_back(); else v.back() += (char) ch; return v; };
        auto a = part(o.c), b = part(q.c);
        for (int m = 1; m < 7; m++) { std::string s; for (int f = 0; f < 3; f++) s += (f ? "." : "") + (m >> f & 1 ? b : a)[(size_t) f]; Bytes t(s.begin(), s.end()); if (t == q.c || t == o.c) continue;
            std::string cn; if (canon(o.kind, t, cn) && (cn == o.can || cn == q.can)) continue;
            if (!refused(r, x, o, t, "parts of another container", (size_t) m)) return; }
        // reordered, missing, empty and extra parts
        std::vector<std::string> alt = {a[0] + "." + a[1], a[0], "", ".", "..", "...", a[0] + "..", "." + a[1] + ".", ".." + a[2], a[0] + "." + a[1] + ".", a[0] + ".." + a[2], "." + a[1] + "." + a[2], a[1] + "." + a[0] + "." + a[2], a[0] + "." + a[1] + "." + a[2] + ".", a[0] + "." + a[1] + "." + a[2] + "." + a[2], "." + a[0] + "." + a[1] + "." + a[2], a[0] + "." + a[1] + "." + a[2].substr(0, a[2].size() - 4), a[0] + "." + a[1] + "." + a[2] + "AAAA", a[0] + "." + a[1] + "." + a[2] + a[2]};
        for (size_t i = 0; i < alt.size(); i++) if (!refused(r, x, o, Bytes(alt[i].begin(), alt[i].end()), "arrangement", i)) return;
    }
    r.check(slots_free(x.s.A, K_KEY, x.kc) == x.free0, "%s: key slots lost", o.name.c_str()); r.traces();
}
static void blocks(Run& r, const Cont& o) { // ciphertext blocks and the length field
    env::reset(); env::caller = uuid_of(1); Ctx x; size_t n = (o.c.size() - O_CT - 32) / 16;
    auto put = [&](Bytes b, uint64_t l) { memcpy(&b[O_LEN], &l, 8); return b; };
    for (size_t i = 0; i < n && i < 40; i++) {
        for (size_t j = i + 1; j < n && j < 40; j++) { Bytes b = o.c; std::swap_ranges(b.begin() + (long) (O_CT + 16 * i), b.begin() + (long) (O_CT + 16 * i + 16), b.begin() + (long) (O_CT + 16 * j)); if (!refused(r, x, o, b, "blocks swapped", i * 100 + j)) return; }
        Bytes b = o.c; b.erase(b.begin() + (long) (O_CT + 16 * i), b.begin() + (long) (O_CT + 16 * i + 16)); if (!refused(r, x, o, put(b, (n - 1) * 16), "block removed", i)) return;
        b = o.c; Bytes k = sub(o.c, O_CT + 16 * i, 16); b.insert(b.begin() + (long) (O_CT + 16 * i), k.begin(), k.end()); if (!refused(r, x, o, put(b, (n + 1) * 16), "block repeated", i)) return;
    }
    for (uint64_t l = 0; l < 2048; l++) if (!refused(r, x, o, put(o.c, l), "length field", l)) return;
    for (int s = 0; s < 64; s++) for (int d = -2; d <= 2; d++) for (int m : {1, 16}) { if (!refused(r, x, o, put(o.c, (1ull << s) + (uint64_t) (int64_t) (d * m)), "length field 2^", (size_t) s)) return; if (!refused(r, x, o, put(o.c, n * 16 + (1ull << s) * (uint64_t) (int64_t) d * (uint64_t) m), "length field plus 2^", (size_t) s)) return; }
    // forgeries that need no key: zero or constant MAC, MAC of other data under known keys
    for (int v : {0, 255}) { Bytes b = o.c; memset(&b[b.size() - 32], v, 32); if (!refused(r, x, o, b, "constant MAC", (size_t) v)) return; }
    for (int w = 0; w < 4; w++) { Bytes b = o.c, k = w == 0 ? Bytes(32, 0) : w == 1 ? Bytes(16, 0) : w == 2 ? sub(o.c, 0, 16) : root_key(false); for (size_t f : {(size_t) 0, O_HD, O_IV, O_CT}) { Bytes m = ref_hmac("SHA256", k, sub(b, f, b.size() - 32 - f)); memcpy(&b[b.size() - 32], m.data(), 32); if (!refused(r, x, o, b, "MAC under a guessed key", (size_t) w)) return; } }
    // rights raised together with every single bit of the MAC
    Bytes b = o.c; ((sa_header*) &b[O_HD])->rights.usage_flags ^= 1; for (int i = 0; i < 256; i++) { Bytes t = b; t[t.size() - 32 + (size_t) i / 8] ^= (uint8_t) (1 << i % 8); if (!refused(r, x, o, t, "usage and MAC bit", (size_t) i)) return; }
    r.check(slots_free(x.s.A, K_KEY, x.kc) == x.free0, "%s: key slots lost", o.name.c_str()); r.traces();
}
static void external(Run& r, const Cont& o) { // signed or sealed with other keys, other algorithms
    env::reset(); env::caller = uuid_of(1); Ctx x; std::string s(o.c.begin(), o.c.end()); size_t a = s.find('.'), b = s.find('.', a + 1); std::string hp = s.substr(0, b), tag = s.substr(b + 1), raw; unb64(tag, raw);
    auto with = [&](const Bytes& t) { std::string q = hp + "." + b64(t, true); return Bytes(q.begin(), q.end()); };
    Bytes m(hp.begin(), hp.end()), tg(raw.begin(), raw.end());
    if (o.kind == 1) for (auto k : {Bytes(32, 0), Bytes(16, 0), keyval("kc"), pattern(32, 45), Bytes(1, 0), sub(keyval("kh"), 0, 16)}) if (!refused(r, x, o, with(ref_hmac("SHA256", k, m)), "signed with another key of size", k.size())) return;
    if (o.kind == 1) for (auto d : {"SHA1", "SHA384", "SHA512"}) { Bytes t = ref_hmac(d, keyval("kh"), m); if (!refused(r, x, o, with(t), "signed with another digest", t.size())) return; t.resize(32); if (!refused(r, x, o, with(t), "signed with another digest, cut", 0)) return; }
    for (size_t n = 0; n <= 40; n++) { Bytes t = tg; t.resize(n); if (!refused(r, x, o, with(t), "signature of size", n)) return; }
    for (int v = 0; v < 256; v++) { Bytes t(tg.size(), (uint8_t) v); if (!refused(r, x, o, with(t), "constant signature", (size_t) v)) return; t = tg; t[0] ^= (uint8_t) v; if (v && !refused(r, x, o, with(t), "first byte of the signature", (size_t) v)) return; t = tg; t.back() ^= (uint8_t) v; if (v && !refused(r, x, o, with(t), "last byte of the signature", (size_t) v)) return; }
    if (o.kind == 2) for (int n : {4, 8, 12, 13, 14, 15}) { Bytes t = tg; t.resize((size_t) n); if (!refused(r, x, o, with(t), "shorter tag", (size_t) n)) return; } // each is the valid tag of that length
    // every byte of the decoded header and payload, encoded again
    for (int part = 0; part < 2; part++) {
        std::string t; unb64(part ? s.substr(a + 1, b - a - 1) : s.substr(0, a), t);
        for (size_t i = 0; i < t.size(); i++) { r.beat(); for (int v = 0; v < 256; v++) { uint8_t d = (uint8_t) (v ^ t[i]); if (!d || (!r.thorough && (d & (d - 1)) && v != '0' && v != '"' && v != ' ' && v != '9' && v != 0)) continue; std::string u = t; u[i] = (char) v; std::string q = part ? s.substr(0, a + 1) + b64s(u, true) + s.substr(b) : b64s(u, true) + s.substr(a); if (!refused(r, x, o, Bytes(q.begin(), q.end()), part ? "payload byte" : "header byte", i)) return; } }
    }
    r.check(slots_free(x.s.A, K_KEY, x.kc) == x.free0, "%s: key slots lost", o.name.c_str()); r.traces();
}
static std::vector<Cont> make_all(Run& r) {
    std::vector<Cont> v; env::reset(); env::caller = uuid_of(1); env::rand_state = 77; Session s(true, uuid_of(1)); // the same containers in every worker
    std::vector<AnyKey> ks = {k_sym(16), k_sym(16, 5), k_sym(33), k_sym(512), k_ec(0), k_ec(4), k_rsa(128), k_dh()}; if (r.thorough) { ks.push_back(k_rsa(256)); ks.push_back(k_ec(2)); ks.push_back(k_sym(255)); }
    for (size_t i = 0; i < ks.size(); i++) {
        sa_handle h; sa_rights rt = rights_all(); strcpy(rt.id, "sealed"); Bytes m = pattern(16, (unsigned) i); uint8_t out[6000]; size_t n = sizeof out;
        if (ak_make(s.A, &h, ks[i], rt) == 0 && CALL(s.A, sa_key_export, out, &n, i % 2 ? m.data() : nullptr, i % 2 ? 16 : 0, h) == 0) v.push_back({0, "exported " + ks[i].name + " " + std::to_string(i), Bytes(out, out + n), ""}); else r.fail("export %zu", i);
        rel(s.A, K_KEY, h);
    }
    for (int i = 0; i < 4; i++) { TypeJ t; t.kc = keyval("kc"); t.kh = keyval("kh"); t.version = i; if (i == 2) t.key = pattern(16, 89); if (i == 3) { t.alg = "aesCbcPkcs5"; t.has_tas = true; t.tas = {"00000000-0000-0000-0000-000000000001", "ffffffff-ffff-ffff-ffff-ffffffffffff"}; } Cont c{1, "typej v" + std::to_string(i), t.make(), ""}; canon(1, c.c, c.can); v.push_back(c); }
    for (int i = 0; i < 4; i++) { Soc t; if (i == 1) { t.version = 5; t.root = "common"; t.has_tas = true; t.tas = {"ffffffff-ffff-ffff-ffff-ffffffffffff", "A0000000-0000-0000-0000-00000000000b"}; } if (i == 2) { t.usage = 2; t.has_dec = true; t.dec = 1; t.key = pattern(16, 67); } if (i == 3) { t.type = "ECC-P256"; t.key = pkcs8(ec_pkey(0, 1)); } Cont c{2, "soc " + std::to_string(i), t.make(), ""}; canon(2, c.c, c.can); v.push_back(c); }
    return v;
}
static void explore(Run& r) {
    auto v = make_all(r);
    for (auto& o : v) {
        size_t step = o.kind ? 16 : 48;
        for (size_t i = 0; i < o.c.size(); i += step) { if (r.stop()) return; if (r.take("bytes %s from %zu", o.name.c_str(), i)) { r.nontrivial(hash(r.current())); flips(r, o, i, i + step); } }
        for (size_t i = 0; i <= o.c.size(); i += 64) { if (r.stop()) return; if (r.take("lengths %s from %zu", o.name.c_str(), i)) { r.nontrivial(hash(r.current())); lengths(r, o, i, i + 64); } }
        for (auto& q : v) if (q.kind == o.kind && q.name != o.name) { if (r.stop()) return; if (r.take("splice %s %s", o.name.c_str(), q.name.c_str())) { r.nontrivial(hash(r.current())); splice(r, o, q); } }
        if (o.kind == 0) { if (r.take("blocks %s", o.name.c_str())) { r.nontrivial(hash(r.current())); blocks(r, o); } }
        else if (r.take("external %s", o.name.c_str())) { r.nontrivial(hash(r.current())); external(r, o); }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C13";
    s.rule = "Exported containers of eight keys (eleven thorough), downloaded containers of four versions and provisioned containers of four kinds, imported from exact-size memory under the address sanitizer: every single-bit change of every byte (thorough: every value), every truncation at either end, every removed, doubled and inserted byte, ranges removed and inserted, every mixture of the fields of two containers, exchanged, removed and repeated ciphertext blocks, 2048 and all near-power-of-two length fields, signatures of every length and of other keys and digests, every byte of the decoded header and payload. An altered external container may be accepted only if, decoded by an independent parser, it says the same. Key slots are counted after each family. Non-trivial: distinct families.";
    s.assumptions = {"a forged 256-bit or 128-bit authentication value is not hit by chance", "unused bits of base64 text and JSON that carries no field are not part of what a container says"};
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
