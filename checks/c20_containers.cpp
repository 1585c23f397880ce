// C20: external key containers grant exactly what they declare.
#include "anykey.hpp"
#include "gates.hpp"
using namespace mc;
#define SETUP(ta) env::reset(); env::caller = uuid_of(1); env::video = {0, 0, 0, 0, 0, true}; Session S(ta, uuid_of(1)); Api& A = S.A
typedef std::vector<std::pair<std::string, std::string>> Fields;
static Fields split(const std::string& js) { // {"a":x,"b":y} -> fields with their raw values
    Fields f; size_t i = 1; while (i < js.size() && js[i] != '}') { if (js[i] == ',') i++; size_t e = js.find('"', i + 1); std::string k = js.substr(i + 1, e - i - 1); size_t v = e + 2, d = 0; bool q = false; size_t j = v; for (; j < js.size(); j++) { char c = js[j]; if (c == '"') q = !q; if (q) continue; if (c == '[' || c == '{') d++; else if (c == ']' || (c == '}' && d)) d--; else if ((c == ',' || c == '}') && !d) break; } f.push_back({k, js.substr(v, j - v)}); i = j; }
    return f;
}
static std::string join(const Fields& f) { std::string s = "{"; for (auto& e : f) s += (s.size() > 1 ? ",\"" : "\"") + e.first + "\":" + e.second; return s + "}"; }
static Fields without(Fields f, const std::string& n) { for (size_t i = 0; i < f.size(); i++) if (f[i].first == n) { f.erase(f.begin() + (long) i); break; } return f; }
static Fields with(Fields f, const std::string& n, const std::string& v) { for (auto& e : f) if (e.first == n) { e.second = v; return f; } f.push_back({n, v}); return f; }
struct Ctx {
    Api& A; sa_handle kc = INVALID_HANDLE, kh = INVALID_HANDLE; int n0 = 0; Run& r; Bytes vc, vh;
    Ctx(Run& r_, Api& a, size_t kcl = 16) : A(a), r(r_), vc(pattern(kcl, 500)), vh(pattern(32, 501)) { mkkey(A, &kc, vc, rights_all()); mkkey(A, &kh, vh, rights_all()); n0 = slots_free(A, K_KEY, kc); }
    ~Ctx() { r.check(slots_free(A, K_KEY, kc) == n0, "key slots lost"); rel(A, K_KEY, kc); rel(A, K_KEY, kh); }
    TypeJ tj() { TypeJ t; t.kc = vc; t.kh = vh; return t; }
    sa_status typej(const Bytes& c, sa_handle* h) { *h = INVALID_HANDLE; Blk b(c); sa_import_parameters_typej p = {kc, kh}; r.transitions(); r.beat(); return CALL(A, sa_key_import, h, SA_KEY_FORMAT_TYPEJ, b.p, b.n, &p); }
    sa_status soc(const Bytes& c, sa_handle* h, void* p = nullptr) { *h = INVALID_HANDLE; Blk b(c); r.transitions(); r.beat(); return CALL(A, sa_key_import, h, SA_KEY_FORMAT_SOC, b.p, b.n, p); }
    bool refused(sa_status s, sa_handle h, const std::string& w) { if (s == SA_STATUS_OK) rel(A, K_KEY, h); return r.check(s != SA_STATUS_OK, "%s: accepted", w.c_str()) && r.check(h == INVALID_HANDLE, "%s: refused, but a handle is returned", w.c_str()); }
    Bytes signtj(const std::string& payload) { return TypeJ::sign(b64s("{\"alg\":\"HS256\"}", true), b64s(payload, true), vh); }
};
static const uint64_t DATA = F(SA_USAGE_FLAG_DECRYPT) | F(SA_USAGE_FLAG_ENCRYPT), SD = F(SA_USAGE_FLAG_SIGN) | F(SA_USAGE_FLAG_DERIVE), UNW = F(SA_USAGE_FLAG_UNWRAP);
// what a sequence of typej rights means; false: unknown right
static bool tj_out(const Bytes& rights, uint64_t* out) {
    bool svp = false, an = false, cg = false; uint64_t u = 0;
    for (uint8_t x : rights) { if (x == 1) svp = true; else if (x == 2) u |= F(SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP); else if (x == 3) u |= F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14); else if (x == 4) u |= F(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22); else if (x == 5) an = true; else if (x == 8) cg = true; else if (x) return false; }
    if (!svp) u |= F(SA_USAGE_FLAG_SVP_OPTIONAL); if (an) u |= F(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA); if (an && !cg) u |= F(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);
    *out = u; return true;
}
static bool hexuuid(const std::string& s, sa_uuid* u) { int j = 0, hi = -1; if (s.size() != 36) return false; for (size_t i = 0; i < 36; i++) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return false; continue; } int c = tolower(s[i]), v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (v < 0) return false; if (hi < 0) hi = v; else { u->id[j++] = (uint8_t) (hi * 16 + v); hi = -1; } } return true; }
static void tas_of(bool has, bool empty_all, const std::vector<std::string>& t, sa_rights* r) { memset(r->allowed_tas, 0, sizeof r->allowed_tas); if (!has || (t.empty() && empty_all)) memset(&r->allowed_tas[0], 0xff, sizeof(sa_uuid)); else for (size_t i = 0; i < t.size() && i < MAX_NUM_ALLOWED_TA_IDS; i++) hexuuid(t[i], &r->allowed_tas[i]); }
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int64_t epoch(const std::string& s) { int y, mo, d, h, mi, se; sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2dZ", &y, &mo, &d, &h, &mi, &se); return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se; }
static bool tj_model(const TypeJ& t, sa_rights* o) {
    memset(o, 0, sizeof *o); if (t.id.size() > sizeof o->id - 1) return false; memcpy(o->id, t.id.data(), t.id.size()); uint64_t u; if (!tj_out(t.rights, &u)) return false;
    if (t.usage == 0) u |= UNW | DATA | SD; else if (t.usage == 1) u |= DATA | SD; else if (t.usage == 2) u |= UNW; else return false;
    if (t.cacheable) u |= F(SA_USAGE_FLAG_CACHEABLE); o->usage_flags = u; int64_t b = epoch(t.before), a = epoch(t.after); if (b < 0 || a < -1) return false; /* the second before 1970 stands for "no end" */ o->not_before = (uint64_t) b; o->not_on_or_after = (uint64_t) a; tas_of(t.has_tas, false, t.tas, o); return true;
}
// is it exactly this key? by header, by digest, and by what it does when its rights allow that here
static std::string is(Ctx& x, sa_handle h, const AnyKey& k, const sa_rights& rt) {
    sa_header hd; memset(&hd, 0xa5, sizeof hd); sa_status s = CALL(x.A, sa_key_header, &hd, h); if (s) return std::string("header: ") + sn(s);
    if (memcmp(&hd.rights, &rt, sizeof rt)) return strf("rights differ (id '%.8s', usage %llx, expected %llx, child %llx, expected %llx, from %llu to %llu, expected %llu to %llu%s)", hd.rights.id, (unsigned long long) hd.rights.usage_flags, (unsigned long long) rt.usage_flags, (unsigned long long) hd.rights.child_usage_flags, (unsigned long long) rt.child_usage_flags, (unsigned long long) hd.rights.not_before, (unsigned long long) hd.rights.not_on_or_after, (unsigned long long) rt.not_before, (unsigned long long) rt.not_on_or_after, memcmp(hd.rights.allowed_tas, rt.allowed_tas, sizeof rt.allowed_tas) ? ", applications" : "");
    if (hd.type != k.type || hd.size != k.size || (k.type == SA_KEY_TYPE_EC && (int) hd.type_parameters.curve != k.curve)) return strf("type %d size %d curve %d, expected %d %zu %d", hd.type, hd.size, hd.type_parameters.curve, k.type, k.size, k.curve);
    if (k.type == SA_KEY_TYPE_SYMMETRIC) {
        uint8_t d[32]; size_t n = 32; s = CALL(x.A, sa_key_digest, d, &n, h, SA_DIGEST_ALGORITHM_SHA256); sa_uuid all, me = uuid_of(1); memset(&all, 0xff, sizeof all); bool mine = false; for (auto& t : rt.allowed_tas) mine |= !memcmp(&t, &all, 16) || !memcmp(&t, &me, 16);
        uint64_t now = (uint64_t) env::now; if (!mine || now < rt.not_before || now >= rt.not_on_or_after) return "";
        if (s) return std::string("digest: ") + sn(s); if (Bytes(d, d + 32) != ref_digest("SHA256", k.material)) return "other key material";
        if (rt.usage_flags & F(SA_USAGE_FLAG_SIGN)) { sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256}; sa_crypto_mac_context c = INVALID_HANDLE; s = CALL(x.A, sa_crypto_mac_init, &c, SA_MAC_ALGORITHM_HMAC, h, &p); if (s) return std::string("mac: ") + sn(s); Bytes m = pattern(9, 1); uint8_t o[32]; size_t ol = 32; CALL(x.A, sa_crypto_mac_process, c, m.data(), m.size()); s = CALL(x.A, sa_crypto_mac_compute, o, &ol, c); rel(x.A, K_MAC, c); if (s || Bytes(o, o + 32) != ref_hmac("SHA256", k.material, m)) return "another MAC"; }
    } else { uint8_t b[2048]; size_t n = sizeof b; s = CALL(x.A, sa_key_get_public, b, &n, h); if (s || Bytes(b, b + n) != k.pub) return std::string("public key: ") + sn(s); }
    return "";
}
static bool tj_ok(Ctx& x, const TypeJ& t, const std::string& w) {
    sa_rights rt; bool want = tj_model(t, &rt); if (t.key.size() < 16 || t.key.size() > 512) want = false; if (t.length >= 0 && t.version >= 2 && (size_t) t.length != t.key.size()) want = false; if (t.version > 3 || t.version < 0) want = false; if (t.has_tas && t.tas.size() > MAX_NUM_ALLOWED_TA_IDS) want = false;
    bool pk = t.version >= 2 && t.alg.find("Pkcs5") != std::string::npos; if (!pk && t.key.size() % 16) want = false;
    sa_handle h; sa_status s = x.typej(t.make(), &h); x.r.state(hash(strf("%d %d %llx", s, t.usage, (unsigned long long) rt.usage_flags)));
    if (!want) return x.refused(s, h, w);
    if (!x.r.check(s == SA_STATUS_OK, "%s: %s", w.c_str(), sn(s))) return false;
    AnyKey k; k.type = SA_KEY_TYPE_SYMMETRIC; k.size = t.key.size(); k.material = t.key; std::string e = is(x, h, k, rt); rel(x.A, K_KEY, h); return x.r.check(e.empty(), "%s: %s", w.c_str(), e.c_str());
}
static const char* ALGS[] = {"aesEcbNone", "aesEcbPkcs5", "aesCbcNone", "aesCbcPkcs5"};
static void tj_combos(Run& r, bool ta, int version, int alg, int usage) {
    SETUP(ta); for (size_t kcl : {(size_t) 16, (size_t) 32}) { Ctx x(r, A, kcl); static const uint8_t rb[] = {0, 1, 2, 3, 4, 5, 8};
        for (int m = 0; m < 128; m++) for (int c = 0; c < 2; c++) { if (!r.thorough && kcl == 32 && m % 5) continue; TypeJ t = x.tj(); t.version = version; t.alg = ALGS[alg]; t.usage = usage; t.cacheable = c; t.rights.clear(); for (int i = 0; i < 7; i++) if (m >> i & 1) t.rights.push_back(rb[i]); if (m == 0 && false) continue; if (!tj_ok(x, t, strf("version %d %s usage %d rights %02x%s", version, ALGS[alg], usage, m, c ? " cacheable" : "")) && r.failures() > 20) return; } }
    r.traces();
}
static void tj_sequences(Run& r, bool ta, int first) { // all sequences of rights
    SETUP(ta); Ctx x(r, A); static const uint8_t rb[] = {0, 1, 2, 3, 4, 5, 8, 6, 7, 9, 255, 16, 129}; int N = r.thorough ? 13 : 9, L = r.thorough ? 4 : 3; if (first >= N) return;
    std::function<void(Bytes)> go = [&](Bytes b) { if (r.failures() > 20) return; TypeJ t = x.tj(); t.rights = b; std::string w = "rights"; for (auto c : b) w += strf(" %d", c); tj_ok(x, t, w); if ((int) b.size() < L) for (int i = 0; i < N; i++) { Bytes n = b; n.push_back(rb[i]); go(n); } };
    go(Bytes(1, rb[first])); if (first == 0) { for (int v = 0; v < 256; v++) { TypeJ t = x.tj(); t.rights = Bytes(1, (uint8_t) v); tj_ok(x, t, strf("right %d", v)); t.rights = {5, (uint8_t) v, 8}; tj_ok(x, t, strf("right %d between others", v)); } for (size_t n : {10, 50, 200}) { TypeJ t = x.tj(); t.rights = Bytes(n, 3); t.rights.push_back(1); tj_ok(x, t, strf("%zu rights", n)); t.rights.push_back(9); tj_ok(x, t, strf("%zu rights and an unknown one", n)); } }
    r.traces();
}
static std::vector<std::string> wrong_for(const std::string& v) { // values of other kinds
    std::vector<std::string> o = {"null", "[]", "{}", "[" + v + "]", "{\"a\":" + v + "}"}; bool s = v[0] == '"';
    if (s) { for (auto x : {"true", "false", "0", "1", "2", "0.5"}) o.push_back(x); } else { o.push_back("\"" + (v[0] == '[' ? std::string("x") : v) + "\""); o.push_back("\"\""); if (v != "true" && v != "false") { o.push_back("true"); o.push_back("false"); } else { o.push_back("0"); o.push_back("1"); } }
    return o;
}
static void tj_fields(Run& r, bool ta, int version, int alg, int usage) {
    SETUP(ta); Ctx x(r, A); TypeJ t = x.tj(); t.version = version; t.alg = ALGS[alg]; t.usage = usage; t.has_tas = true; t.tas = {"00000000-0000-0000-0000-000000000001"}; t.cacheable = false; t.rights = {1, 3}; Fields f = split(t.payload()); sa_handle h; sa_status s = x.typej(x.signtj(join(f)), &h); if (!r.check(s == SA_STATUS_OK, "the container itself: %s", sn(s))) return; rel(A, K_KEY, h);
    sa_rights rt; tj_model(t, &rt); AnyKey k; k.type = SA_KEY_TYPE_SYMMETRIC; k.size = t.key.size(); k.material = t.key;
    auto opt = [&](const std::string& n) { return n == "entitledTaIds" || n == "contentKeyContainerVersion" || (version < 2 && (n == "contentKeyLength" || n == "contentKeyTransportAlgorithm" || n == "contentKeyTransportIv")); };
    for (auto& e : f) {
        if (!opt(e.first)) { s = x.typej(x.signtj(join(without(f, e.first))), &h); x.refused(s, h, "without " + e.first); s = x.typej(x.signtj(join(with(without(f, e.first), "x" + e.first, e.second))), &h); x.refused(s, h, "with another name for " + e.first); std::string u = e.first; u[0] = (char) toupper(u[0]); s = x.typej(x.signtj(join(with(without(f, e.first), u, e.second))), &h); x.refused(s, h, "with " + u); }
        else { sa_rights r2 = rt; if (e.first == "entitledTaIds") tas_of(false, false, {}, &r2); s = x.typej(x.signtj(join(without(f, e.first))), &h); bool ok = e.first == "entitledTaIds"; if (ok) { r.check(s == SA_STATUS_OK, "without %s: %s", e.first.c_str(), sn(s)); std::string q = s ? "" : is(x, h, k, r2); r.check(q.empty(), "without %s: %s", e.first.c_str(), q.c_str()); } if (!s) rel(A, K_KEY, h); }
        bool unused = version < 2 && (e.first == "contentKeyLength" || e.first == "contentKeyTransportAlgorithm" || e.first == "contentKeyTransportIv"); if (unused) continue;
        for (auto& v : wrong_for(e.second)) { if (e.first == "entitledTaIds" && v == "[]") { s = x.typej(x.signtj(join(with(f, e.first, v))), &h); if (!s) { sa_rights r2 = rt; memset(r2.allowed_tas, 0, sizeof r2.allowed_tas); std::string q = is(x, h, k, r2); r.check(q.empty(), "no application listed: %s", q.c_str()); rel(A, K_KEY, h); } continue; }
            s = x.typej(x.signtj(join(with(f, e.first, v))), &h); if (e.first == "contentKeyCacheable" && !s) { std::string q = is(x, h, k, rt); r.check(q.empty(), "%s %s: %s", e.first.c_str(), v.c_str(), q.c_str()); rel(A, K_KEY, h); continue; } // not cacheable: less than could be meant
            x.refused(s, h, e.first + " " + v); }
        // order does not matter, other fields are ignored
        Fields g = without(f, e.first); g.insert(g.begin(), e); g.push_back({"somethingElse", "{\"contentKeyUsage\":0,\"a\":[1,2]}"}); s = x.typej(x.signtj(join(g)), &h); if (r.check(s == SA_STATUS_OK, "%s first: %s", e.first.c_str(), sn(s))) { std::string q = is(x, h, k, rt); r.check(q.empty(), "%s first: %s", e.first.c_str(), q.c_str()); rel(A, K_KEY, h); }
    }
    // numbers: same number or refused
    auto num = [&](const std::string& n, const std::string& v, bool same) { s = x.typej(x.signtj(join(with(f, n, v))), &h); r.state(hash(v)); if (!same) { x.refused(s, h, n + " " + v); return; } if (!s) { std::string q = is(x, h, k, rt); r.check(q.empty(), "%s %s: %s", n.c_str(), v.c_str(), q.c_str()); rel(A, K_KEY, h); } };
    std::string u = std::to_string(usage); num("contentKeyUsage", u + ".0", true); num("contentKeyUsage", u + "e0", true); num("contentKeyUsage", u + ".5", false); num("contentKeyUsage", u + "e400", false);
    for (long long b : {4LL, 5LL, 6LL, 7LL, 8LL, 255LL, 256LL, 257LL, 258LL, 65536LL, 65537LL, 65538LL, 4294967296LL, 4294967297LL, 4294967298LL, -1LL, -2LL, -256LL, -254LL, -4294967296LL, 9223372036854775807LL}) num("contentKeyUsage", std::to_string(b), false);
    for (auto b : {"9223372036854775808", "18446744073709551616", "18446744073709551617", "36893488147419103234", "1.9", "0x1", "01", "+1", "1 1"}) num("contentKeyUsage", b, false);
    if (version) { std::string v = std::to_string(version); num("contentKeyContainerVersion", v + ".0", true); for (long long b : {0LL, 4LL, 5LL, -1LL, 256LL, 256LL + version, 65536LL + version, 4294967296LL + version, -4294967296LL + version}) num("contentKeyContainerVersion", std::to_string(b), false); for (auto b : {"18446744073709551617", "18446744073709551618", "18446744073709551619", "0.9"}) num("contentKeyContainerVersion", b, false); }
    if (version >= 2) { for (long long b : {0LL, 15LL, 17LL, 32LL, -16LL, 16LL + 256, 16LL + 65536, 16LL + 4294967296LL, 16LL - 4294967296LL, 9223372036854775807LL}) num("contentKeyLength", std::to_string(b), false); num("contentKeyLength", "16.0", true); num("contentKeyLength", "18446744073709551632", false); for (auto a : {"", "aesEcb", "aesEcbNon", "aesEcbNonee", "aesEcbPkcs", "aesEcbPkcs7", "AESECBNONE", "aesCtr", "aesGcm", "aesCbcPkcs", "none"}) num("contentKeyTransportAlgorithm", std::string("\"") + a + "\"", false); }
    if (alg >= 2 && version >= 2) for (size_t n = 0; n < 40; n++) if (n != 16) num("contentKeyTransportIv", "\"" + b64(pattern(n, 77), false) + "\"", false);
    for (auto bad : {"====", "A", "AA", "AAA", "AA=A", "!!!!", "AAAA====", "AAAAA", " "}) { num("contentKey", std::string("\"") + bad + "\"", false); num("contentKeyRights", std::string("\"") + bad + "\"", false); }
    // not an object
    for (auto p : {"", "null", "1", "[]", "[{}]", "\"x\"", "{", "}", "{}", "{\"contentKeyUsage\":0}", "true"}) { s = x.typej(x.signtj(p), &h); x.refused(s, h, std::string("payload ") + p); }
    { std::string j = join(f); for (size_t i = 0; i < j.size(); i++) { s = x.typej(x.signtj(j.substr(0, i)), &h); x.refused(s, h, strf("payload cut at %zu", i)); } s = x.typej(x.signtj("[" + j + "]"), &h); x.refused(s, h, "payload in a list"); s = x.typej(x.signtj(j + j), &h); x.refused(s, h, "two payloads"); s = x.typej(x.signtj(j + "]"), &h); x.refused(s, h, "rubbish behind the payload"); }
    r.traces();
}
static void tj_sizes(Run& r, bool ta, int version, int alg) {
    SETUP(ta); Ctx x(r, A); for (size_t n = 0; n <= (r.thorough ? 560u : 144u); n++) { TypeJ t = x.tj(); t.version = version; t.alg = ALGS[alg]; t.key = pattern(n, (unsigned) n); bool pk = version >= 2 && alg % 2; if (!pk && n % 16) { t.wrapped = pattern(n, 9); } if (n == 0 && !pk) continue; tj_ok(x, t, strf("key of %zu bytes", n)); for (long l : {0L, (long) n - 1, (long) n + 1, (long) n + 16, 16L, 32L}) if (l >= 0 && l != (long) n && version >= 2) { t.length = l; tj_ok(x, t, strf("key of %zu bytes called %ld", n, l)); } }
    for (size_t n : {496u, 511u, 512u, 513u, 528u, 1024u, 4096u}) { TypeJ t = x.tj(); t.version = version; t.alg = ALGS[alg]; t.key = pattern(n, (unsigned) n); if (n % 16 && !(version >= 2 && alg % 2)) continue; tj_ok(x, t, strf("key of %zu bytes", n)); }
    // bad padding
    if (version >= 2 && alg % 2) for (int last = 0; last < 256; last++) for (size_t n : {32u, 48u}) { TypeJ t = x.tj(); t.version = version; t.alg = ALGS[alg]; Bytes p = pattern(n, 3); int pad = last & 15; for (int i = 0; i < pad; i++) p[n - 1 - (size_t) i] = (uint8_t) last; p[n - 1] = (uint8_t) last; bool good = last >= 1 && last <= 16; if (good) for (int i = 0; i < last; i++) p[n - 1 - (size_t) i] = (uint8_t) last; if (good && (last & 1)) { if (last > 1) { p[n - (size_t) last] ^= 0x40; good = false; } } if (good) { t.key = sub(p, 0, n - (size_t) last); } else t.length = (long) n - (last & 15); t.wrapped = ref_cipher(alg < 2 ? "AES-128-ECB" : "AES-128-CBC", true, t.kc, alg < 2 ? Bytes() : t.iv, p, false); if (good) tj_ok(x, t, strf("padding %d", last)); else { sa_handle h; sa_status s = x.typej(t.make(), &h); x.refused(s, h, strf("bad padding %d", last)); } }
    r.traces();
}
static std::string uu(unsigned n) { char b[40]; snprintf(b, sizeof b, "%08x-%04x-%04x-%04x-%012x", n * 0x01010101u, n & 0xffff, 0xabcd, (n + 1) & 0xffff, n); return b; }
static std::vector<std::pair<std::string, std::string>> bad_uuids() {
    std::vector<std::pair<std::string, std::string>> v; std::string g = "00000000-0000-0000-0000-000000000001"; for (size_t i = 0; i < 36; i++) { if (g[i] == '-') continue; for (char c : {'g', 'G', 'z', ' ', '/', ':', '@', '`', '.'}) { std::string b = g; b[i] = c; v.push_back({strf("'%c' at %zu", c, i), b}); } }
    v.push_back({"cut", g.substr(0, 35)}); v.push_back({"longer", g + "0"}); v.push_back({"empty", ""}); v.push_back({"half", g.substr(0, 18)}); v.push_back({"no dashes", "00000000000000000000000000000001"}); v.push_back({"braces", "{" + g + "}"}); return v;
}
static void tj_lists(Run& r, bool ta) {
    SETUP(ta); Ctx x(r, A); for (size_t n = 0; n <= sizeof(((sa_rights*) 0)->id) + 4; n++) { TypeJ t = x.tj(); t.id = std::string(n, 'k'); tj_ok(x, t, strf("name of %zu", n)); } for (size_t n : {200, 300, 1000, 65600}) { TypeJ t = x.tj(); t.id = std::string(n, 'k'); tj_ok(x, t, strf("name of %zu", n)); }
    for (int v = 1; v <= 3; v++) for (size_t n = 0; n <= MAX_NUM_ALLOWED_TA_IDS + 3u; n++) for (int up = 0; up < 2; up++) for (size_t me : {(size_t) 99, (size_t) 0, n / 2, n - 1}) { TypeJ t = x.tj(); t.version = v; t.has_tas = true; for (size_t i = 0; i < n; i++) { std::string u = i == me ? "00000000-0000-0000-0000-000000000001" : uu((unsigned) (0xa0 + i)); if (up) for (auto& c : u) c = (char) toupper(c); t.tas.push_back(u); } if (me == 99 || me < n) { sa_uuid w = uuid_of(1); (void) w; tj_ok(x, t, strf("version %d, %zu applications, own at %zu%s", v, n, me, up ? ", upper case" : "")); } }
    { TypeJ t = x.tj(); t.has_tas = true; for (auto u : {"ffffffff-ffff-ffff-ffff-ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", "00000000-0000-0000-0000-000000000000", "12345678-9abc-def0-1234-56789ABCDEF0", "fedcba98-7654-3210-fedc-ba9876543210"}) { t.tas = {u}; tj_ok(x, t, u); } }
    for (auto& b : bad_uuids()) for (int pos = 0; pos < 2; pos++) { TypeJ t = x.tj(); t.has_tas = true; t.tas = {uu(7)}; t.tas.insert(t.tas.begin() + pos, b.second); sa_handle h; sa_status s = x.typej(t.make(), &h); x.refused(s, h, "application " + b.first); }
    { TypeJ t = x.tj(); t.has_tas = true; t.tas = {uu(7)}; Fields f = split(t.payload()); for (auto v : {"[1]", "[null]", "[true]", "[[]]", "[{}]"}) { sa_handle h; sa_status s = x.typej(x.signtj(join(with(f, "entitledTaIds", v))), &h); x.refused(s, h, std::string("applications ") + v); } }
    r.traces();
}
static void tj_dates(Run& r, bool ta, int y) {
    SETUP(ta); Ctx x(r, A); static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= ml[m - 1] + (m == 2 && leap); d++) { if (!r.thorough && d > 2 && d < ml[m - 1] - 1 && d != 15) continue; for (auto tm : {"00:00:00", "23:59:59", "12:34:56"}) for (int f = 0; f < 2; f++) { if (!r.thorough && d != 1 && f) continue; TypeJ t = x.tj(); std::string s = strf("%04d-%02d-%02dT%sZ", y, m, d, tm); (f ? t.after : t.before) = s; tj_ok(x, t, s); } }
    r.traces();
}
static void tj_bad_dates(Run& r, bool ta) {
    SETUP(ta); Ctx x(r, A); auto no = [&](const std::string& d) { for (int f = 0; f < 2; f++) { TypeJ t = x.tj(); Fields g = with(split(t.payload()), f ? "contentKeyNotOnOrAfter" : "contentKeyNotBefore", "\"" + d + "\""); sa_handle h; sa_status s = x.typej(x.signtj(join(g)), &h); x.refused(s, h, "time " + d); } };
    std::string g = "2030-06-15T10:20:30Z"; for (size_t i = 0; i < g.size(); i++) { for (char c : {'x', 'A', '/', '.'}) { std::string b = g; b[i] = c; no(b); } no(g.substr(0, i)); std::string b = g; b.erase(i, 1); no(b); b = g; b.insert(i, 1, g[i]); no(b); }
    for (auto b : {"2030-13-15T10:20:30Z", "2030-00-15T10:20:30Z", "2030-06-32T10:20:30Z", "2030-06-00T10:20:30Z", "2030-06-15T24:20:30Z", "2030-06-15T25:20:30Z", "2030-06-15T10:60:30Z", "2030-06-15T10:20:62Z", "2030-06-15T10:20:99Z", "2030-06-15T10:20:30z", "2030-06-15 10:20:30Z", "2030-06-15T10:20:30+00:00", "2030-06-15T10:20:30.0Z", "2030-06-15", "", "1969-12-31T23:59:58Z", "1969-01-01T00:00:00Z", "1900-01-01T00:00:00Z", "1601-01-01T00:00:00Z", "0000-01-01T00:00:00Z", "0001-01-01T00:00:00Z"}) no(b);
    for (auto b : {"1970-01-01T00:00:00Z", "1970-01-01T00:00:01Z", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2106-02-07T06:28:15Z", "2106-02-07T06:28:16Z", "9999-12-31T23:59:59Z"}) for (int f = 0; f < 2; f++) { TypeJ t = x.tj(); (f ? t.after : t.before) = b; tj_ok(x, t, b); }
    { TypeJ t = x.tj(); t.after = "1969-12-31T23:59:59Z"; tj_ok(x, t, t.after); }
    r.traces();
}
static void tj_wrong_keys(Run& r, bool ta) { // wrong wrapping or MAC key, and keys in each other's place
    SETUP(ta); for (size_t kcl : {(size_t) 16, (size_t) 32}) { Ctx x(r, A, kcl); for (int alg = 0; alg < 4; alg++) for (int v = 1; v <= 3; v++) { TypeJ t = x.tj(); t.version = v; t.alg = ALGS[alg]; sa_handle h; t.kh = pattern(32, 777); sa_status s = x.typej(t.make(), &h); x.refused(s, h, "another MAC key"); t = x.tj(); t.version = v; t.alg = ALGS[alg]; t.kh = t.kc; s = x.typej(t.make(), &h); x.refused(s, h, "the cipher key as MAC key");
            t = x.tj(); t.version = v; t.alg = ALGS[alg]; t.kc = pattern(kcl, 778); s = x.typej(t.make(), &h); if (s == SA_STATUS_OK) { uint8_t d[32]; size_t n = 32; sa_status q = CALL(A, sa_key_digest, d, &n, h, SA_DIGEST_ALGORITHM_SHA256); r.check(q || Bytes(d, d + 32) != ref_digest("SHA256", t.key), "another cipher key unwraps the key"); if (v > 1 && alg % 2) { sa_header hd; CALL(A, sa_key_header, &hd, h); } rel(A, K_KEY, h); }
            t = x.tj(); Blk b(t.make()); sa_import_parameters_typej p = {x.kh, x.kc}; h = INVALID_HANDLE; s = CALL(A, sa_key_import, &h, SA_KEY_FORMAT_TYPEJ, b.p, b.n, &p); x.refused(s, h, "keys exchanged"); for (int i = 0; i < 3; i++) { sa_import_parameters_typej q = {i != 1 ? INVALID_HANDLE : x.kc, i != 0 ? INVALID_HANDLE : x.kh}; if (i == 0) q.kcipher = INVALID_HANDLE; s = CALL(A, sa_key_import, &h, SA_KEY_FORMAT_TYPEJ, b.p, b.n, &q); x.refused(s, h, "no such keys"); } s = CALL(A, sa_key_import, &h, SA_KEY_FORMAT_TYPEJ, b.p, b.n, nullptr); x.refused(s, h, "no keys"); s = CALL(A, sa_key_import, &h, SA_KEY_FORMAT_SOC, b.p, b.n, nullptr); x.refused(s, h, "as another container"); } }
    r.traces();
}
// ---- SoC
struct KT { const char* name; int type; size_t size; int sub, curve; };
enum { AES, CHA, HM, PRIV };
static const KT KTS[] = {{"AES-128", SA_KEY_TYPE_SYMMETRIC, 16, AES, 0}, {"HMAC-128", SA_KEY_TYPE_SYMMETRIC, 16, HM, 0}, {"AES-256", SA_KEY_TYPE_SYMMETRIC, 32, AES, 0}, {"CHACHA20-256", SA_KEY_TYPE_SYMMETRIC, 32, CHA, 0}, {"HMAC-256", SA_KEY_TYPE_SYMMETRIC, 32, HM, 0}, {"HMAC-160", SA_KEY_TYPE_SYMMETRIC, 20, HM, 0}, {"RSA-1024", SA_KEY_TYPE_RSA, 128, PRIV, 0}, {"RSA-2048", SA_KEY_TYPE_RSA, 256, PRIV, 0}, {"RSA-3072", SA_KEY_TYPE_RSA, 384, PRIV, 0}, {"RSA-4096", SA_KEY_TYPE_RSA, 512, PRIV, 0},
    {"ECC-P256", SA_KEY_TYPE_EC, 32, PRIV, SA_ELLIPTIC_CURVE_NIST_P256}, {"ECC-P384", SA_KEY_TYPE_EC, 48, PRIV, SA_ELLIPTIC_CURVE_NIST_P384}, {"ECC-P521", SA_KEY_TYPE_EC, 66, PRIV, SA_ELLIPTIC_CURVE_NIST_P521}, {"ECC-P192", SA_KEY_TYPE_EC, 24, PRIV, SA_ELLIPTIC_CURVE_NIST_P192}, {"ECC-P224", SA_KEY_TYPE_EC, 28, PRIV, SA_ELLIPTIC_CURVE_NIST_P224}, {"ECC-ED25519", SA_KEY_TYPE_EC, 32, PRIV, SA_ELLIPTIC_CURVE_ED25519}, {"ECC-X25519", SA_KEY_TYPE_EC, 32, PRIV, SA_ELLIPTIC_CURVE_X25519}, {"ECC-ED448", SA_KEY_TYPE_EC, 57, PRIV, SA_ELLIPTIC_CURVE_ED448}, {"ECC-X448", SA_KEY_TYPE_EC, 56, PRIV, SA_ELLIPTIC_CURVE_X448}};
static const int NKT = sizeof KTS / sizeof *KTS;
static AnyKey kt_key(const KT& t) { if (t.type == SA_KEY_TYPE_SYMMETRIC) return k_sym(t.size, 7); if (t.type == SA_KEY_TYPE_RSA) return k_rsa(t.size); return k_ec(t.curve); }
static bool kt_there(const KT& t) { return t.type != SA_KEY_TYPE_EC || ec_pkey(t.curve); }
static bool soc_usage(int u, const KT& t, uint64_t* f) { uint64_t kx = t.type == SA_KEY_TYPE_EC ? F(SA_USAGE_FLAG_KEY_EXCHANGE) : 0; if (u == 3) *f |= kx | UNW | DATA | SD; else if (u == 1) *f |= kx | (t.sub == HM ? 0 : DATA) | SD; else if (u == 2) *f |= UNW; else return false; return true; }
static bool soc_ok(Ctx& x, const Soc& c, const KT& t, const std::string& w, bool want = true, const char* id = nullptr, void* par = nullptr) {
    sa_rights rt; memset(&rt, 0, sizeof rt); rt.usage_flags = OUT_FLAGS | F(SA_USAGE_FLAG_CACHEABLE); rt.not_on_or_after = UINT64_MAX; if (id) memcpy(rt.id, id, 8); want &= soc_usage(c.usage, t, &rt.usage_flags); if (c.usage == 2) { want &= c.has_dec && soc_usage(c.dec, t, &rt.child_usage_flags) && t.sub != HM; } tas_of(c.has_tas, true, c.tas, &rt); want &= c.version >= 4 && c.version <= 255 && (!c.has_tas || c.tas.size() <= MAX_NUM_ALLOWED_TA_IDS); if (c.version >= 5 && !c.root.empty() && c.root != "unique" && c.root != "common") want = false;
    sa_handle h; sa_status s = x.soc(c.make(), &h, par); x.r.state(hash(w)); if (!want) return x.refused(s, h, w); if (!x.r.check(s == SA_STATUS_OK, "%s: %s", w.c_str(), sn(s))) return false;
    AnyKey k = kt_key(t); k.material = c.key; std::string e = is(x, h, k, rt); rel(x.A, K_KEY, h); return x.r.check(e.empty(), "%s: %s", w.c_str(), e.c_str());
}
static void soc_combos(Run& r, bool ta, const KT& t) {
    SETUP(ta); Ctx x(r, A); AnyKey k = kt_key(t);
    for (int v : {4, 5, 6, 255, 3, 0, 1}) for (int root = 0; root < 3; root++) for (int u : {1, 2, 3, 0, 4, 5, 255}) for (int dec = -1; dec < 6; dec++) { if (!r.thorough && u != 2 && dec > 0) continue; if (!r.thorough && t.size > 256 && (v > 5 || v < 3)) continue; Soc c; c.type = t.name; c.key = k.material; c.version = v; c.root = root == 0 ? "" : root == 1 ? "unique" : "common"; if (v < 5 && root == 2) c.root = ""; c.usage = u; c.has_dec = dec >= 0; c.dec = dec < 0 ? 0 : dec; if (v < 5 && root == 2) continue; soc_ok(x, c, t, strf("%s version %d root '%s' usage %d then %d", t.name, v, c.root.c_str(), u, dec)); }
    { Soc c; c.type = t.name; c.key = k.material; c.version = 4; c.root = "unique"; soc_ok(x, c, t, "version 4 with a root key type"); }
    r.traces();
}
static void soc_names(Run& r, bool ta, const KT& t) { // names that are no key types, and keys that are not what the name says
    SETUP(ta); Ctx x(r, A); AnyKey k = kt_key(t); std::string n = t.name; auto no = [&](const std::string& nm, const Bytes& key) { Soc c; c.type = nm; c.key = key; sa_handle h; sa_status s = x.soc(c.make(), &h); x.refused(s, h, "'" + nm.substr(0, 40) + strf("' with a key of %zu bytes", key.size())); };
    for (size_t i = 0; i <= n.size(); i++) { if (i < n.size()) { no(n.substr(0, i), k.material); std::string l = n; l[i] = (char) (isalpha(l[i]) ? tolower(l[i]) : l[i] ^ 1); bool real = false; for (auto& q : KTS) real |= l == q.name; if (!real) no(l, k.material); } no(n + std::string(i + 1, '0'), k.material); } no(" " + n, k.material); no(n + " ", k.material); no("DH-2048", k.material); no("", k.material); no(std::string(300, 'A'), k.material); no(n + "\\u0000", k.material); no(n + "\\u0000x", k.material);
    if (t.type == SA_KEY_TYPE_SYMMETRIC) { for (size_t z = 0; z <= 70; z++) if (z != t.size && z) no(n, pattern(z, 3)); for (size_t z : {128, 256, 512, 513}) no(n, pattern(z, 3)); }
    else for (auto& q : KTS) if (kt_there(q) && strcmp(q.name, t.name)) no(n, kt_key(q).material);
    if (t.type != SA_KEY_TYPE_SYMMETRIC) { Bytes m = k.material; no(n, sub(m, 0, m.size() - 1)); no(n, sub(m, 0, m.size() / 2)); no(n, sub(m, 1, m.size() - 1)); no(n, k.pub); no(n, pattern(t.size, 5)); }
    r.traces();
}
static void soc_fields(Run& r, bool ta, int which) {
    SETUP(ta); Ctx x(r, A); Soc c; c.has_tas = true; c.tas = {"00000000-0000-0000-0000-000000000001"}; if (which == 1) { c.version = 5; c.root = "common"; c.usage = 2; c.has_dec = true; c.dec = 1; } if (which == 2) { c.version = 5; c.root = "unique"; c.usage = 1; } if (which == 3) { c.usage = 2; c.has_dec = true; c.dec = 3; }
    Aead e = ref_aead("AES-128-GCM", true, ladder3(c.root == "common", c.c1, c.c2, c.c3), c.iv, c.aad(), c.key, Bytes(), 16); Fields f = split(c.payload(e.out)); auto mk = [&](const std::string& p, const std::string& hd) { std::string m = b64s(hd, true) + "." + b64s(p, true) + "." + b64(e.tag, true); return Bytes(m.begin(), m.end()); };
    std::string hd = c.hdr(); sa_handle h; sa_status s = x.soc(mk(join(f), hd), &h); if (!r.check(s == SA_STATUS_OK, "the container itself: %s", sn(s))) return; rel(A, K_KEY, h); auto no = [&](const std::string& w, const Fields& g) { sa_handle q; sa_status st = x.soc(mk(join(g), hd), &q); x.refused(st, q, w); };
    for (auto& fe : f) { no("without " + fe.first, without(f, fe.first)); no("with another name for " + fe.first, with(without(f, fe.first), "x" + fe.first, fe.second)); for (auto& v : wrong_for(fe.second)) no(fe.first + " " + v, with(f, fe.first, v)); Fields g = without(f, fe.first); g.insert(g.begin(), fe); g.push_back({"more", "{\"keyUsage\":3}"}); s = x.soc(mk(join(g), hd), &h); if (r.check(s == SA_STATUS_OK, "%s first: %s", fe.first.c_str(), sn(s))) rel(A, K_KEY, h); }
    auto nums = [&](const std::string& n, long long v) { for (long long d : {256LL, 512LL, 65536LL, 4294967296LL, 4294967296LL * 256}) { no(n + strf(" %lld", v + d), with(f, n, std::to_string(v + d))); no(n + strf(" %lld", v - d), with(f, n, std::to_string(v - d))); } no(n + strf(" %lld.5", v), with(f, n, std::to_string(v) + ".5")); no(n + " + 2^64", with(f, n, "1844674407370955162" + std::to_string(6 + v))); };
    nums("containerVersion", c.version > 3 ? 3 : c.version); nums("containerVersion", c.version); nums("keyUsage", c.usage); if (c.has_dec) nums("decryptedKeyUsage", c.dec);
    for (size_t n = 0; n < 70; n++) { if (n != 12) no(strf("iv of %zu", n), with(f, "iv", "\"" + b64(cat({c.iv, pattern(70, 1)}).data(), n, false) + "\"")); if (n != 16) for (auto cn : {"c1", "c2", "c3"}) { const Bytes& b = cn[1] == '1' ? c.c1 : cn[1] == '2' ? c.c2 : c.c3; no(strf("%s of %zu", cn, n), with(f, cn, "\"" + b64(cat({b, Bytes(70)}).data(), n, false) + "\"")); } }
    for (auto rt : {"unique", "common", "Unique", "UNIQUE", "uniqu", "uniquee", "commo", "commonn", "", "other", "unique\\u0000"}) { bool same = c.version >= 5 ? c.root == rt : true; if (!same) no(std::string("root key ") + rt, with(f, "rootKeyType", std::string("\"") + rt + "\"")); }
    for (auto q : {"", "{}", "null", "[]", "{\"alg\":null}", "{\"alg\":1}", "{\"alg\":\"\"}", "{\"alg\":\"A128GC\"}", "{\"alg\":\"A128GCMM\"}", "{\"alg\":\"A256GCM\"}", "{\"alg\":\"a128gcm\"}", "{\"alg\":\"A128GCM\\u0000\"}", "{\"Alg\":\"A128GCM\"}", "{\"alg\":\"none\"}", "{\"alg\":[\"A128GCM\"]}", "{\"alg\":\"A128GCM\"", "[{\"alg\":\"A128GCM\"}]"}) { s = x.soc(mk(join(f), q), &h); x.refused(s, h, std::string("header ") + q); }
    for (auto p : {"", "null", "1", "[]", "[{}]", "\"x\"", "{", "{}", "true"}) { s = x.soc(mk(p, hd), &h); x.refused(s, h, std::string("payload ") + p); } { std::string j = join(f); for (size_t i = 0; i < j.size(); i++) { s = x.soc(mk(j.substr(0, i), hd), &h); x.refused(s, h, strf("payload cut at %zu", i)); } }
    r.traces();
}
static void soc_lists(Run& r, bool ta) {
    SETUP(ta); Ctx x(r, A); const KT& t = KTS[0]; for (int u = 1; u <= 3; u++) for (size_t n = 0; n <= MAX_NUM_ALLOWED_TA_IDS + 3u; n++) for (int up = 0; up < 2; up++) { Soc c; c.key = kt_key(t).material; c.usage = u; c.has_dec = true; c.dec = 1; c.has_tas = true; for (size_t i = 0; i < n; i++) { std::string q = i == n / 2 ? "00000000-0000-0000-0000-000000000001" : uu((unsigned) (0xa0 + i)); if (up) for (auto& ch : q) ch = (char) toupper(ch); c.tas.push_back(q); } soc_ok(x, c, t, strf("usage %d, %zu applications%s", u, n, up ? ", upper case" : "")); }
    for (auto& b : bad_uuids()) for (int pos = 0; pos < 2; pos++) { Soc c; c.key = kt_key(t).material; c.has_tas = true; c.tas = {uu(7)}; c.tas.insert(c.tas.begin() + pos, b.second); sa_handle h; sa_status s = x.soc(c.make(), &h); x.refused(s, h, "application " + b.first); }
    for (auto u : {"ffffffff-ffff-ffff-ffff-ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", "00000000-0000-0000-0000-000000000000", "12345678-9abc-def0-1234-56789ABCDEF0"}) { Soc c; c.key = kt_key(t).material; c.has_tas = true; c.tas = {u}; soc_ok(x, c, t, u); }
    r.traces();
}
static void soc_params(Run& r, bool ta) {
    SETUP(ta); Ctx x(r, A); const KT& t = KTS[0]; Soc c; c.key = kt_key(t).material; 
    auto id = [&](uint64_t o, uint8_t* b) { for (int i = 0; i < 8; i++) b[i] = (uint8_t) (o >> (56 - 8 * i)); };
    for (uint64_t o : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 255, (uint64_t) 256, (uint64_t) 0x0102030405060708, UINT64_MAX, (uint64_t) 1 << 63, (uint64_t) 0x8000000000000001}) for (int v = 0; v < 256; v++) { if (v > 5 && o != 1) continue; std::vector<sa_import_parameters_soc> p(1); memset(p.data(), 0, sizeof p[0]); p[0].length[0] = (uint8_t) (sizeof p[0] >> 8); p[0].length[1] = (uint8_t) sizeof p[0]; p[0].version = (uint8_t) v; p[0].object_id = o; p[0].default_rights = rights_all(0, 0); char b[8]; id(o, (uint8_t*) b); soc_ok(x, c, t, strf("object %llx version %d", (unsigned long long) o, v), v == 2 || v == 3, b, p.data()); }
    for (size_t l : {(size_t) 0, (size_t) 1, (size_t) 2, sizeof(sa_import_parameters_soc) - 1, sizeof(sa_import_parameters_soc) + 1, sizeof(sa_import_parameters_soc) + 256, (size_t) 65535, sizeof(sa_import_parameters_soc) & 255, (sizeof(sa_import_parameters_soc) & 255) << 8 | sizeof(sa_import_parameters_soc) >> 8}) { if (l == sizeof(sa_import_parameters_soc)) continue; std::vector<uint8_t> big(70000); auto* p = (sa_import_parameters_soc*) big.data(); p->length[0] = (uint8_t) (l >> 8); p->length[1] = (uint8_t) l; p->version = 3; soc_ok(x, c, t, strf("parameters of %zu bytes", l), false, nullptr, p); }
    r.traces();
}
int main(int argc, char** argv) {
    Spec s; s.property = "C20";
    s.rule = "downloaded containers: container version x transport algorithm x usage x all 128 sets of rights x cacheable; all sequences of rights up to 3 of 9 values (thorough: 4 of 13) and each of 256 single ones; each field absent, renamed, first, of every other JSON type, and numbers around the 8, 16, 32 and 64-bit limits of each meaning; key lengths, declared lengths, paddings, names, application lists (every length, every malformed position), first and last days of every month of 12 years, malformed times; wrong keys. Provisioned containers: key type x version x root key x usage x usage of unwrapped keys, wrong names, keys of every other type and size under each name, the same field alterations, application lists and import parameters. The oracle computes the rights independently; accepted keys are compared by header, key digest, a MAC or the public key; refused ones must leave no handle and no slot. All through both APIs. A case is non-trivial by its arguments.";
    s.assumptions = {"the second before 1970 as the end of a key's time stands for no end (the unit tests write it so)", "a cacheable field of the wrong type may be refused or taken as not cacheable", "usage 3 in a downloaded container, dashes of an application id in other places, days that a month does not have, a number written as a whole double and fields given twice are not judged", "containers are wrapped under the root keys of the test keystore, which stand for this device"};
    s.setup = [](Run&) { sah_setup(); };
    s.explore = [](Run& r) {
        auto T = [&](const std::string& d) { return !r.stop() && r.take("%s", d.c_str()) && (r.nontrivial(hash(r.current())), true); };
        for (int ta = 0; ta < 2; ta++) { const char* n = ta ? "trusted" : "client";
            for (int v = 0; v < 5; v++) for (int a = 0; a < 4; a++) for (int u = 0; u < 3; u++) { if (v < 2 && a && !r.thorough) continue; if (T(strf("%s typej version %d %s usage %d", n, v, ALGS[a], u))) tj_combos(r, ta, v, a, u); if (v < 4 && (r.thorough || ta == (a + u) % 2) && T(strf("%s typej fields version %d %s usage %d", n, v, ALGS[a], u))) tj_fields(r, ta, v, a, u); }
            for (int f = 0; f < 13; f++) if (T(strf("%s typej sequences %d", n, f))) tj_sequences(r, ta, f);
            for (int v = 1; v < 4; v++) for (int a = 0; a < 4; a++) if (T(strf("%s typej sizes version %d %s", n, v, ALGS[a]))) tj_sizes(r, ta, v, a);
            if (T(strf("%s typej lists", n))) tj_lists(r, ta); if (T(strf("%s typej bad times", n))) tj_bad_dates(r, ta); if (T(strf("%s typej wrong keys", n))) tj_wrong_keys(r, ta);
            for (int y : {1970, 1972, 1999, 2000, 2023, 2024, 2037, 2038, 2100, 2106, 2400, 9999}) if (T(strf("%s typej times of %d", n, y))) tj_dates(r, ta, y);
            for (auto& t : KTS) if (kt_there(t)) { if (T(strf("%s soc %s", n, t.name))) soc_combos(r, ta, t); if (T(strf("%s soc names %s", n, t.name))) soc_names(r, ta, t); }
            for (int w = 0; w < 4; w++) if (T(strf("%s soc fields %d", n, w))) soc_fields(r, ta, w);
            if (T(strf("%s soc lists", n))) soc_lists(r, ta); if (T(strf("%s soc parameters", n))) soc_params(r, ta);
        }
    };
    return mc::main(argc, argv, s);
}
