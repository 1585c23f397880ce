// C10: content of keys that require secure video, and content of protected buffers, never reaches clear memory.
#include "gates.hpp"
using namespace mc;
struct Mem { // clear memory watched for changes
    uint8_t* p; size_t n; Mem(size_t k) : p((uint8_t*) malloc(k)), n(k) { memset(p, 0xee, k); } ~Mem() { free(p); }
    bool same() const { for (size_t i = 0; i < n; i++) if (p[i] != 0xee) return false; return true; }
};
static const char* STEP[] = {"process", "last", "cenc"};
// all steps of a message of three steps; each goes in -> out with its own kinds of buffers
struct Cfg { int alg; bool enc, opt, ta; int kinds[5]; int last; int fin = 16; /* length of the last step */ }; // kinds: bit 0 in svp, bit 1 out svp; last: the third step is process_last / cenc (2) / process (0)
static void msg(Run& r, const Cfg& c, int n) {
    env::reset(); env::caller = uuid_of(1); Session s(c.ta, uuid_of(1)); Api& A = s.A;
    std::string cn = std::string(CALGN[c.alg]) + (c.enc ? "-enc" : "-dec");
    {
        Fix f(A); f.rights = [&](const std::string&, sa_rights& rt) { if (!c.opt) rt.usage_flags &= ~F(SA_USAGE_FLAG_SVP_OPTIONAL); };
        sa_handle h = f.cipher(cn, false); sa_handle sa = f.svp("svpA"), sb = f.svp("svpB");
        if (!r.check(f.err.empty(), "%s", f.err.c_str())) return;
        Obj &oa = f.o["svpA"], &ob = f.o["svpB"]; CParam p = Fix::cparam_of(cn);
        Bytes st = Fix::stream(p), exp = c_raw(p, st); size_t pos = 0;
        int nb = 1; for (int i = 0; i < n - 1; i++) nb += c.kinds[i] & 2 || (!(c.kinds[i] & 1) && c.opt); // blocks that are not refused
        if (c.last == 1 && c_pad(c.alg) && !c.enc) { CParam q = p; q.enc = true; st = c_encrypt(q, pattern(16 * nb - 3, 5)); exp = c_raw(p, st); }
        bool padlast = c_pad(c.alg);
        for (int i = 0; i < n; i++) {
            int kind = c.kinds[i]; bool isvp = kind & 1, osvp = kind & 2; int step = i == n - 1 ? c.last : 0;
            size_t L = i == n - 1 ? c.fin : 16; Mem ci(L + 16), co(L + 32); Bytes in = sub(st, pos, L); memcpy(ci.p, in.data(), L); if (isvp) { memcpy(oa.mem + 8, in.data(), L); memset(ci.p, 0xee, L); }
            Bytes asnap(oa.mem, oa.mem + SVPN), bsnap(ob.mem, ob.mem + SVPN), isnap(ci.p, ci.p + ci.n);
            sa_buffer I = isvp ? sbuf(sa, 8) : cbuf(ci.p, L), O = osvp ? sbuf(sb, 4) : cbuf(co.p, L + 32); size_t m = L; sa_status q; uint8_t tag[16]; sa_cipher_end_parameters_aes_gcm ep = {tag, 16};
            if (step == 2) { uint8_t iv[16]; memcpy(iv, p.iv.data(), 16); sa_subsample_length ss = {0, L}; sa_sample sm; memset(&sm, 0, sizeof sm); sm.iv = iv; sm.iv_length = 16; sm.subsample_count = 1; sm.subsample_lengths = &ss; sm.context = h; sm.in = &I; sm.out = &O; q = CALL(A, sa_process_common_encryption, 1, &sm); }
            else if (step == 1) { if (c_aead(c.alg) && !c.enc) { CParam pe = p; pe.enc = true; Bytes t = c_tag(pe, sub(pattern(64, 5), 0, pos + L)); memcpy(tag, t.data(), 16); } q = CALL(A, sa_crypto_cipher_process_last, &O, h, &I, &m, c_aead(c.alg) ? &ep : nullptr); }
            else q = CALL(A, sa_crypto_cipher_process, &O, h, &I, &m);
            r.transitions();
            bool unsupported = step == 1 && (c.alg == ECB || c.alg == CBC);
            bool may = !((isvp || osvp) && c_aead(c.alg)) && (osvp || (!isvp && c.opt)) && !unsupported;
            std::string what = strf("%s %s %s->%s%s", cn.c_str(), STEP[step], isvp ? "protected" : "clear", osvp ? "protected" : "clear", c.opt ? "" : " key requires protection");
            if (!may && L) r.check(q != SA_STATUS_OK, "%s succeeds", what.c_str());
            else if (L) r.check(q == SA_STATUS_OK, "%s: %s", what.c_str(), sn(q));
            bool clear_written = !co.same();
            r.check(Bytes(ci.p, ci.p + ci.n) == isnap, "%s changed its input", what.c_str());
            if (q != SA_STATUS_OK || osvp || !may) r.check(!clear_written, "%s (%s) wrote clear memory", what.c_str(), sn(q));
            r.check(Bytes(oa.mem, oa.mem + SVPN) == asnap, "%s changed the protected input", what.c_str());
            if (q != SA_STATUS_OK || !osvp) r.check(Bytes(ob.mem, ob.mem + SVPN) == bsnap, "%s (%s) changed a protected buffer", what.c_str(), sn(q));
            if (q == SA_STATUS_OK && may && L) {
                const uint8_t* o = osvp ? ob.mem + 4 : co.p; size_t from, to;
                from = c_pad(c.alg) && !c.enc && pos ? pos - 16 : c_pad(c.alg) && !c.enc ? 0 : pos;
                if (step == 1 && padlast) { Bytes full = c.enc ? c_raw(p, c_pad_add(sub(st, 0, pos + L))) : sub(exp, 0, 16 * nb - 3); r.check(m == full.size() - from && !memcmp(o, full.data() + from, m), "%s gives wrong output", what.c_str()); }
                else { to = c_pad(c.alg) && !c.enc ? pos : pos + L; if (step == 2) m = L; r.check(m == to - from, "%s: %zu bytes", what.c_str(), m); if (step == 2) { Bytes e0 = c_raw(p, in); r.check(!memcmp(o, e0.data(), L), "%s gives wrong output", what.c_str()); } else r.check(!memcmp(o, exp.data() + from, to - from), "%s gives wrong output", what.c_str()); }
                pos += 16; r.count("done");
            } else r.count("refused");
            r.state(hash(what) + i);
            if (r.failures()) break;
        }
        f.release_all();
    }
    r.traces();
}
// samples with contexts of two keys, one requiring protection; each sample with its own kinds of buffers
static void cenc_multi(Run& r, bool cbc, int n, unsigned code, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Api& A = s.A;
    Fix f(A); f.rights = [&](const std::string& k, sa_rights& rt) { if (k == "kc") rt.usage_flags &= ~F(SA_USAGE_FLAG_SVP_OPTIONAL); };
    CParam p[2]; sa_handle ctx[2]; Args none;
    for (int i = 0; i < 2; i++) { p[i] = cparam(cbc ? CBC : CTR, false, 16); p[i].key = keyval(i ? "kc" : "aes"); if (!r.check(f.cinit_(none, &ctx[i], p[i], f.key(i ? "kc" : "aes")) == SA_STATUS_OK, "context")) return; }
    sa_handle sa = f.svp("svpA"), sb = f.svp("svpB"); Obj &oa = f.o["svpA"], &ob = f.o["svpB"];
    memcpy(oa.mem, pattern(64, 21).data(), 64); Bytes asnap(oa.mem, oa.mem + SVPN), bsnap(ob.mem, ob.mem + SVPN);
    std::vector<std::unique_ptr<Mem>> ci, co; sa_buffer I[3], O[3]; sa_sample sm[3]; sa_subsample_length ss[3][1]; uint8_t iv[3][16]; memset(sm, 0, sizeof sm); bool bad = false, svp_in = false, each_bad[3]; int key[3], kind[3];
    for (int i = 0; i < n; i++, code /= 8) {
        key[i] = code & 1; kind[i] = code >> 1 & 3; bool isvp = kind[i] & 1, osvp = kind[i] & 2;
        ci.emplace_back(new Mem(32)); co.emplace_back(new Mem(32)); memcpy(ci[i]->p, oa.mem + 16 * i, 16);
        I[i] = isvp ? sbuf(sa, 16 * i) : cbuf(ci[i]->p, 16); O[i] = osvp ? sbuf(sb, 16 * i) : cbuf(co[i]->p, 16);
        ss[i][0] = {4, 12}; if (cbc) ss[i][0] = {0, 16}; memcpy(iv[i], p[0].iv.data(), 16);
        sm[i].iv = iv[i]; sm[i].iv_length = 16; sm[i].subsample_count = 1; sm[i].subsample_lengths = ss[i]; sm[i].context = ctx[key[i]]; sm[i].in = &I[i]; sm[i].out = &O[i];
        each_bad[i] = !osvp && (isvp || key[i]); bad |= each_bad[i]; svp_in |= isvp;
    }
    sa_status q = CALL(A, sa_process_common_encryption, n, sm); r.transitions();
    r.check(bad ? q != SA_STATUS_OK : q == SA_STATUS_OK, "%d samples: %s", n, sn(q));
    for (int i = 0; i < n; i++) if (each_bad[i] || kind[i] & 2) r.check(co[i]->same(), "sample %d wrote clear memory (%s)", i, sn(q));
    r.check(Bytes(oa.mem, oa.mem + SVPN) == asnap, "a protected input changed");
    if (!bad) for (int i = 0; i < n; i++) {
        Bytes in = sub(asnap, 16 * i, 16), e; size_t cl = cbc ? 0 : 4; CParam pp = p[key[i]]; e = cat({sub(in, 0, cl), c_raw(pp, sub(in, cl, 16 - cl))});
        r.check(!memcmp(kind[i] & 2 ? ob.mem + 16 * i : co[i]->p, e.data(), 16), "sample %d has wrong output", i);
    }
    r.count(bad ? "samples_refused" : "samples_done"); r.state(bad); r.traces();
    for (auto h : ctx) rel(A, K_CIPHER, h);
    f.release_all();
}
// memory of a protected buffer named as clear memory; protected contents probed by the rich environment
static void region(Run& r, int what, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Api& A = s.A;
    static uint8_t* reg = (uint8_t*) aligned_alloc(64, 256); memcpy(reg, pattern(256, 9).data(), 256);
    Fix f(A); sa_handle b = INVALID_HANDLE;
    if (!r.check(CALL(A, sa_svp_buffer_create, &b, reg + 64, 64) == SA_STATUS_OK, "buffer")) return;
    env::restrict_svp = true; env::svp_lo = (uintptr_t) reg + 64; env::svp_hi = (uintptr_t) reg + 128;
    sa_handle c = f.cipher("ctr-dec", false), k = f.key("aes"); Bytes snap(reg, reg + 256); Mem out(64);
    uint8_t *lo[] = {reg + 64, reg + 48, reg + 100, reg + 120, reg + 32}; size_t ln[] = {64, 32, 16, 32, 128};
    for (int i = 0; i < 5; i++) for (int as_out = 0; as_out < 2; as_out++) {
        sa_buffer C = cbuf(lo[i], ln[i]), O = cbuf(out.p, 64); size_t m = 16; sa_status q; uint8_t iv[16] = {}; sa_subsample_length ss = {0, 16}; sa_sample sm; memset(&sm, 0, sizeof sm);
        Bytes in16(16); sa_buffer In = cbuf(in16.data(), 16); sa_buffer *pi = as_out ? &In : &C, *po = as_out ? &C : &O;
        if (what == 0) q = CALL(A, sa_crypto_cipher_process, po, c, pi, &m);
        else if (what == 1) q = CALL(A, sa_crypto_cipher_process_last, po, c, pi, &m, nullptr);
        else if (what == 2) { sm.iv = iv; sm.iv_length = 16; sm.subsample_count = 1; sm.subsample_lengths = &ss; sm.context = c; sm.in = pi; sm.out = po; q = CALL(A, sa_process_common_encryption, 1, &sm); }
        else { uint8_t ex[16]; q = CALL(A, sa_svp_key_check, k, &C, 16, ex, 16); }
        r.transitions();
        if (ta) { r.check(q != SA_STATUS_OK && q != SA_STATUS_VERIFICATION_FAILED, "protected memory [%zu,+%zu) used as clear %s: %s", (size_t) (lo[i] - reg), ln[i], as_out ? "output" : "input", sn(q)); r.check(out.same(), "protected memory was copied to clear memory"); r.check(Bytes(reg, reg + 256) == snap, "memory changed"); }
        r.nontrivial(what * 64 + i * 2 + as_out);
    }
    env::restrict_svp = false;
    // the rich environment may not compare protected contents
    f.release_all(); void* mm; size_t nn; CALL(A, sa_svp_buffer_release, &mm, &nn, b);
    r.traces();
}
static void ree(Run& r, int inst) {
    env::reset(); sa_uuid u; memset(&u, 0, sizeof u); u.id[15] = 1; env::caller = u; Session s(inst, u); Api& A = s.A; Fix f(A);
    sa_handle b = f.svp("svpA"), k = f.key("aes"); Bytes d = ref_digest("SHA256", f.o["svpA"].want);
    for (int off = 0; off < 64; off += 8) for (int len = 0; len <= 64 - off; len += 8) { Bytes h = ref_digest("SHA256", sub(f.o["svpA"].want, off, len)); sa_status q = CALL(A, sa_svp_buffer_check, b, off, len, SA_DIGEST_ALGORITHM_SHA256, h.data(), 32); r.transitions(); r.check(q == SA_STATUS_OPERATION_NOT_ALLOWED, "the rich environment checks a protected buffer: %s", sn(q)); }
    CParam p = cparam(ECB, false, 16); p.key = keyval("aes"); Bytes e = c_raw(p, sub(f.o["svpA"].want, 0, 16)), w = e; w[3] ^= 1;
    for (auto* x : {&e, &w}) { sa_buffer I = sbuf(b); sa_status q = CALL(A, sa_svp_key_check, k, &I, 16, x->data(), 16); r.transitions(); r.check(q == SA_STATUS_OPERATION_NOT_ALLOWED, "the rich environment compares protected contents: %s", sn(q)); }
    r.traces(); r.nontrivial(7000 + inst); f.release_all();
}
static void keycheck(Run& r, bool opt, bool svp, bool right, bool ta) {
    env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Api& A = s.A; Fix f(A); f.rights = [&](const std::string&, sa_rights& rt) { if (!opt) rt.usage_flags &= ~F(SA_USAGE_FLAG_SVP_OPTIONAL); };
    sa_handle k = f.key("aes"); CParam p = cparam(ECB, true, 16); p.key = keyval("aes"); Bytes pt = pattern(32, 1), ct = c_raw(p, pt); if (!right) pt[17] ^= 4;
    sa_handle b = f.svp("svpA"); if (!r.check(f.err.empty(), "%s", f.err.c_str())) return; memcpy(f.o["svpA"].mem + 16, ct.data(), 32); sa_buffer I = svp ? sbuf(b, 16) : cbuf(ct.data(), 32);
    sa_status q = CALL(A, sa_svp_key_check, k, &I, 32, pt.data(), 32); r.transitions();
    sa_status want = !svp && !opt ? SA_STATUS_OPERATION_NOT_ALLOWED : right ? SA_STATUS_OK : SA_STATUS_VERIFICATION_FAILED;
    r.check(q == want, "key check of %s content, key %s protection, %s value: %s", svp ? "protected" : "clear", opt ? "does not require" : "requires", right ? "right" : "wrong", sn(q));
    r.traces(); r.nontrivial(8000 + opt * 4 + svp * 2 + right); f.release_all();
}
static void explore(Run& r) {
    for (int ta = 0; ta < 2; ta++) {
        for (int w = 0; w < 4; w++) if (r.take("region %d %d", w, ta)) region(r, w, ta);
        if (ta && r.take("ree")) ree(r, 1);
        for (int i = 0; i < 8; i++) if (r.take("keycheck %d %d", i, ta)) keycheck(r, i & 1, i & 2, i & 4, ta);
        for (int cbc = 0; cbc < 2; cbc++) for (int n = 1; n <= 3; n++) for (unsigned c = 0; c < (n == 1 ? 8u : n == 2 ? 64u : 512u); c++)
            if (r.take("samples %s %d %x %d", cbc ? "cbc" : "ctr", n, c, ta)) { r.nontrivial(100000 + cbc * 4096 + n * 512 + c); cenc_multi(r, cbc, n, c, ta); }
        for (int alg = 0; alg < NCALG; alg++) for (int enc = 0; enc < 2; enc++) for (int opt = 0; opt < 2; opt++) for (int last = 0; last < 3; last++) {
            if (last == 2 && (enc || (alg != CBC && alg != CTR))) continue;
            for (int n = 1; n <= (r.thorough ? 4 : 3); n++) for (int code = 0; code < 1 << 2 * n; code++) {
                Cfg c{alg, enc != 0, opt != 0, ta != 0, {code & 3, code >> 2 & 3, code >> 4 & 3, code >> 6 & 3, code >> 8 & 3}, last};
                for (int fin : {16, 7, 0}) { if (fin && fin < 16 && (c_pad(alg) ? !enc || last != 1 : alg == ECB || alg == CBC)) continue; if (!fin && last == 2) continue; c.fin = fin;
                if (r.stop()) return;
                if (r.take("%s-%s %s %d steps last %s kinds %x length %d %s", CALGN[alg], enc ? "enc" : "dec", opt ? "optional" : "required", n, STEP[last], code, fin, ta ? "trusted" : "client")) { r.nontrivial(hash(r.current())); msg(r, c, n); } }
            }
        }
        // asymmetric decryption has no protected output
        for (auto cn : {"rsa-dec", "oaep-dec", "elg-dec"}) for (int opt = 0; opt < 2; opt++) for (int kind = 0; kind < 4; kind++) if (r.take("%s %d %d %d", cn, opt, kind, ta)) {
            env::reset(); env::caller = uuid_of(1); Session s(ta, uuid_of(1)); Fix f(s.A); f.rights = [&](const std::string&, sa_rights& rt) { if (!opt) rt.usage_flags &= ~F(SA_USAGE_FLAG_SVP_OPTIONAL); };
            sa_handle c = f.cipher(cn); uint8_t mem[256]; memset(mem, 0, 256); sa_handle big = INVALID_HANDLE; CALL(s.A, sa_svp_buffer_create, &big, mem, 256); f.svp("svpA"); sa_handle bi = INVALID_HANDLE; uint8_t mi[256] = {}; CALL(s.A, sa_svp_buffer_create, &bi, mi, 256);
            Bytes ex, ct = !strcmp(cn, "elg-dec") ? elg_enc(0, 1, ex) : rsa_enc(128, !strcmp(cn, "oaep-dec"), pattern(24, 3)); memcpy(mi, ct.data(), ct.size()); Mem co(256); size_t m = ct.size();
            sa_buffer I = kind & 1 ? sbuf(bi) : cbuf(ct.data(), ct.size()), O = kind & 2 ? sbuf(big) : cbuf(co.p, 256);
            sa_status q = CALL(s.A, sa_crypto_cipher_process, &O, c, &I, &m); r.transitions();
            bool may = kind == 0 && opt; r.check(may ? q == SA_STATUS_OK : q != SA_STATUS_OK, "%s kind %d optional %d: %s", cn, kind, opt, sn(q));
            if (!may) { r.check(co.same(), "%s kind %d optional %d wrote clear memory", cn, kind, opt); for (int i = 0; i < 256; i++) if (mem[i]) { r.fail("protected output written"); break; } }
            r.nontrivial(hash(r.current())); r.traces(); f.release_all(); void* mm; size_t nn; for (auto h : {big, bi}) CALL(s.A, sa_svp_buffer_release, &mm, &nn, h);
        }
    }
}
int main(int argc, char** argv) {
    Spec s; s.property = "C10";
    s.rule = "Every cipher and direction, key requiring protection or not, messages of 1 to 3 (thorough 4) steps with each combination of clear/protected input and output per step and each kind of last step (process, process_last, common encryption); common encryption of 1 to 3 samples with every combination of two keys and buffer kinds; asymmetric decryption; key checks; memory of a protected buffer named as clear memory; probing of protected contents by the rich environment. Both APIs. Clear and protected memory is compared before and after. Non-trivial: distinct configurations.";
    s.explore = explore; s.setup = [](Run&) { sah_setup(); env::caller = uuid_of(1); };
    return mc::main(argc, argv, s);
}
