// C18: file encryption round-trips, fails on any change or fault, and never leaves unverified output.
// All files live in a scratch directory below the runner's own temporary directory.
#include "scen.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
namespace v {
const char *PROP_ID = "C18";
static wickr_crypto_engine_t E;
static char g_dir[64];
static std::string path(const std::string &n) { return std::string(g_dir) + "/" + n; }
void prop_init()
{
    E = plain_engine();
    strcpy(g_dir, "./c18.XXXXXX");
    if (!mkdtemp(g_dir)) _exit(3);
    signal(SIGXFSZ, SIG_IGN);
}
static std::map<std::string, std::string> listing()
{
    std::map<std::string, std::string> o;
    DIR *d = opendir(g_dir);
    if (!d) _exit(3);
    while (dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        struct stat st;
        std::string p = path(e->d_name);
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { o[e->d_name] = "<dir>"; continue; }
        FILE *f = fopen(p.c_str(), "rb");
        std::string c((size_t)st.st_size, 0);
        size_t n = f ? fread(&c[0], 1, c.size(), f) : 0;
        c.resize(n);
        if (f) fclose(f);
        o[e->d_name] = c;
    }
    closedir(d);
    return o;
}
static void clear_dir() { for (auto &x : listing()) { std::string p = path(x.first); if (x.second == "<dir>") { rmdir((p + "/x").c_str()); unlink((p + "/x").c_str()); rmdir(p.c_str()); } else unlink(p.c_str()); } }
void prop_fini() { clear_dir(); rmdir(g_dir); }
static void put(const std::string &n, const Bytes &b)
{
    FILE *f = fopen(path(n).c_str(), "wb");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) { fprintf(stderr, "HARNESS-IO cannot write scratch file\n"); _exit(3); }
}
static std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }
static std::string names(const std::map<std::string, std::string> &m) { std::string s; for (auto &x : m) s += fmt("%s(%zu) ", x.first.c_str(), x.second.size()); return s; }

typedef H<wickr_cipher_key_t> CK;
static CK mkkey(wickr_cipher_t c, const Bytes &k) { return own(wickr_cipher_key_create(c, mkp(k))); }

// runs one operation that has to fail: nothing in the directory may have changed
static void must_fail(const char *what, const std::string &ctx, std::function<bool()> op)
{
    auto before = listing();
    bool ok = op();
    auto after = listing();
    EXPECT(!ok, std::string("succeeded:") + what, "the operation reports success despite %s (%s)", what, ctx.c_str());
    if (!ok) EXPECT(before == after, std::string("left-behind:") + what, "a failed operation (%s) changed the files from %s to %s (%s)", what, names(before).c_str(), names(after).c_str(), ctx.c_str());
    clear_dir();
    for (auto &x : before) if (x.second != "<dir>") put(x.first, B(x.second));
    ev("failures_checked");
}
struct Lim {
    rlimit old;
    int res;
    Lim(int r, rlim_t cur) : res(r) { getrlimit((__rlimit_resource)r, &old); rlimit n = old; n.rlim_cur = cur; setrlimit((__rlimit_resource)r, &n); }
    ~Lim() { setrlimit((__rlimit_resource)res, &old); }
};
static bool g_huge;      // the next file is past what three bytes of length can express
static size_t fsize(Rng &r, bool big)
{
    if (!g_huge && r.chance(1, 2)) return r.pick<size_t>({ 1, 2, 15, 16, 17, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 4096 - 29, 4096 - 28, 8192 - 29, 5 * 4096 });
    if (g_huge) { g_huge = false; ev("large_files"); return (16u << 20) + r.range(1, 300000); }
    return r.range(1, big ? 300000 : 20000);
}
// ------------------------------------------------------------------ FILE streams with faults
struct Sim { Bytes data; size_t pos = 0, rfail = (size_t)-1, wfail = (size_t)-1, written = 0; bool noseek = false; bool rfailed = false, wfailed = false, sfailed = false; Rng *r = nullptr; bool whole = false; };
static ssize_t sim_read(void *c, char *b, size_t n) { Sim *s = (Sim *)c; if (s->pos >= s->rfail) { s->rfailed = true; errno = EIO; return -1; } size_t k = std::min(n, std::min(s->data.size(), s->rfail) - std::min(s->pos, s->data.size())); if (k > 1 && !s->whole && s->r->chance(1, 3)) k = s->r->range(1, k); memcpy(b, s->data.data() + s->pos, k); s->pos += k; return (ssize_t)k; }
static ssize_t sim_write(void *c, const char *b, size_t n)
{
    Sim *s = (Sim *)c;
    if (s->written >= s->wfail) { s->wfailed = true; errno = ENOSPC; return 0; }
    size_t k = std::min(n, s->wfail - s->written);
    if (s->pos + k > s->data.size()) s->data.resize(s->pos + k);
    memcpy(s->data.data() + s->pos, b, k);
    s->pos += k;
    s->written += k;
    if (k < n) s->wfailed = true;
    return (ssize_t)k;
}
static int sim_seek(void *c, off64_t *o, int w)
{
    Sim *s = (Sim *)c;
    if (s->noseek) { if (s->written) s->sfailed = true; errno = ESPIPE; return -1; }
    int64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (int64_t)s->pos + *o : (int64_t)s->data.size() + *o;
    if (p < 0) return -1;
    s->pos = (size_t)p;
    *o = p;
    return 0;
}
static FILE *sim_open(Sim &s, const char *mode) { cookie_io_functions_t io = { sim_read, sim_write, sim_seek, NULL }; return fopencookie(&s, mode, io); }

static void streams(Rng &r)
{
    bool gcm = r.chance(3, 4);
    wickr_cipher_t C = gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
    Bytes key = r.bytes(32), m = r.bytes(fsize(r, false));
    CK K = mkkey(C, key);
    std::string ctx = fmt("%s %zu bytes", gcm ? "GCM" : "CTR", m.size());
    size_t hdr = 1 + C.iv_len + C.auth_tag_len;
    // kind: 0 nothing fails, 1 read fails, 2 write fails, 3 output can not seek
    int kind = (int)r.below(4);
    Sim in, out;
    in.r = out.r = &r;
    in.data = m;
    if (kind == 1) in.rfail = r.below(m.size() + 1);
    if (kind == 2) out.wfail = r.below(m.size() + hdr + (gcm ? hdr : 0));
    if (kind == 3) out.noseek = true;
    FILE *fi = sim_open(in, "rb"), *fo = sim_open(out, "wb");
    bool buffered = r.chance(1, 2);
    if (!buffered) setvbuf(fo, NULL, _IONBF, 0);
    bool ok = E.wickr_crypto_engine_encrypt_ofile(fi, K.get(), fo);
    bool closed = fclose(fo) == 0;
    fclose(fi);
    ev("streams");
    ev(kind ? "faulty_streams" : "sound_streams");
    if (kind == 0) EXPECT(ok && closed, "failed:sound", "encrypting an open file failed (%s)", ctx.c_str());
    if (kind == 1) EXPECT(!ok, "succeeded:read error", "encrypting a file that can only be read up to byte %zu succeeded (%s)", in.rfail, ctx.c_str());
    // a caller that closes the stream learns about what was only buffered
    if (kind == 2 && out.wfailed) EXPECT(!(ok && closed), "succeeded:write error", "encrypting to a file that takes only %zu bytes succeeded (%s)", out.wfail, ctx.c_str());
    if (kind == 2 && out.wfailed && !buffered) EXPECT(!ok, "succeeded:write error", "encrypting to an unbuffered file that takes only %zu bytes succeeded (%s)", out.wfail, ctx.c_str());
    if (kind == 3 && gcm && out.sfailed) EXPECT(!ok, "succeeded:seek error", "encrypting to a file that can not be completed succeeded (%s)", ctx.c_str());
    if (ok && closed) {
        Bytes o = out.data;
        bool good = o.size() == hdr + m.size() && o[0] == C.cipher_id;
        if (good) {
            Bytes pt, iv = sub(o, 1, C.iv_len);
            if (gcm) good = ref::gcm_unbox(key, o, pt) && pt == m;
            else good = ref::ctr(key, iv, sub(o, hdr)) == m;
        }
        EXPECT(good, "wrong-output", "a successfully encrypted file does not contain the standard encryption of its source (%s)", ctx.c_str());
    }
    // decrypt with faults
    Bytes iv = r.bytes(C.iv_len), enc;
    if (gcm) enc = ref::gcm_box(key, iv, m);
    else enc = ref::cipher_result(C.cipher_id, iv, Bytes(), ref::ctr(key, iv, m));
    kind = (int)r.below(4);
    Sim din, dout;
    din.r = dout.r = &r;
    din.data = enc;
    std::string bad;
    if (kind == 1) din.rfail = r.chance(1, 3) ? enc.size() : r.below(enc.size() + 1);
    if (kind == 2) dout.wfail = r.below(m.size());
    if (kind == 3 && gcm) din.data = mutate(r, enc, &bad);
    if (kind == 3 && gcm && din.data.size() == enc.size() && din.data == enc) return;
    fi = sim_open(din, "rb");
    fo = sim_open(dout, "wb");
    buffered = r.chance(1, 2);
    if (!buffered) setvbuf(fo, NULL, _IONBF, 0);
    ok = E.wickr_crypto_engine_decrypt_ofile(fi, K.get(), fo, gcm);
    closed = fclose(fo) == 0;
    fclose(fi);
    ev("streams");
    ev(kind ? "faulty_streams" : "sound_streams");
    if (kind == 0 || (kind == 3 && !gcm)) EXPECT(ok && closed && dout.data == m, "failed:sound", "decrypting an open file failed (%s)", ctx.c_str());
    if (kind == 1) EXPECT(!ok, "succeeded:read error", "decrypting a file that can only be read up to byte %zu of %zu succeeded (%s)", din.rfail, enc.size(), ctx.c_str());
    if (kind == 2 && dout.wfailed) EXPECT(!(ok && closed) && (buffered || !ok), "succeeded:write error", "decrypting to a file that takes only %zu bytes succeeded (%s)", dout.wfail, ctx.c_str());
    if (kind == 3 && gcm) EXPECT(!ok, "succeeded:modified", "decrypting a modified file succeeded (%s; %s)", bad.c_str(), ctx.c_str());
    distinct(fmt("stream %d %d %zu", gcm, kind, m.size() / 4096));
}

// ------------------------------------------------------------------ paths
static void paths(Rng &r, uint64_t k)
{
    clear_dir();
    bool gcm = r.chance(3, 4);
    wickr_cipher_t C = gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
    Bytes key = r.bytes(32), m = gen_bytes(r, 1), oldc = r.bytes(r.range(1, 9000));
    m = r.bytes(fsize(r, k % 50 == 3));
    if (r.chance(1, 8)) std::fill(m.begin(), m.end(), 0);
    CK K = mkkey(C, key);
    bool exists = r.chance(1, 2), inplace = r.chance(1, 10);
    std::string ctx = fmt("%s %zu bytes%s%s", gcm ? "GCM" : "CTR", m.size(), exists ? ", destination exists" : "", inplace ? ", in place" : "");
    std::string src = "plain", enc = inplace ? "plain" : "sealed", out = inplace ? "plain" : "opened";
    auto P = [&](const std::string &n) { return path(n); };
    put(src, m);
    if (exists && !inplace) put(enc, oldc);
    auto expect_files = [&](std::map<std::string, std::string> want, const char *when) {
        auto g = listing();
        EXPECT(g == want, "wrong-files", "after %s the files are %s rather than %s (%s)", when, names(g).c_str(), names(want).c_str(), ctx.c_str());
    };
    // faults while encrypting; the file is at most hdr + m long
    size_t hdr = 1 + C.iv_len + C.auth_tag_len;
    {
        size_t lim = r.pick<size_t>({ 0, 1, hdr - 1, hdr, hdr + m.size() - 1, r.below(hdr + m.size()) });
        must_fail("a write error", fmt("encrypting with room for %zu bytes, ", lim) + ctx, [&] { Lim l(RLIMIT_FSIZE, lim); return E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P(enc).c_str()); });
    }
    if (r.chance(1, 4)) { // no descriptor for the output
        int f = dup(0);
        if (f >= 0) { close(f); must_fail("no room for another open file", ctx, [&] { Lim l(RLIMIT_NOFILE, (rlim_t)f + 1); return E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P(enc).c_str()); }); }
    }
    if (r.chance(1, 4)) {
        mkdir(P("dir").c_str(), 0700);
        must_fail("an unreadable source", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(K.get(), P("dir").c_str(), P(enc).c_str()); });
        mkdir(P("dir").c_str(), 0700);
        mkdir(P("dir/x").c_str(), 0700);
        must_fail("a destination that can not be replaced", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P("dir").c_str()); });
        must_fail("a missing source", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(K.get(), P("nothing").c_str(), P(enc).c_str()); });
        must_fail("a missing destination folder", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P("no/where").c_str()); });
        View bad(r.bytes(r.pick<size_t>({ 1, 16, 31 })));
        wickr_cipher_key_t kk = { C, &bad };
        must_fail("a key of another length", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(&kk, P(src).c_str(), P(enc).c_str()); });
        must_fail("missing inputs", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(NULL, P(src).c_str(), P(enc).c_str()) || E.wickr_crypto_engine_encrypt_file(K.get(), NULL, P(enc).c_str()) || E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), NULL); });
        rand_state().fail_after = 0;
        must_fail("no randomness", ctx, [&] { return E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P(enc).c_str()); });
        rand_state().fail_after = -1;
    }
    // encrypt
    bool ok = E.wickr_crypto_engine_encrypt_file(K.get(), P(src).c_str(), P(enc).c_str());
    REQUIRE(ok, "failed:encrypt", "encrypting a file failed (%s)", ctx.c_str());
    ev("encrypted");
    auto now = listing();
    Bytes sealed = B(now[enc]);
    { std::map<std::string, std::string> want;
      want[src] = S(m);
      want[enc] = S(sealed);
      expect_files(want, "encrypting"); }
    REQUIRE(sealed.size() == hdr + m.size() && sealed[0] == C.cipher_id, "wrong-output", "the encrypted file has %zu bytes and cipher %d (%s)", sealed.size(), sealed.empty() ? -1 : sealed[0], ctx.c_str());
    { Bytes pt;
      bool good = gcm ? ref::gcm_unbox(key, sealed, pt) : (pt = ref::ctr(key, sub(sealed, 1, 16), sub(sealed, 17)), true);
      EXPECT(good && pt == m, "wrong-output", "the encrypted file is not the standard encryption of its source (%s)", ctx.c_str());
      View sv(sealed);
      auto c = own(wickr_cipher_result_from_buffer(sv));
      auto p = c ? own(E.wickr_crypto_engine_cipher_decrypt(c.get(), NULL, K.get(), gcm)) : nullptr;
      EXPECT(p && eq(p.get(), m), "wrong-output", "the encrypted file can not be decrypted in memory (%s)", ctx.c_str()); }
    // digests of files
    { FILE *f = fopen(P(enc).c_str(), "rb");
      auto h = own(E.wickr_crypto_engine_digest_file(f, DIGEST_SHA_256));
      fclose(f);
      EXPECT(h && eq(h.get(), ref::sha(256, sealed)), "wrong-digest", "the digest of a file is not the digest of its content (%s)", ctx.c_str()); }
    // decrypt
    ok = E.wickr_crypto_engine_decrypt_file(K.get(), P(enc).c_str(), P(out).c_str(), gcm);
    EXPECT(ok, "failed:decrypt", "decrypting an encrypted file failed (%s)", ctx.c_str());
    { std::map<std::string, std::string> want;
      want[enc] = S(sealed);
      want[src] = want[out] = S(m);
      expect_files(want, "decrypting"); }
    ev("decrypted");
    distinct(fmt("%d %zu %d %d", gcm, m.size(), exists, inplace));
    // a file made from a buffer, decrypted over an existing file
    if (r.chance(1, 3)) {
        clear_dir();
        View mv(m);
        auto c = own(E.wickr_crypto_engine_cipher_encrypt(mv, NULL, K.get(), NULL));
        auto s = own(wickr_cipher_result_serialize(c.get()));
        put("a", B(s));
        put("b", oldc);
        EXPECT(E.wickr_crypto_engine_decrypt_file(K.get(), P("a").c_str(), P("b").c_str(), gcm), "failed:decrypt", "decrypting a file made in memory failed (%s)", ctx.c_str());
        std::map<std::string, std::string> want;
        want["a"] = S(B(s));
        want["b"] = S(m);
        expect_files(want, "decrypting over an existing file");
    }
    // ---- decryption that has to fail
    clear_dir();
    if (exists) put("out", oldc);
    put("in", sealed);
    auto dec = [&](const char *what, const wickr_cipher_key_t *kk, bool auth, const std::string &more = "") {
        must_fail(what, ctx + more, [&] { return E.wickr_crypto_engine_decrypt_file(kk, P("in").c_str(), P("out").c_str(), auth); });
    };
    {
        size_t lim = r.pick<size_t>({ 0, m.size() - 1, r.below(m.size()) });
        must_fail("a write error", fmt("decrypting with room for %zu bytes, ", lim) + ctx, [&] { Lim l(RLIMIT_FSIZE, lim); return E.wickr_crypto_engine_decrypt_file(K.get(), P("in").c_str(), P("out").c_str(), gcm); });
        mkdir(P("dir").c_str(), 0700);
        must_fail("an unreadable source", ctx, [&] { return E.wickr_crypto_engine_decrypt_file(K.get(), P("dir").c_str(), P("out").c_str(), gcm); });
        must_fail("missing inputs", ctx, [&] { return E.wickr_crypto_engine_decrypt_file(NULL, P("in").c_str(), P("out").c_str(), gcm) || E.wickr_crypto_engine_decrypt_file(K.get(), NULL, P("out").c_str(), gcm) || E.wickr_crypto_engine_decrypt_file(K.get(), P("in").c_str(), NULL, gcm); });
        if (r.chance(1, 4)) { int f = dup(0); if (f >= 0) { close(f); must_fail("no room for another open file", ctx, [&] { Lim l(RLIMIT_NOFILE, (rlim_t)f + 1); return E.wickr_crypto_engine_decrypt_file(K.get(), P("in").c_str(), P("out").c_str(), gcm); }); } }
    }
    CK other = mkkey(gcm ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, key);
    dec("a key of another cipher", other.get(), false);
    { View bad(r.bytes(r.pick<size_t>({ 1, 16, 31, 33 }))); wickr_cipher_key_t kk = { C, &bad }; dec("a key of another length", &kk, gcm); }
    if (!gcm) { dec("an unauthenticated file where authentication is required", K.get(), true); return; }
    { Bytes k2 = key; k2[r.below(32)] ^= 1 << r.below(8); CK w = mkkey(C, k2); dec("a wrong key", w.get(), true); }
    { CK w = mkkey(C, r.bytes(32)); dec("a wrong key", w.get(), false); }
    int n = g_thorough ? 40 : 14;
    for (int i = 0; i < n; i++) {
        Bytes x = sealed;
        const char *what;
        std::string more;
        switch (i % 7) {
            case 0: { size_t p = r.below(hdr); x[p] ^= 1 << r.below(8); what = "a changed header"; more = fmt(", byte %zu", p); break; }
            case 1: { size_t p = hdr + r.below(m.size()); x[p] ^= 1 << r.below(8); what = "changed content"; more = fmt(", byte %zu", p); break; }
            case 2: x.resize(r.below(x.size())); what = "a truncated file"; more = fmt(" to %zu", x.size()); break;
            case 3: x.resize(r.pick<size_t>({ x.size() - 1, hdr, hdr - 1, 1, 0, hdr + (m.size() - 1) / 4096 * 4096 })); if (x.size() == sealed.size()) continue; what = "a truncated file"; more = fmt(" to %zu", x.size()); break;
            case 4: { Bytes t = r.bytes(r.pick<size_t>({ 1, 16, 4096, r.range(1, 9000) })); x.insert(x.end(), t.begin(), t.end()); what = "an extended file"; break; }
            case 5: { x[0] = CIPHER_AES256_CTR.cipher_id; what = "a file relabelled as unauthenticated"; break; }
            default: { x = mutate(r, x, &more); if (x == sealed) continue; what = "a modified file"; }
        }
        put("in", x);
        dec(what, K.get(), i % 2, more);
    }
    ev("attacked");
    clear_dir();
}
void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    for (int i = 0; i < 4; i++) { if (k == 1 && i == 0) g_huge = true; streams(r); }
    if (k == 2) g_huge = true;
    paths(r, k);
    if (r.chance(1, 50)) sample(fmt("case %" PRIu64, k));
}
} // namespace v
