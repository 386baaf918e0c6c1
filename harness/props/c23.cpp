// C23: base64, hexadecimal and base32 agree with independent codecs.
#include "scen.hpp"
#include <sanitizer/allocator_interface.h>
namespace v {
const char *PROP_ID = "C23";
void prop_init() {}
void prop_fini() {}
static const char *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *A32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static Bytes bits(const Bytes &b, int w, const char *al)
{
    Bytes o;
    uint32_t acc = 0;
    int n = 0;
    for (uint8_t c : b) { acc = ((acc << 8) | c) & 0xfffff; n += 8; while (n >= w) { n -= w; o.push_back((uint8_t)al[(acc >> n) & ((1 << w) - 1)]); } }
    if (n) o.push_back((uint8_t)al[(acc << (w - n)) & ((1 << w) - 1)]);
    return o;
}
static bool unbits(const Bytes &t, int w, const char *al, Bytes &o)
{
    uint32_t acc = 0;
    int n = 0;
    o.clear();
    for (uint8_t c : t) {
        const char *p = c ? strchr(al, c) : nullptr;
        if (!p) return false;
        acc = ((acc << w) | (uint32_t)(p - al)) & 0xfffff;
        n += w;
        if (n >= 8) { n -= 8; o.push_back((uint8_t)(acc >> n)); }
    }
    return true;
}
static Bytes e64(const Bytes &b) { Bytes o = bits(b, 6, A64); while (o.size() % 4) o.push_back('='); return o; }
static Bytes e16(const Bytes &b) { return B(hex(b, b.size())); }
static std::string str(const wickr_buffer_t *b) { Bytes x = B(b); return std::string(x.begin(), x.end()).substr(0, 80); }
static std::string str(const Bytes &x) { std::string s; for (auto c : sub(x, 0, 80)) s += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\x%02x", c); return s; }
// text handed over with a terminator that is not counted, in exactly that much memory
struct Text {
    uint8_t *p;
    wickr_buffer_t b;
    explicit Text(const Bytes &t, bool counted = false) : p((uint8_t *)malloc(t.size() + 1)) { if (t.size()) memcpy(p, t.data(), t.size()); p[t.size()] = 0; b.bytes = p; b.length = t.size() + (counted ? 1 : 0); }
    ~Text() { free(p); }
    Text(const Text &) = delete;
};
static void terminated(const wickr_buffer_t *b, const char *what)
{
    if (!b) return;
    bool ok = __sanitizer_get_ownership(b->bytes) && __sanitizer_get_allocated_size(b->bytes) > b->length && b->bytes[b->length] == 0;
    EXPECT(ok, std::string("not-terminated:") + what, "%s text is not null-terminated although it is documented to be", what);
}
static void encode(Rng &r, const Bytes &d)
{
    View D(d);
    auto h = own(getHexStringFromData(D)), x = own(getBase64FromData(D)), c = own(base32_encode(D));
    EXPECT(eq(h.get(), e16(d)), "wrong-hex", "the hexadecimal form of %s is '%s'", hex(d).c_str(), str(h.get()).c_str());
    EXPECT(eq(x.get(), e64(d)), "wrong-base64", "the base64 form of %s is '%s'", hex(d).c_str(), str(x.get()).c_str());
    EXPECT(eq(c.get(), bits(d, 5, A32)), "wrong-base32", "the base32 form of %s is '%s'", hex(d).c_str(), str(c.get()).c_str());
    terminated(h.get(), "hexadecimal"); terminated(x.get(), "base64"); terminated(c.get(), "base32");
    EXPECT(eq(D, d), "input-changed", "encoding changed its input");
    ev("encoded", 3);
    distinct(fmt("len %zu", d.size()));
    // and back
    bool counted = r.chance(1, 2);
    { Text t(e16(d), counted); auto q = own(getDataFromHexString(&t.b)); EXPECT(eq(q.get(), d), "hex-lost", "decoding the hexadecimal form of %s gives %s", hex(d).c_str(), hex(B(q)).c_str()); EXPECT(!memcmp(t.p, e16(d).data(), d.size() * 2), "input-changed", "decoding changed its input"); }
    { Bytes u = e16(d); for (auto &ch : u) if (r.chance(1, 2)) ch = (uint8_t)toupper(ch); Text t(u); auto q = own(getDataFromHexString(&t.b)); EXPECT(eq(q.get(), d), "hex-lost", "decoding upper-case hexadecimal of %s gives %s", hex(d).c_str(), hex(B(q)).c_str()); }
    { Text t(e64(d), counted); auto q = own(getDataFromBase64(&t.b)); EXPECT(eq(q.get(), d), "base64-lost", "decoding the base64 form of %s gives %s", hex(d).c_str(), hex(B(q)).c_str()); }
    { View t(bits(d, 5, A32)); auto q = own(base32_decode(t)); EXPECT(eq(q.get(), d), "base32-lost", "decoding the base32 form of %s gives %s", hex(d).c_str(), hex(B(q)).c_str()); EXPECT(eq(t, bits(d, 5, A32)), "input-changed", "decoding changed its input"); }
    // without padding, and with white space between
    { Bytes u = e64(d), w; while (u.back() == '=') u.pop_back(); for (auto ch : u) { while (r.chance(1, 6)) w.push_back((uint8_t)" \t\r\n"[r.below(4)]); w.push_back(ch); } Text t(w); auto q = own(getDataFromBase64(&t.b)); EXPECT(eq(q.get(), d), "base64-lost", "decoding base64 with white space and no padding of %s gives %s", hex(d).c_str(), hex(B(q)).c_str()); }
    ev("decoded", 5);
}
// arbitrary text against the documented interpretation
static void hex_text(const Bytes &t, size_t counted)
{
    Text T(t);
    T.b.length = counted;
    Bytes s;
    for (size_t i = 0; i < std::min(counted, t.size()) && t[i]; i++) s.push_back(t[i]);
    bool ok = !s.empty() && s.size() % 2 == 0;
    Bytes want;
    for (size_t i = 0; ok && i < s.size(); i += 2) { if (!isxdigit(s[i]) || !isxdigit(s[i + 1])) ok = false; else want.push_back((uint8_t)strtol(std::string{ (char)s[i], (char)s[i + 1] }.c_str(), NULL, 16)); }
    auto q = own(getDataFromHexString(&T.b));
    if (ok) EXPECT(eq(q.get(), want), "hex-wrong", "hexadecimal '%s' decodes to %s", str(s).c_str(), hex(B(q)).c_str());
    else EXPECT(!q, "hex-accepted", "'%s' is not hexadecimal but decodes to %s", str(s).c_str(), hex(B(q)).c_str());
    ev(ok ? "texts_valid" : "texts_invalid");
}
static void b64_text(const Bytes &t, size_t counted)
{
    Text T(t);
    T.b.length = counted;
    Bytes s, body;
    for (size_t i = 0; i < std::min(counted, t.size()) && t[i]; i++) s.push_back(t[i]);
    bool ok = true, odd_pad = false;
    for (auto c : s) {
        if (c == '=') { if (body.size() % 4 == 1) odd_pad = true; continue; }
        if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v') continue;
        if (!strchr(A64, c)) {
            // a few other white-space characters may or may not be skipped
            ok = false;
        }
        body.push_back(c);
    }
    Bytes want;
    auto q = own(getDataFromBase64(&T.b));
    bool ws = false;
    for (auto c : s) if (c == '\b' || c == '\f' || c == '\v') ws = true;
    if (ws) { if (q) ev("texts_unusual"); return; }
    if (ok) unbits(body, 6, A64, want);
    if (!ok) EXPECT(!q, "base64-accepted", "'%s' is not base64 but decodes to %s", str(s).c_str(), hex(B(q)).c_str());
    else if (odd_pad) EXPECT(!q || eq(q.get(), want), "base64-wrong", "base64 '%s' decodes to %s", str(s).c_str(), hex(B(q)).c_str());
    else if (want.empty()) EXPECT(!q || q->length == 0, "base64-wrong", "empty base64 '%s' decodes to %s", str(s).c_str(), hex(B(q)).c_str());
    else EXPECT(eq(q.get(), want), "base64-wrong", "base64 '%s' decodes to %s, not %s", str(s).c_str(), hex(B(q)).c_str(), hex(want).c_str());
    ev(ok ? "texts_valid" : "texts_invalid");
}
static void b32_text(const Bytes &t)
{
    View T(t);
    Bytes want;
    bool ok = unbits(t, 5, A32, want) && !want.empty();
    auto q = own(base32_decode(T));
    if (ok) EXPECT(eq(q.get(), want), "base32-wrong", "base32 '%s' decodes to %s", str(t).c_str(), hex(B(q)).c_str());
    else EXPECT(!q, "base32-accepted", "'%s' is not base32 but decodes to %s", str(t).c_str(), hex(B(q)).c_str());
    if (q && t.size() % 8 == 0) { auto e = own(base32_encode(q.get())); EXPECT(eq(e.get(), t), "base32-wrong", "base32 '%s' does not survive decoding", str(t).c_str()); }
    ev(ok ? "texts_valid" : "texts_invalid");
}
static Bytes text(Rng &r, const char *al, size_t max)
{
    size_t n = r.chance(1, 3) ? r.below(20) : gen_size(r, max), m = strlen(al);
    Bytes o(n);
    for (auto &c : o) c = (uint8_t)al[r.below(m)];
    switch (r.below(6)) {
        case 0: if (n) o[r.below(n)] = (uint8_t)r.u64(); break;
        case 1: if (n) o[r.below(n)] = (uint8_t)r.pick<int>({ ' ', '-', '+', '/', '=', '_', 'x', 'X', 'g', '@', '`', '{', ':', 'I', 'L', 'O', 'U', 'a', 0, 0x80, 0xff, 0xb0, '\n' }); break;
        case 2: for (auto &c : o) if (r.chance(1, 4)) c = (uint8_t)r.u64(); break;
        case 3: for (int i = (int)r.below(4); i >= 0; i--) o.push_back('='); break;
        default: break;
    }
    return o;
}
void prop_case(uint64_t k, Rng &r)
{
    if (k == 3) { encode(r, r.bytes((1u << 20) + r.below(200000))); ev("large_texts"); }
    // every length up to a few groups, every byte value
    if (k < 300) { encode(r, r.bytes(k + 1)); encode(r, Bytes(k + 1, (uint8_t)k)); }
    if (k < 256) {
        Bytes t1{ (uint8_t)k }, t2;
        for (int p = 0; p < 8; p++) for (const char *base : { "01234567", "ABCDEFAB", "abcdefab" }) { Bytes t(base, base + 8); t[p] = (uint8_t)k; hex_text(t, 8); b64_text(t, 8); b32_text(t); distinct(fmt("char %d %d", (int)k, p)); }
    }
    for (int i = 0; i < 6; i++) encode(r, gen_bytes(r, r.chance(1, 20) ? 70000 : 3000));
    for (int i = 0; i < 25; i++) {
        { Bytes t = text(r, "0123456789abcdefABCDEF", 300); hex_text(t, r.chance(1, 4) ? r.below(t.size() + 2) : t.size() + r.below(2)); }
        { Bytes t = text(r, A64, 300); b64_text(t, r.chance(1, 4) ? r.below(t.size() + 2) : t.size() + r.below(2)); }
        b32_text(text(r, A32, 300));
    }
    EXPECT(!own(getHexStringFromData(NULL)) && !own(getBase64FromData(NULL)) && !own(base32_encode(NULL)) && !own(getDataFromHexString(NULL)) && !own(getDataFromBase64(NULL)) && !own(base32_decode(NULL)), "accepted:nothing", "nothing has a text form");
}
} // namespace v
