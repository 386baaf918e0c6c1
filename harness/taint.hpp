// A set of secrets, found again in any byte string through every 8-byte window of each of them.
#pragma once
#include "common.hpp"
namespace v {
struct Taint {
    static const size_t W = 8;
    struct Sec { Bytes b; const char *name; };
    std::vector<Sec> secs;
    std::unordered_map<uint64_t, uint32_t> win;     // window -> secret
    std::vector<uint64_t> bits = std::vector<uint64_t>(1024);
    static uint64_t ld(const uint8_t *p) { uint64_t x; memcpy(&x, p, 8); return x; }
    static unsigned h(uint64_t x) { return (unsigned)((x * 0x9e3779b97f4a7c15ull) >> 48); }
    static bool dull(const uint8_t *p) { for (size_t i = 1; i < W; i++) if (p[i] != p[0]) return false; return true; }
    bool add(const Bytes &s, const char *name)
    {
        if (s.size() < W || (secs.size() && win.count(ld(s.data())))) return false;
        uint32_t id = (uint32_t)secs.size();
        secs.push_back({ s, name });
        for (size_t i = 0; i + W <= s.size(); i++) {
            if (dull(&s[i])) continue;
            uint64_t x = ld(&s[i]);
            win.emplace(x, id);
            bits[(h(x) >> 6) & 1023] |= 1ull << (h(x) & 63);
        }
        return true;
    }
    void clear() { secs.clear(); win.clear(); std::fill(bits.begin(), bits.end(), 0); }
    // name of the first secret found, or NULL
    const char *scan(const uint8_t *p, size_t n, size_t *at = nullptr) const
    {
        for (size_t i = 0; i + W <= n; i++) {
            uint64_t x = ld(p + i);
            unsigned k = h(x);
            if (!((bits[(k >> 6) & 1023] >> (k & 63)) & 1)) continue;
            auto it = win.find(x);
            if (it != win.end()) { if (at) *at = i; return secs[it->second].name; }
        }
        return nullptr;
    }
    const char *scan(const Bytes &b, size_t *at = nullptr) const { return scan(b.data(), b.size(), at); }
    bool has_all(const Bytes &hay, const Bytes &secret) const { return contains(hay, secret); }
};
// private scalar inside a DER private key
inline Bytes der_scalar(const Bytes &der)
{
    wickr_buffer_t b = { der.size(), (uint8_t *)der.data() };
    wickr_ec_key_t k;
    memset(&k, 0, sizeof k);
    k.pri_data = &b;
    return scalar_of(&k);
}
} // namespace v
