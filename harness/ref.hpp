// Independent implementation of the documented formats, used as the reference model ("oracle").
// Primitives (SHA-2, AES, P-521 field arithmetic) come straight from OpenSSL's low-level interfaces, everything built
// on top of them (HMAC, HKDF, protobuf, packets, streams, transports) is written here without using the library.
#pragma once
#include "common.hpp"
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/ecdh.h>
#include <openssl/obj_mac.h>
#include <openssl/bn.h>
#include <openssl/x509.h>

namespace ref {
using v::Bytes;
using v::Rng;

// ------------------------------------------------------------------ hashes
inline Bytes sha(int bits, const Bytes &m)
{
    Bytes o(bits / 8);
    if (bits == 256) SHA256(m.data(), m.size(), o.data());
    else if (bits == 384) SHA384(m.data(), m.size(), o.data());
    else SHA512(m.data(), m.size(), o.data());
    return o;
}
inline Bytes hmac(int bits, Bytes key, const Bytes &m)
{
    size_t bs = bits == 256 ? 64 : 128;
    if (key.size() > bs) key = sha(bits, key);
    key.resize(bs, 0);
    Bytes i = key, o = key;
    for (auto &x : i) x ^= 0x36;
    for (auto &x : o) x ^= 0x5c;
    i.insert(i.end(), m.begin(), m.end());
    Bytes d = sha(bits, i);
    o.insert(o.end(), d.begin(), d.end());
    return sha(bits, o);
}
inline Bytes hkdf_expand(int bits, const Bytes &prk, const Bytes &info, size_t len)
{
    Bytes t, out;
    for (uint8_t c = 1; out.size() < len; c++) {
        Bytes m = t;
        m.insert(m.end(), info.begin(), info.end());
        m.push_back(c);
        t = hmac(bits, prk, m);
        out.insert(out.end(), t.begin(), t.end());
        if (c == 255) break;
    }
    out.resize(len);
    return out;
}
inline Bytes hkdf(int bits, const Bytes &ikm, const Bytes &salt, const Bytes &info, size_t len)
{
    return hkdf_expand(bits, hmac(bits, salt.empty() ? Bytes(bits / 8, 0) : salt, ikm), info, len);
}

// ------------------------------------------------------------------ AES
struct GcmOut { Bytes ct, tag; };
inline GcmOut gcm_enc(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &pt)
{
    GcmOut o;
    o.ct.resize(pt.size());
    o.tag.resize(16);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int n;
    EVP_EncryptInit_ex(c, EVP_aes_256_gcm(), NULL, NULL, NULL);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), NULL);
    EVP_EncryptInit_ex(c, NULL, NULL, key.data(), iv.data());
    if (!aad.empty()) EVP_EncryptUpdate(c, NULL, &n, aad.data(), (int)aad.size());
    if (!pt.empty()) EVP_EncryptUpdate(c, o.ct.data(), &n, pt.data(), (int)pt.size());
    EVP_EncryptFinal_ex(c, o.ct.data(), &n);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, o.tag.data());
    EVP_CIPHER_CTX_free(c);
    return o;
}
inline bool gcm_dec(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &ct, const Bytes &tag, Bytes &pt)
{
    // GCM = CTR + GHASH: recompute and compare
    pt.resize(ct.size());
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int n;
    EVP_DecryptInit_ex(c, EVP_aes_256_gcm(), NULL, NULL, NULL);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), NULL);
    EVP_DecryptInit_ex(c, NULL, NULL, key.data(), iv.data());
    if (!ct.empty()) EVP_DecryptUpdate(c, pt.data(), &n, ct.data(), (int)ct.size());
    EVP_CIPHER_CTX_free(c);
    GcmOut o = gcm_enc(key, iv, aad, pt);
    return o.tag == tag && o.ct == ct;
}
inline Bytes ctr(const Bytes &key, const Bytes &iv, const Bytes &in)
{
    // CTR built from raw ECB blocks
    Bytes out(in.size()), blk = iv;
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(c, EVP_aes_256_ecb(), NULL, key.data(), NULL);
    EVP_CIPHER_CTX_set_padding(c, 0);
    uint8_t ks[32];
    int n;
    for (size_t i = 0; i < in.size(); i += 16) {
        EVP_EncryptUpdate(c, ks, &n, blk.data(), 16);
        for (size_t j = 0; j < 16 && i + j < in.size(); j++) out[i + j] = in[i + j] ^ ks[j];
        for (int j = 15; j >= 0; j--) if (++blk[j]) break;
    }
    EVP_CIPHER_CTX_free(c);
    return out;
}

// ------------------------------------------------------------------ P-521
struct Key { Bytes pub, der, scalar; };     // pub in the library's form: curve byte + uncompressed point
inline EC_KEY *ec_priv(const Bytes &der) { const uint8_t *p = der.data(); return d2i_ECPrivateKey(NULL, &p, (long)der.size()); }
inline EC_KEY *ec_pub(const Bytes &pub)
{
    if (pub.size() < 2 || pub[0] != EC_CURVE_NIST_P521.identifier) return NULL;
    EC_KEY *k = EC_KEY_new_by_curve_name(NID_secp521r1);
    EC_POINT *pt = EC_POINT_new(EC_KEY_get0_group(k));
    bool ok = EC_POINT_oct2point(EC_KEY_get0_group(k), pt, pub.data() + 1, pub.size() - 1, NULL) == 1 && EC_POINT_is_on_curve(EC_KEY_get0_group(k), pt, NULL) == 1 && EC_KEY_set_public_key(k, pt) == 1;
    EC_POINT_free(pt);
    if (!ok) { EC_KEY_free(k); return NULL; }
    return k;
}
inline Key ec_from_scalar(const Bytes &scalar)
{
    Key o;
    EC_KEY *k = EC_KEY_new_by_curve_name(NID_secp521r1);
    const EC_GROUP *g = EC_KEY_get0_group(k);
    BIGNUM *d = BN_bin2bn(scalar.data(), (int)scalar.size(), NULL), *n = BN_new();
    EC_GROUP_get_order(g, n, NULL);
    BN_CTX *bc = BN_CTX_new();
    BN_nnmod(d, d, n, bc);
    if (BN_is_zero(d)) BN_one(d);
    EC_POINT *p = EC_POINT_new(g);
    EC_POINT_mul(g, p, d, NULL, NULL, bc);
    EC_KEY_set_private_key(k, d);
    EC_KEY_set_public_key(k, p);
    o.pub.resize(134);
    o.pub[0] = EC_CURVE_NIST_P521.identifier;
    EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, o.pub.data() + 1, 133, bc);
    uint8_t *buf = NULL;
    int len = i2d_ECPrivateKey(k, &buf);
    o.der.assign(buf, buf + len);
    OPENSSL_free(buf);
    o.scalar.resize(66);
    BN_bn2binpad(d, o.scalar.data(), 66);
    EC_POINT_free(p); BN_free(d); BN_free(n); BN_CTX_free(bc); EC_KEY_free(k);
    return o;
}
inline Key ec_gen(Rng &r) { return ec_from_scalar(r.bytes(66)); }
inline bool ec_pub_ok(const Bytes &pub) { EC_KEY *k = ec_pub(pub); if (!k) return false; EC_KEY_free(k); return true; }
// affine x coordinate of d*P, 66 bytes
inline bool ecdh(const Bytes &der, const Bytes &pub, Bytes &out)
{
    EC_KEY *a = ec_priv(der), *b = ec_pub(pub);
    bool ok = a && b;
    if (ok) {
        const EC_GROUP *g = EC_KEY_get0_group(a);
        EC_POINT *p = EC_POINT_new(g);
        BIGNUM *x = BN_new(), *y = BN_new();
        ok = EC_POINT_mul(g, p, NULL, EC_KEY_get0_public_key(b), EC_KEY_get0_private_key(a), NULL) == 1 && EC_POINT_get_affine_coordinates(g, p, x, y, NULL) == 1;
        out.assign(66, 0);
        if (ok) ok = BN_bn2binpad(x, out.data(), 66) == 66;
        EC_POINT_free(p); BN_free(x); BN_free(y);
    }
    if (a) EC_KEY_free(a);
    if (b) EC_KEY_free(b);
    return ok;
}
inline Bytes ecdsa_sign(const Bytes &der, const Bytes &msg, int bits = 512)
{
    EC_KEY *k = ec_priv(der);
    if (!k) return Bytes();
    Bytes d = sha(bits, msg), o(ECDSA_size(k));
    unsigned n = 0;
    if (ECDSA_sign(0, d.data(), (int)d.size(), o.data(), &n, k) != 1) n = 0;
    o.resize(n);
    EC_KEY_free(k);
    return o;
}
inline bool ecdsa_verify(const Bytes &pub, const Bytes &msg, const Bytes &sig, int bits = 512)
{
    EC_KEY *k = ec_pub(pub);
    if (!k) return false;
    Bytes d = sha(bits, msg);
    int r = ECDSA_verify(0, d.data(), (int)d.size(), sig.data(), (int)sig.size(), k);
    EC_KEY_free(k);
    return r == 1;
}
// 143-byte signature block
inline Bytes sig_block(const Bytes &der, int digest_id = DIGEST_ID_SHA512)
{
    Bytes o(143, 0);
    o[0] = (uint8_t)((EC_CURVE_NIST_P521.identifier << 4) | digest_id);
    o[1] = (uint8_t)(141 - der.size());
    memcpy(o.data() + 143 - der.size(), der.data(), der.size());
    return o;
}
inline bool sig_unblock(const Bytes &b, Bytes &der, int *digest = nullptr)
{
    if (b.size() != 143 || (b[0] >> 4) != EC_CURVE_NIST_P521.identifier || b[1] > 140) return false;
    if (digest) *digest = b[0] & 15;
    der.assign(b.begin() + 2 + b[1], b.end());
    return true;
}

// ------------------------------------------------------------------ protobuf
struct PW {
    Bytes b;
    void var(uint64_t x) { while (x >= 128) { b.push_back((uint8_t)(x | 128)); x >>= 7; } b.push_back((uint8_t)x); }
    PW &u(int f, uint64_t x) { var((uint64_t)f << 3); var(x); return *this; }
    PW &s(int f, const Bytes &x) { var(((uint64_t)f << 3) | 2); var(x.size()); b.insert(b.end(), x.begin(), x.end()); return *this; }
};
struct PF { int num, wire; uint64_t u; Bytes s; size_t off, len; };
struct PR {
    std::vector<PF> f;
    bool ok = true;
    explicit PR(const Bytes &b)
    {
        size_t i = 0;
        auto var = [&](uint64_t &x) { x = 0; for (int s = 0; s < 70; s += 7) { if (i >= b.size()) return false; uint8_t c = b[i++]; if (s < 64) x |= (uint64_t)(c & 127) << s; if (!(c & 128)) return true; } return false; };
        while (i < b.size()) {
            PF p;
            p.off = i;
            uint64_t t;
            if (!var(t)) { ok = false; return; }
            p.num = (int)(t >> 3);
            p.wire = (int)(t & 7);
            p.u = 0;
            if (p.wire == 0) { if (!var(p.u)) { ok = false; return; } }
            else if (p.wire == 2) { uint64_t n; if (!var(n) || n > b.size() - i) { ok = false; return; } p.s.assign(b.begin() + i, b.begin() + i + n); i += n; }
            else if (p.wire == 1) { if (b.size() - i < 8) { ok = false; return; } p.s.assign(b.begin() + i, b.begin() + i + 8); i += 8; }
            else if (p.wire == 5) { if (b.size() - i < 4) { ok = false; return; } p.s.assign(b.begin() + i, b.begin() + i + 4); i += 4; }
            else { ok = false; return; }
            p.len = i - p.off;
            f.push_back(p);
        }
    }
    const PF *get(int n) const { const PF *r = nullptr; for (auto &x : f) if (x.num == n) r = &x; return r; }
    bool bytes(int n, Bytes &o) const { auto *p = get(n); if (!p || p->wire != 2) return false; o = p->s; return true; }
    bool num(int n, uint64_t &o) const { auto *p = get(n); if (!p || p->wire != 0) return false; o = p->u; return true; }
};

// ------------------------------------------------------------------ identities
struct Ident { Bytes id; Key key; Bytes sig; int type = 0; };       // sig: DER signature by the owner
struct Chain { Ident root, node; };
inline Bytes enc_identity(const Ident &i, bool priv = false)
{
    PW w;
    w.s(1, i.id).s(2, priv ? i.key.der : i.key.pub);
    if (i.type == IDENTITY_TYPE_NODE && !i.sig.empty()) w.s(3, sig_block(i.sig));
    w.u(4, (uint64_t)i.type).u(5, priv ? 1 : 0);
    return w.b;
}
inline Bytes enc_chain(const Chain &c, bool priv = false) { PW w; w.s(1, enc_identity(c.root, priv)).s(2, enc_identity(c.node, priv)); return w.b; }
inline bool dec_identity(const Bytes &b, Ident &o)
{
    PR p(b);
    uint64_t t, pr = 0;
    if (!p.ok || !p.bytes(1, o.id) || !p.num(4, t)) return false;
    p.num(5, pr);
    if (!p.bytes(2, pr ? o.key.der : o.key.pub)) return false;
    o.type = (int)t;
    Bytes s;
    o.sig.clear();
    if (p.bytes(3, s) && !sig_unblock(s, o.sig)) return false;
    return true;
}
inline bool dec_chain(const Bytes &b, Chain &o) { PR p(b); Bytes r, n; return p.ok && p.bytes(1, r) && p.bytes(2, n) && dec_identity(r, o.root) && dec_identity(n, o.node); }
inline Chain gen_chain(Rng &r, size_t idlen = 32)
{
    Chain c;
    c.root.id = r.bytes(idlen);
    c.root.key = ec_gen(r);
    c.root.type = IDENTITY_TYPE_ROOT;
    c.node.id = r.bytes(idlen);
    c.node.key = ec_gen(r);
    c.node.type = IDENTITY_TYPE_NODE;
    c.node.sig = ecdsa_sign(c.root.key.der, c.node.key.pub);
    return c;
}
inline Bytes enc_node(const Bytes &dev, const Chain &c, uint64_t kid, const Bytes &eph_pub, const Bytes &eph_sig_der)
{
    PW e, n;
    e.u(1, kid).s(2, eph_pub);
    if (!eph_sig_der.empty()) e.s(3, sig_block(eph_sig_der));
    n.s(1, dev).s(2, enc_chain(c)).s(3, e.b);
    return n.b;
}

// ------------------------------------------------------------------ messages
struct Recip { Bytes node_id, dev_id, root_pub, eph_pub; uint64_t kid; };
struct Sealed { Bytes packet, payload_key, content; };
inline Bytes cipher_result(uint8_t id, const Bytes &iv, const Bytes &tag, const Bytes &ct) { return v::cat({ Bytes{ id }, iv, tag, ct }); }
inline Bytes gcm_box(const Bytes &key, const Bytes &iv, const Bytes &pt, const Bytes &aad = Bytes()) { auto g = gcm_enc(key, iv, aad, pt); return cipher_result(CIPHER_AES256_GCM.cipher_id, iv, g.tag, g.ct); }
inline bool gcm_unbox(const Bytes &key, const Bytes &b, Bytes &pt, const Bytes &aad = Bytes())
{
    if (b.size() < 30 || b[0] != CIPHER_AES256_GCM.cipher_id) return false;
    return gcm_dec(key, v::sub(b, 1, 12), aad, v::sub(b, 29), v::sub(b, 13, 16), pt);
}
inline Bytes header_key(const Bytes &root_id, const Bytes &node_id) { return sha(256, v::cat({ root_id, node_id })); }
inline Bytes exch_info(int ver, const Bytes &sroot, const Bytes &rroot, const Bytes &dev) { return ver == 2 ? dev : v::cat({ sroot, rroot, dev }); }
inline Bytes enc_payload(const v::PayloadSpec &s, bool with_bor = true, bool with_type = true)
{
    PW e, m, p;
    e.u(1, s.ttl);
    if (with_bor) e.u(2, s.bor);
    m.s(1, e.b);
    if (s.has_tag) m.s(2, s.tag);
    if (with_type) m.u(3, s.type);
    p.s(3, m.b).s(4, s.body);
    return p.b;
}
inline bool dec_payload(const Bytes &b, v::PayloadSpec &s)
{
    PR p(b);
    Bytes m, e;
    uint64_t t;
    if (!p.ok || !p.bytes(3, m) || !p.bytes(4, s.body)) return false;
    PR pm(m);
    if (!pm.ok || !pm.bytes(1, e)) return false;
    s.has_tag = pm.bytes(2, s.tag);
    if (!pm.num(3, t)) t = 0;
    s.type = (uint16_t)t;
    PR pe(e);
    if (!pe.ok || !pe.num(1, s.ttl)) return false;
    if (!pe.num(2, s.bor)) s.bor = 0;
    return true;
}
inline Bytes wire_key(const Bytes &k) { Bytes o{ (uint8_t)CIPHER_AES256_GCM.cipher_id }; o.insert(o.end(), k.begin(), k.end()); return o; }
inline Bytes seal_exchange(Rng &r, int ver, const Key &exch, const Bytes &sroot, const Recip &rc, const Bytes &data)
{
    Bytes x;
    ecdh(exch.der, rc.eph_pub, x);
    Bytes k = hkdf(ver == 4 ? 512 : 256, x, Bytes(), exch_info(ver, sroot, rc.root_pub, rc.dev_id), 32);
    Bytes iv = r.bytes(16);
    return cipher_result(CIPHER_AES256_CTR.cipher_id, iv, Bytes(), ctr(k, iv, data));
}
inline Bytes enc_header(const Bytes &exch_pub, const std::vector<std::tuple<Bytes, uint64_t, Bytes>> &ex)
{
    PW h;
    h.s(1, exch_pub);
    for (auto &e : ex) { PW x; x.s(1, std::get<0>(e)).u(2, std::get<1>(e)).s(3, std::get<2>(e)); h.s(2, x.b); }
    return h.b;
}
inline Bytes frame(int ver, const Bytes &content, const Bytes &sigblk) { return v::cat({ Bytes{ (uint8_t)ver, (uint8_t)EC_CURVE_NIST_P521.identifier }, content, sigblk }); }
inline Bytes sign_frame(int ver, const Bytes &content, const Bytes &node_der) { return frame(ver, content, sig_block(ecdsa_sign(node_der, content))); }
inline Bytes enc_packet(const Bytes &hdr, const Bytes &pl) { PW w; w.s(1, hdr).s(2, pl); return w.b; }
inline Sealed seal(Rng &r, int ver, const Bytes &root_id, const Bytes &root_pub, const Bytes &node_id, const Bytes &node_der, const std::vector<Recip> &to, const v::PayloadSpec &p, const Bytes *raw_payload = nullptr)
{
    Sealed s;
    s.payload_key = r.bytes(32);
    Key ex = ec_gen(r);
    std::vector<std::tuple<Bytes, uint64_t, Bytes>> l;
    for (auto &t : to) l.emplace_back(t.node_id, t.kid, seal_exchange(r, ver, ex, root_pub, t, wire_key(s.payload_key)));
    Bytes hdr = gcm_box(header_key(root_id, node_id), r.bytes(12), enc_header(ex.pub, l));
    Bytes pl = gcm_box(s.payload_key, r.bytes(12), raw_payload ? *raw_payload : enc_payload(p));
    s.content = enc_packet(hdr, pl);
    s.packet = sign_frame(ver, s.content, node_der);
    return s;
}
struct Split { int ver; Bytes content, sigblk, hdr, pl; };
inline bool split(const Bytes &b, Split &s)
{
    if (b.size() <= 2 + 143) return false;
    s.ver = b[0];
    s.content = v::sub(b, 2, b.size() - 145);
    s.sigblk = v::sub(b, b.size() - 143);
    PR p(s.content);
    return p.ok && p.bytes(1, s.hdr) && p.bytes(2, s.pl);
}
struct Ex { Bytes id; uint64_t kid; Bytes data; };
struct Opened { v::PayloadSpec p; Bytes key, exch_pub; std::vector<Ex> ex; };
// what an independent receiver makes of a packet; empty string on success, else the reason it refused
inline std::string open_header(const Split &s, const Bytes &hk, Opened &o)
{
    Bytes h;
    if (!gcm_unbox(hk, s.hdr, h)) return "header not decryptable";
    PR p(h);
    if (!p.ok || !p.bytes(1, o.exch_pub)) return "header malformed";
    for (auto &f : p.f) if (f.num == 2) { PR e(f.s); Ex x; if (!e.ok || !e.bytes(1, x.id) || !e.num(2, x.kid) || !e.bytes(3, x.data)) return "exchange malformed"; o.ex.push_back(x); }
    return "";
}
inline std::string open(const Bytes &b, const Bytes &root_id, const Bytes &root_pub, const Bytes &node_id, const Bytes &node_pub, const Recip &me, const Bytes &eph_der, Opened &o)
{
    Split s;
    if (!split(b, s)) return "frame malformed";
    if (s.ver < 2 || s.ver > 4) return "version";
    if ((s.ver == 2 ? b[1] & 15 : b[1]) != EC_CURVE_NIST_P521.identifier) return "curve";
    Bytes der;
    int dg;
    if (!sig_unblock(s.sigblk, der, &dg) || dg != DIGEST_ID_SHA512) return "signature block";
    if (!ecdsa_verify(node_pub, s.content, der)) return "signature";
    std::string e = open_header(s, header_key(root_id, node_id), o);
    if (!e.empty()) return e;
    const Ex *mine = nullptr;
    for (auto &x : o.ex) if (x.id == me.node_id) { mine = &x; break; }
    if (!mine) return "not addressed";
    Bytes x;
    if (!ecdh(eph_der, o.exch_pub, x)) return "agreement";
    Bytes k = hkdf(s.ver == 4 ? 512 : 256, x, Bytes(), exch_info(s.ver, root_pub, me.root_pub, me.dev_id), 32);
    if (mine->data.size() < 18 || mine->data[0] != CIPHER_AES256_CTR.cipher_id) return "exchange cipher";
    Bytes pk = ctr(k, v::sub(mine->data, 1, 16), v::sub(mine->data, 17));
    if (pk.size() != 33 || pk[0] != CIPHER_AES256_GCM.cipher_id) return "payload key";
    o.key = v::sub(pk, 1);
    Bytes pl;
    if (!gcm_unbox(o.key, s.pl, pl)) return "payload not decryptable";
    if (!dec_payload(pl, o.p)) return "payload malformed";
    return "";
}

// ------------------------------------------------------------------ stream ratchet
struct Stream {
    Bytes key, evo;
    uint64_t ppe = 1, epoch = 0;
    Stream() {}
    Stream(const Bytes &k, const Bytes &e, uint64_t p) : key(k), evo(e), ppe(p) {}
    void step() { Bytes h = hmac(512, evo, key); key.assign(h.begin(), h.begin() + 32); evo.assign(h.begin() + 32, h.end()); epoch++; }
    void to_seq(uint64_t seq) { while (epoch < seq / ppe) step(); }
    // key material protecting a sequence number, from the current state (epoch must not be later)
    Stream at(uint64_t seq) const { Stream s = *this; s.to_seq(seq); return s; }
};
inline Bytes le64(uint64_t x) { Bytes b(8); memcpy(b.data(), &x, 8); return b; }
inline Bytes stream_iv(const Bytes &seed, uint64_t n) { Bytes h = hmac(512, seed, le64(n)); h.resize(12); return h; }

// ------------------------------------------------------------------ transport
inline Bytes hs_meta(uint8_t mac = TRANSPORT_MAC_TYPE_EC_P521, uint8_t ver = 1, uint64_t flags = 0) { return v::cat({ Bytes{ (uint8_t)((TRANSPORT_PAYLOAD_TYPE_HANDSHAKE << 4) | mac), ver }, le64(flags) }); }
inline Bytes data_meta(uint64_t seq, uint8_t mac = TRANSPORT_MAC_TYPE_AUTH_CIPHER) { return v::cat({ Bytes{ (uint8_t)((TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT << 4) | mac) }, le64(seq) }); }
inline Bytes sign_transport(const Bytes &m, const Bytes &der) { return v::cat({ m, sig_block(ecdsa_sign(der, m)) }); }
inline bool verify_transport(const Bytes &pkt, const Bytes &node_pub)
{
    if (pkt.size() <= 10 + 143) return false;
    Bytes der;
    int dg;
    return sig_unblock(v::sub(pkt, pkt.size() - 143), der, &dg) && ecdsa_verify(node_pub, v::sub(pkt, 0, pkt.size() - 143), der, dg == DIGEST_ID_SHA256 ? 256 : dg == DIGEST_ID_SHA384 ? 384 : 512);
}
// an independent endpoint of the transport protocol
struct Peer {
    Chain me;
    bool initiator = false;
    Key eph;
    Bytes pkt[2];
    Bytes secret;
    uint64_t ppe_send = 0, ppe_recv = 0;
    Stream tx, rx;
    uint64_t tx_seq = 0;
    Bytes remote_pub_chain;     // serialized chain of the other side as known
    Chain remote;
    std::string err;

    Bytes start(Rng &r, bool need_identity, const Chain *announce = nullptr)
    {
        initiator = true;
        eph = ec_gen(r);
        PW s, h;
        s.s(2, enc_chain(announce ? *announce : me)).s(3, eph.pub).u(4, need_identity ? 1 : 0);
        h.s(2, s.b);
        pkt[0] = sign_transport(v::cat({ hs_meta(), h.b }), me.node.key.der);
        return pkt[0];
    }
    static Bytes info(const Bytes &ic, const Bytes &rc, const Bytes &ie, const Bytes &re) { return sha(512, v::cat({ ic, rc, ie, re })); }
    void derive()
    {
        Bytes salt = sha(512, v::cat({ pkt[0], pkt[1] }));
        Bytes s = hkdf(512, secret, salt, v::B("sender"), 64), c = hkdf(512, secret, salt, v::B("receiver"), 64);
        Stream ss(v::sub(s, 0, 32), v::sub(s, 32, 32), ppe_send), rs(v::sub(c, 0, 32), v::sub(c, 32, 32), ppe_recv);
        tx = initiator ? ss : rs;
        rx = initiator ? rs : ss;
        tx_seq = 0;
    }
    // responder: consume a seed, produce a response. known: pinned initiator chain or null
    bool respond(Rng &r, const Bytes &p, uint32_t evo, Bytes &out, const Chain *known = nullptr, const Chain *announce = nullptr)
    {
        pkt[0] = p;
        if (p.size() <= 153 || (p[0] >> 4) != TRANSPORT_PAYLOAD_TYPE_HANDSHAKE || (p[0] & 15) != TRANSPORT_MAC_TYPE_EC_P521 || p[1] != 1) { err = "seed meta"; return false; }
        PR h(v::sub(p, 10, p.size() - 153));
        Bytes sb, cb, ep;
        uint64_t need;
        if (!h.ok || !h.bytes(2, sb)) { err = "seed body"; return false; }
        PR s(sb);
        if (!s.ok || !s.bytes(2, cb) || !s.bytes(3, ep) || !s.num(4, need)) { err = "seed fields"; return false; }
        if (known) remote = *known; else if (!dec_chain(cb, remote)) { err = "seed chain"; return false; }
        if (!ecdsa_verify(remote.root.key.pub, remote.node.key.pub, remote.node.sig)) { err = "seed chain signature"; return false; }
        if (!verify_transport(p, remote.node.key.pub)) { err = "seed signature"; return false; }
        eph = ec_gen(r);
        secret = r.bytes(32);
        ppe_send = ppe_recv = evo;
        PW rk, rd;
        rk.s(1, secret).u(2, CIPHER_AES256_GCM.cipher_id).u(3, evo).u(4, evo);
        rd.s(1, rk.b);
        Bytes x;
        if (!ecdh(eph.der, ep, x)) { err = "seed key"; return false; }
        Bytes k = hkdf(512, x, Bytes(), info(enc_chain(remote), enc_chain(announce ? *announce : me), ep, eph.pub), 32);
        PW rs, hh;
        rs.s(2, eph.pub).s(3, gcm_box(k, r.bytes(12), rd.b));
        if (need) rs.s(4, enc_chain(announce ? *announce : me));
        hh.s(3, rs.b);
        out = pkt[1] = sign_transport(v::cat({ hs_meta(), hh.b }), me.node.key.der);
        derive();
        return true;
    }
    // initiator: consume a response
    bool finish(const Bytes &p, const Chain *known = nullptr)
    {
        pkt[1] = p;
        if (p.size() <= 153 || (p[0] >> 4) != TRANSPORT_PAYLOAD_TYPE_HANDSHAKE || (p[0] & 15) != TRANSPORT_MAC_TYPE_EC_P521 || p[1] != 1) { err = "response meta"; return false; }
        PR h(v::sub(p, 10, p.size() - 153));
        Bytes rb, cb, ep, data;
        if (!h.ok || !h.bytes(3, rb)) { err = "response body"; return false; }
        PR s(rb);
        if (!s.ok || !s.bytes(2, ep) || !s.bytes(3, data)) { err = "response fields"; return false; }
        if (known) { remote = *known; if (s.get(4)) { err = "chain sent although not required"; return false; } }
        else if (!s.bytes(4, cb) || !dec_chain(cb, remote)) { err = "response chain"; return false; }
        if (!ecdsa_verify(remote.root.key.pub, remote.node.key.pub, remote.node.sig)) { err = "response chain signature"; return false; }
        if (!verify_transport(p, remote.node.key.pub)) { err = "response signature"; return false; }
        Bytes x, pt;
        if (!ecdh(eph.der, ep, x)) { err = "response key"; return false; }
        Bytes k = hkdf(512, x, Bytes(), info(enc_chain(me), enc_chain(remote), eph.pub, ep), 32);
        if (!gcm_unbox(k, data, pt)) { err = "response data not decryptable"; return false; }
        PR rd(pt);
        Bytes rk;
        if (!rd.ok || !rd.bytes(1, rk)) { err = "response data"; return false; }
        PR q(rk);
        uint64_t cid;
        if (!q.ok || !q.bytes(1, secret) || !q.num(2, cid) || !q.num(3, ppe_send) || !q.num(4, ppe_recv)) { err = "root key"; return false; }
        if (secret.size() != 32 || cid != CIPHER_AES256_GCM.cipher_id || !ppe_send || !ppe_recv) { err = "root key values"; return false; }
        derive();
        return true;
    }
    Bytes send(Rng &r, const Bytes &data, uint64_t seq = 0)
    {
        if (!seq) seq = ++tx_seq; else tx_seq = seq;
        tx.to_seq(seq);
        Bytes m = data_meta(seq);
        return v::cat({ m, gcm_box(tx.key, r.bytes(12), data, m) });
    }
    bool recv(const Bytes &p, Bytes &data, uint64_t *seq_out = nullptr)
    {
        if (p.size() <= 9 || p[0] != ((TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT << 4) | TRANSPORT_MAC_TYPE_AUTH_CIPHER)) { err = "data meta"; return false; }
        uint64_t seq;
        memcpy(&seq, p.data() + 1, 8);
        if (seq_out) *seq_out = seq;
        rx.to_seq(seq);
        if (!gcm_unbox(rx.key, v::sub(p, 9), data, v::sub(p, 0, 9))) { err = "data not decryptable"; return false; }
        return true;
    }
};
} // namespace ref
