import com.wickr.crypto.*;
import com.wickr.crypto.Cipher;
import com.wickr.crypto.ECKey;
import com.wickr.crypto.Identity;
import java.io.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.security.*;
import java.security.interfaces.*;
import java.security.spec.*;
import java.util.*;
import javax.crypto.*;
import javax.crypto.spec.*;

/** Drives the Java binding (C30). Each case is a pure function of (seed, k); what it observes is returned as lines. */
public final class Driver {
    static final List<String> out = Collections.synchronizedList(new ArrayList<>());
    static final Map<String, Long> events = new TreeMap<>();
    static final Set<String> dists = new TreeSet<>();
    static long nevals;
    static boolean thorough;

    static final class Viol extends RuntimeException { final String key; Viol(String key, String d) { super(d); this.key = key; } }

    static synchronized void ev(String name, long n) { events.merge(name, n, Long::sum); }
    static void ev(String name) { ev(name, 1); }
    static synchronized void dist(String s) { dists.add(s); }
    static void viol(String key, String d) { out.add("V " + key + "|" + d.replace('\n', ' ')); }
    static void check(boolean c, String key, String d) { synchronized (Driver.class) { nevals++; } if (!c) throw new Viol(key, d); }
    static String hex(byte[] b) {
        if (b == null) return "null";
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        return s.toString();
    }
    static String shex(byte[] b) { String s = hex(b); return s.length() > 64 ? s.substring(0, 64) + "..(" + b.length + ")" : s; }
    static void eq(byte[] a, byte[] b, String key, String d) { check(Arrays.equals(a, b), key, d + ": " + shex(a) + " instead of " + shex(b)); }

    // ------------------------------------------------------------------ random values
    static final class R extends Random {
        R(long s) { super(s); }
        boolean chance(int a, int b) { return nextInt(b) < a; }
        int range(int a, int b) { return a + nextInt(b - a + 1); }
        byte[] bytes(int n) { byte[] b = new byte[n]; nextBytes(b); return b; }
        <T> T pick(List<T> l) { return l.get(nextInt(l.size())); }
        @SafeVarargs final <T> T of(T... l) { return l[nextInt(l.length)]; }
        int size() { return chance(1, 8) ? range(1, 20000) : of(1, 2, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000); }
        byte[] data() {
            byte[] b = bytes(size());
            switch (nextInt(6)) { case 0: Arrays.fill(b, (byte) 0); break; case 1: Arrays.fill(b, (byte) 0xff); break; case 2: for (int i = 0; i < b.length; i++) b[i] = (byte) i; }
            return b;
        }
        byte[] ident() { return bytes(of(1, 16, 32, 32, 64, 126, 127)); }
        BigInteger u64() {
            String[] s = { "0", "1", "127", "128", "255", "256", "65535", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615" };
            return chance(1, 2) ? new BigInteger(s[nextInt(s.length)]) : new BigInteger(range(1, 64), this);
        }
        byte[] mutate(byte[] in) {
            for (;;) {
                byte[] b = in.clone();
                int n = b.length;
                switch (n == 0 ? 5 : nextInt(6)) {
                    case 0: case 1: b[nextInt(n)] ^= (byte) (1 << nextInt(8)); break;
                    case 2: b = Arrays.copyOf(b, nextInt(n)); break;
                    case 3: b[nextInt(n)] = of((byte) 0, (byte) 0xff, (byte) 0x7f, (byte) 1); break;
                    case 4: { int i = nextInt(n), j = range(i, n); byte[] c = new byte[n - (j - i)]; System.arraycopy(b, 0, c, 0, i); System.arraycopy(b, j, c, i, n - j); b = c; break; }
                    default: { byte[] x = bytes(range(1, 9)); byte[] c = Arrays.copyOf(b, n + x.length); System.arraycopy(x, 0, c, n, x.length); b = c; }
                }
                if (!Arrays.equals(b, in)) return b;
            }
        }
    }

    // ------------------------------------------------------------------ the binding, by reflection
    static final List<Class<?>> classes = new ArrayList<>();
    static final Map<Class<?>, List<Method>> getters = new HashMap<>();
    static final List<Method> ops = new ArrayList<>();
    // what changes as a side effect of checking an object
    static final Set<String> volatileGetters = Set.of("IdentityChain.getStatus", "IdentityChain.getStatusCache", "Node.getStatus", "Node.getStatusCache");

    static boolean isWrapper(Class<?> c) { return classes.contains(c); }
    static boolean isEnum(Class<?> c) {
        try { c.getDeclaredMethod("swigToEnum", int.class); return true; } catch (NoSuchMethodException e) { return false; }
    }

    public static String init() throws Exception {
        System.loadLibrary("WickrCrypto");
        File dir = new File(Driver.class.getProtectionDomain().getCodeSource().getLocation().toURI());
        String[] names = new File(dir, "com/wickr/crypto").list();
        Arrays.sort(names);
        for (String n : names) {
            if (!n.endsWith(".class") || n.contains("$")) continue;
            Class<?> c = Class.forName("com.wickr.crypto." + n.substring(0, n.length() - 6));
            if (c.isInterface() || isEnum(c) || c.getSimpleName().equals("WickrCryptoJNI") || c.getSimpleName().startsWith("SWIGTYPE")) continue;
            classes.add(c);
        }
        for (Class<?> c : classes) {
            List<Method> g = new ArrayList<>();
            Method[] ms = c.getDeclaredMethods();
            Arrays.sort(ms, Comparator.comparing(Method::toString));
            for (Method m : ms) {
                if (!Modifier.isPublic(m.getModifiers()) || m.isSynthetic()) continue;
                String n = m.getName();
                if (n.equals("delete") || n.equals("getCPtr") || n.equals("toString") || n.equals("cipherFile") || n.equals("decipherFile")) continue;
                boolean usable = true;
                for (Class<?> p : m.getParameterTypes()) if (p.getSimpleName().startsWith("SWIGTYPE") || p == String.class) usable = false;
                if (m.getReturnType().getSimpleName().startsWith("SWIGTYPE")) usable = false;
                if (!usable) continue;
                ops.add(m);
                if (!Modifier.isStatic(m.getModifiers()) && m.getParameterCount() == 0 && (n.startsWith("get") || n.equals("isValid"))
                    && m.getReturnType() != CryptoEngine.class && m.getReturnType() != void.class
                    && !volatileGetters.contains(c.getSimpleName() + "." + n) && !(c == IdentityChain.class)) g.add(m);
                if (c == IdentityChain.class && (n.equals("getRoot") || n.equals("getNode"))) g.add(m);
            }
            getters.put(c, g);
        }
        if (classes.size() < 25 || ops.size() < 120) throw new IllegalStateException("binding not found: " + classes.size() + " classes, " + ops.size() + " methods");
        // one round of everything, so that what is set up once is set up
        for (int k = 0; k < 16; k++) run(4711 + k, k, false);
        collect();
        return classes.size() + " classes, " + ops.size() + " methods";
    }
    @SuppressWarnings({"deprecation", "removal"})
    public static void collect() {
        System.gc();
        System.runFinalization();
    }

    /** everything that can be read from an object, recursively */
    static String snap(Object o) throws Exception { StringBuilder s = new StringBuilder(); snap(o, s, 0); return s.toString(); }
    static void snap(Object o, StringBuilder s, int depth) throws Exception {
        if (o == null) { s.append("null"); return; }
        if (o instanceof byte[]) { s.append(hex((byte[]) o)); return; }
        if (!isWrapper(o.getClass())) { s.append(o); return; }
        if (depth > 8) return;
        s.append(o.getClass().getSimpleName()).append('{');
        for (Method m : getters.get(o.getClass())) {
            s.append(m.getName()).append('=');
            snap(call(m, o), s, depth + 1);
            s.append(',');
        }
        if (o instanceof WickrArray) for (long i = 0, n = ((WickrArray) o).getItemCount(); i < n; i++) snap(((WickrArray) o).getNode(i), s, depth + 1);
        s.append('}');
    }
    static Object call(Method m, Object o, Object... a) throws Exception {
        try { return m.invoke(o, a); }
        catch (InvocationTargetException e) { if (e.getCause() instanceof RuntimeException) throw (RuntimeException) e.getCause(); if (e.getCause() instanceof Error) throw (Error) e.getCause(); throw e; }
    }

    // ------------------------------------------------------------------ accounts and messages
    static final class Acct {
        DeviceInfo dev; byte[] ident; ContextGenResult gen; Context ctx; IdentityChain pub;
        EphemeralKeypair kp; Node node; byte[] devId;
    }
    static Acct acct(R r) {
        Acct a = new Acct();
        a.dev = DeviceInfo.gen(r.bytes(r.range(1, 40)));
        check(a.dev != null, "refused:device", "DeviceInfo.gen failed");
        a.ident = r.ident();
        a.gen = ContextGenResult.genNew(a.dev, a.ident);
        check(a.gen != null, "refused:account", "ContextGenResult.genNew failed");
        a.ctx = a.gen.getCtx();
        eq(a.ctx.getIdChain().getRoot().getIdentifier(), a.ident, "value:identifier", "an account carries another identifier");
        a.pub = IdentityChain.fromBuffer(a.ctx.getIdChain().serialize());
        check(a.pub != null, "refused:chain", "a serialized identity chain is refused");
        check(a.pub.getRoot().getSigKey().getPriData() == null && a.pub.getNode().getSigKey().getPriData() == null, "secret:chain", "the public form of an identity chain carries a private key");
        receive(r, a);
        return a;
    }
    static void receive(R r, Acct a) {
        BigInteger id = r.u64();
        a.kp = a.ctx.ephemeralKeypairGen(id);
        check(a.kp != null && a.kp.getIdentifier().equals(id), "value:key-id", "ephemeral key id " + (a.kp == null ? "null" : a.kp.getIdentifier()) + " instead of " + id);
        EphemeralKeypair pub = EphemeralKeypair.fromValues(id, a.kp.getEcKey(), a.kp.getSignature());
        pub.makePublic();
        check(pub.getEcKey().getPriData() == null, "secret:keypair", "makePublic left the private key");
        check(a.kp.getEcKey().getPriData() != null, "aliased:keypair", "makePublic on a copy took the private key of the original");
        a.devId = a.ctx.getDevInfo().getMsgProtoId();
        a.node = Node.fromValues(a.devId, a.pub, pub);
        check(a.node != null && a.node.verify(), "refused:node", "a node does not verify");
        if (r.chance(1, 3)) {
            Node n2 = Node.fromBuffer(a.node.serialize());
            check(n2 != null && n2.verify(), "refused:node-buffer", "a serialized node is refused");
            eq(n2.serialize(), a.node.serialize(), "roundtrip:Node", "a node read back serializes differently");
            a.node = n2;
        }
    }
    static Payload payload(R r, byte[] body, byte[] tag, BigInteger ttl, BigInteger bor, int type) {
        EphemeralInfo i = EphemeralInfo.fromValues(ttl, bor);
        check(i.getTtl().equals(ttl) && i.getBor().equals(bor), "value:ephemeral", "ttl/bor " + i.getTtl() + "/" + i.getBor() + " instead of " + ttl + "/" + bor);
        PacketMeta m = PacketMeta.fromValues(i, tag, type);
        check(m != null, "refused:meta", "PacketMeta.fromValues failed");
        Payload p = Payload.fromValues(m, body);
        check(p != null, "refused:payload", "Payload.fromValues failed");
        return p;
    }
    static void checkPayload(Payload p, byte[] body, byte[] tag, BigInteger ttl, BigInteger bor, int type) {
        check(p != null, "value:payload", "no payload");
        eq(p.getBody(), body, "value:body", "body differs");
        eq(p.getMeta().getChannelTag(), tag, "value:tag", "channel tag differs");
        check(p.getMeta().getContentType() == type, "value:type", "content type " + p.getMeta().getContentType() + " instead of " + type);
        check(p.getMeta().getEphemeralitySettings().getTtl().equals(ttl), "value:ttl", "ttl differs");
        check(p.getMeta().getEphemeralitySettings().getBor().equals(bor), "value:bor", "bor differs");
    }
    static WickrArray nodes(R r, List<Acct> to) {
        WickrArray a = WickrArray.allocateNode(to.size());
        check(a.getItemCount() == to.size(), "value:array", "array of " + a.getItemCount());
        for (int i = 0; i < to.size(); i++) check(a.setNode(i, to.get(i).node), "refused:array", "setNode failed");
        for (int i = 0; i < to.size(); i++) eq(a.getNode(i).getDevId(), to.get(i).devId, "value:array-node", "node of an array differs");
        check(!a.setNode(to.size(), to.get(0).node) && a.getNode(to.size()) == null, "accepted:array-index", "an index beyond the end is accepted");
        return a;
    }
    static void messages(R r) throws Exception {
        Acct s = acct(r);
        List<Acct> to = new ArrayList<>();
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) to.add(acct(r));
        Acct other = acct(r);
        for (int round = 0; round < 3; round++) {
            if (round > 0) receive(r, r.pick(to));
            byte[] body = r.data(), tag = r.bytes(r.range(1, 200));
            BigInteger ttl = r.u64(), bor = r.u64();
            int type = r.of(0, 1, 255, 256, 32767, 32768, 65535, r.nextInt(65536));
            Object[] e = encode(r, s, to, body, tag, ttl, bor, type);
            byte[] wire = (byte[]) e[0], mkey = (byte[]) e[1];
            collect();
            ev("messages_sealed");
            for (Acct a : to) {
                ContextParseResult pr = a.ctx.parsePacket(wire, s.pub);
                check(pr != null && pr.getParseResult().getErr() == DecodeError.E_SUCCESS && pr.getParseResult().getSignatureStatus() == PacketSignatureStatus.PACKET_SIGNATURE_VALID, "refused:parse", "an addressed device does not parse the packet");
                ECKey key = a.kp.getEcKey();
                ContextDecodeResult d = a.ctx.decodePacket(pr, key);
                pr = null; key = null;
                if (r.chance(1, 2)) collect();
                check(d != null && d.getErr() == DecodeError.E_SUCCESS, "refused:decode", "an addressed device does not open the message");
                Payload p = d.getDecryptedPayload();
                eq(d.getPayloadKey().getKeyData(), mkey, "value:message-key", "message key differs");
                d = null;
                if (r.chance(1, 2)) collect();
                checkPayload(p, body, tag, ttl, bor, type);
                ev("messages_opened");
            }
            ContextParseResult sp = Context.statelessParse(to.get(0).ctx.getIdChain().getNode().getIdentifier(), wire, s.pub);
            check(sp != null && sp.getParseResult().getErr() == DecodeError.E_SUCCESS, "refused:stateless", "stateless parsing fails");
            check(sp.getParseResult().getKeyExchange() != null && sp.getParseResult().getKeyExchange().getKeyId().equals(to.get(0).kp.getIdentifier()), "value:exchange-id", "the key exchange names another key");
            ContextParseResult nd = to.get(0).ctx.parsePacketNoDecode(wire, s.pub);
            check(nd != null && nd.getParseResult().getSignatureStatus() == PacketSignatureStatus.PACKET_SIGNATURE_VALID, "refused:no-decode", "parsePacketNoDecode refuses");
            // a device that is not addressed
            ContextParseResult x = other.ctx.parsePacket(wire, s.pub);
            check(x == null || x.getParseResult().getErr() == DecodeError.ERROR_NODE_NOT_FOUND, "accepted:stranger", "a device that is not addressed parses the packet");
            // the wrong key
            ContextDecodeResult wrong = to.get(0).ctx.decodePacket(to.get(0).ctx.parsePacket(wire, s.pub), other.kp.getEcKey());
            check(wrong == null || (wrong.getErr() != DecodeError.E_SUCCESS && wrong.getDecryptedPayload() == null), "accepted:wrong-key", "a message opens with another key");
            // another sender
            ContextParseResult imp = to.get(0).ctx.parsePacket(wire, other.pub);
            check(imp == null || imp.getParseResult().getSignatureStatus() != PacketSignatureStatus.PACKET_SIGNATURE_VALID, "accepted:sender", "a packet counts as another sender's");
            for (int i = 0; i < 12; i++) {
                byte[] m = r.mutate(wire);
                ContextParseResult t = to.get(0).ctx.parsePacket(m, s.pub);
                ev("tampered_packets");
                if (t == null || t.getParseResult() == null || t.getParseResult().getErr() != DecodeError.E_SUCCESS) continue;
                ContextDecodeResult d = to.get(0).ctx.decodePacket(t, to.get(0).kp.getEcKey());
                if (d == null || d.getErr() != DecodeError.E_SUCCESS) continue;
                check(t.getParseResult().getSignatureStatus() == PacketSignatureStatus.PACKET_SIGNATURE_VALID, "accepted:unsigned", "a packet without a valid signature opens");
                checkPayload(d.getDecryptedPayload(), body, tag, ttl, bor, type);
            }
            dist("message to " + n + ", body " + cls(body.length) + ", type " + (type >> 8) + ", ttl " + ttl.bitLength());
        }
    }
    static String cls(int n) { return n < 16 ? "<16" : n < 256 ? "<256" : n < 4096 ? "<4096" : "large"; }
    static Object[] encode(R r, Acct s, List<Acct> to, byte[] body, byte[] tag, BigInteger ttl, BigInteger bor, int type) throws Exception {
        Payload p = payload(r, body, tag, ttl, bor, type);
        checkPayload(p, body, tag, ttl, bor, type);
        EncoderResult e = s.ctx.encodePacket(p, nodes(r, to));
        check(e != null, "refused:encode", "encodePacket failed");
        Packet pk = e.getPacket();
        byte[] key = e.getPacketKey().getKeyData();
        e = null; p = null;
        if (r.chance(1, 3)) collect();
        byte[] w = pk.serialize();
        Packet again = Packet.createFromBuffer(w);
        check(again != null, "refused:packet", "a packet's own bytes are refused");
        eq(again.serialize(), w, "roundtrip:Packet", "a packet read back serializes differently");
        return new Object[] { w, key };
    }

    // ------------------------------------------------------------------ primitives, against the JDK's own
    static MessageDigest jdig(int w) throws Exception { return MessageDigest.getInstance(w == 0 ? "SHA-256" : w == 1 ? "SHA-384" : "SHA-512"); }
    static Digest dig(int w) { return w == 0 ? Digest.sha256() : w == 1 ? Digest.sha384() : Digest.sha512(); }
    static final ECParameterSpec P521 = p521();
    static ECParameterSpec p521() { try { AlgorithmParameters a = AlgorithmParameters.getInstance("EC"); a.init(new ECGenParameterSpec("secp521r1")); return a.getParameterSpec(ECParameterSpec.class); } catch (Exception e) { throw new RuntimeException(e); } }
    static byte[] fixed(BigInteger v, int n) { byte[] b = v.toByteArray(), o = new byte[n]; int c = Math.min(b.length, n); System.arraycopy(b, b.length - c, o, n - c, c); return o; }
    static byte[] point(ECPoint w) {
        byte[] o = new byte[134];
        o[0] = 0; o[1] = 4;
        System.arraycopy(fixed(w.getAffineX(), 66), 0, o, 2, 66);
        System.arraycopy(fixed(w.getAffineY(), 66), 0, o, 68, 66);
        return o;
    }
    static ECPublicKey jpub(byte[] pub) throws Exception {
        BigInteger x = new BigInteger(1, Arrays.copyOfRange(pub, 2, 68)), y = new BigInteger(1, Arrays.copyOfRange(pub, 68, 134));
        return (ECPublicKey) KeyFactory.getInstance("EC").generatePublic(new ECPublicKeySpec(new ECPoint(x, y), P521));
    }
    /** SEC1 (the library's form) -> PKCS#8 */
    static ECPrivateKey jpri(byte[] sec1) throws Exception {
        byte[] alg = { 0x30, 0x10, 0x06, 0x07, 0x2a, (byte) 0x86, 0x48, (byte) 0xce, 0x3d, 0x02, 0x01, 0x06, 0x05, 0x2b, (byte) 0x81, 0x04, 0x00, 0x23 };
        byte[] body = cat(new byte[] { 2, 1, 0 }, alg, der(4, sec1));
        return (ECPrivateKey) KeyFactory.getInstance("EC").generatePrivate(new PKCS8EncodedKeySpec(der(0x30, body)));
    }
    static byte[] der(int tag, byte[] c) {
        int n = c.length;
        byte[] h = n < 128 ? new byte[] { (byte) tag, (byte) n } : n < 256 ? new byte[] { (byte) tag, (byte) 0x81, (byte) n } : new byte[] { (byte) tag, (byte) 0x82, (byte) (n >> 8), (byte) n };
        return cat(h, c);
    }
    static byte[] cat(byte[]... p) { ByteArrayOutputStream o = new ByteArrayOutputStream(); for (byte[] x : p) o.writeBytes(x); return o.toByteArray(); }
    static byte[] hkdf(String h, byte[] salt, byte[] info, byte[] ikm, int n, int hl) throws Exception {
        Mac m = Mac.getInstance("Hmac" + h);
        m.init(new SecretKeySpec(salt == null || salt.length == 0 ? new byte[hl] : salt, "RAW"));
        byte[] prk = m.doFinal(ikm), t = new byte[0], o = new byte[0];
        for (int i = 1; o.length < n; i++) {
            m.init(new SecretKeySpec(prk, "RAW"));
            m.update(t); m.update(info); m.update((byte) i);
            t = m.doFinal();
            o = cat(o, t);
        }
        return Arrays.copyOf(o, n);
    }
    static byte[] none(byte[] b) { return b == null ? new byte[0] : b; }

    static void digests(R r) throws Exception {
        for (int i = 0; i < 30; i++) {
            int w = r.nextInt(3);
            byte[] d = r.data(), salt = r.chance(1, 2) ? null : r.bytes(r.range(1, 100));
            MessageDigest m = jdig(w);
            m.update(d); m.update(none(salt));
            eq(CryptoEngine.digest(d, salt, dig(w)), m.digest(), "value:digest", "digest of " + d.length + " bytes");
            check(dig(w).getSize() == m.getDigestLength(), "value:digest-size", "digest size");
            ev("digests");
        }
        for (int i = 0; i < 10; i++) {
            int n = r.range(1, 3000);
            byte[] a = CryptoEngine.randomBytes(n), b = CryptoEngine.randomBytes(n);
            check(a != null && a.length == n && b.length == n, "value:random", "randomBytes(" + n + ") is of another length");
            check(n < 16 || !Arrays.equals(a, b), "value:random-repeats", "randomBytes repeats itself");
        }
        // HKDF
        for (int i = 0; i < 10; i++) {
            int w = r.nextInt(3), hl = w == 0 ? 32 : w == 1 ? 48 : 64;
            byte[] ikm = r.data(), salt = r.bytes(r.range(1, 80)), info = r.bytes(r.range(1, 80));
            KDFAlgo a = w == 0 ? KDFAlgo.hkdfSha256() : w == 1 ? KDFAlgo.hkdfSha384() : KDFAlgo.hkdfSha512();
            KDFMeta m = KDFMeta.fromComponents(a, salt, info);
            check(m != null, "refused:kdf-meta", "KDFMeta.fromComponents failed");
            eq(m.getSalt(), salt, "value:kdf-salt", "salt"); eq(m.getInfo(), info, "value:kdf-info", "info");
            String h = w == 0 ? "SHA256" : w == 1 ? "SHA384" : "SHA512";
            eq(CryptoEngine.kdfSalt(m, ikm), hkdf(h, salt, info, ikm, hl, hl), "value:hkdf", "HKDF-" + h);
            int want = r.range(1, 255);
            byte[] full = CryptoEngine.kdfSaltFull(m, ikm, want);
            if (full != null) eq(full, hkdf(h, salt, info, ikm, want, hl), "value:hkdf-full", "HKDF-" + h + " of " + want + " bytes");
            for (int big : new int[] { 256, 300, 511, 512, 65536 }) {
                byte[] g = CryptoEngine.kdfSaltFull(m, ikm, big);
                check(g == null || g.length == big, "value:kdf-length", "kdfSaltFull: " + (g == null ? 0 : g.length) + " bytes instead of " + big);
            }
            ev("kdf");
        }
        // passphrase KDFs (cheap stand-ins)
        for (int i = 0; i < 6; i++) {
            KDFAlgo[] as = { KDFAlgo.scrypt17(), KDFAlgo.scrypt18(), KDFAlgo.scrypt19(), KDFAlgo.scrypt20(), KDFAlgo.bcrypt15() };
            int w = r.nextInt(5);
            byte[] pass = r.bytes(r.range(1, 70));
            for (int j = 0; j < pass.length; j++) if (pass[j] == 0) pass[j] = 1;
            int want = r.range(1, 255);
            KDFResult f = CryptoEngine.kdfFull(as[w], pass, want);
            if (f != null) {
                byte[] hash = f.getHash();
                KDFMeta m = f.getMeta();
                f = null;
                collect();
                check(w == 4 || hash.length == want, "value:kdf-full", "kdfFull gives " + hash.length + " bytes instead of " + want);
                KDFMeta m2 = KDFMeta.createWithBuffer(m.serialize());
                check(m2 != null, "refused:kdf-meta-buffer", "serialized KDF parameters are refused");
                check(KDFMeta.sizeWithBuffer(m.serialize()) == m.serialize().length, "value:kdf-meta-size", "size of KDF parameters");
                if (w != 4) eq(CryptoEngine.kdfSaltFull(m2, pass, want), hash, "value:kdf-again", "a passphrase and its KDF parameters give another value");
                byte[] d = CryptoEngine.kdfSalt(m2, pass);
                check(d != null && (d.length == 32 || w == 4), "value:kdf-default", "the KDF's own size");
                byte[] p2 = r.mutate(pass);
                byte[] o = CryptoEngine.kdfSalt(m2, p2);
                if (p2.length > 0 && p2.length < 70 && w != 4) check(!Arrays.equals(o, d), "value:kdf-passphrase", "another passphrase gives the same value");
            }
            for (int big : new int[] { 256, 300, 512 }) {
                KDFResult g = CryptoEngine.kdfFull(as[w], pass, big);
                check(g == null || w == 4 || g.getHash().length == big, "value:kdf-length", "kdfFull: " + (g == null ? 0 : g.getHash().length) + " bytes instead of " + big);
            }
            byte[] k1 = CryptoEngine.kdf(as[w], pass);
            check(k1 != null, "refused:kdf", "kdf failed");
            byte[] val = r.data();
            Cipher c = r.chance(1, 2) ? Cipher.aes256Gcm() : Cipher.aes256Ctr();
            byte[] enc = CryptoEngine.kdfEncrypt(as[w], c, val, pass);
            // only scrypt and an authenticated cipher are offered for this
            if (w == 4 || !c.getIsAuthenticated()) { check(enc == null, "accepted:kdf-encrypt", "kdfEncrypt accepts a KDF or cipher it does not support"); ev("passphrase_kdf_refused"); continue; }
            check(enc != null, "refused:kdf-encrypt", "kdfEncrypt failed");
            eq(CryptoEngine.kdfDecrypt(enc, pass), val, "value:kdf-decrypt", "kdfDecrypt");
            byte[] bad = CryptoEngine.kdfDecrypt(enc, r.bytes(20));
            check(!Arrays.equals(bad, val), "accepted:passphrase", "another passphrase opens");
            ev("passphrase_kdf");
        }
    }
    static void ciphers(R r) throws Exception {
        for (int i = 0; i < 20; i++) {
            boolean gcm = r.chance(1, 2);
            Cipher c = gcm ? Cipher.aes256Gcm() : Cipher.aes256Ctr();
            check(c.getKeyLen() == 32 && c.getIvLen() == (gcm ? 12 : 16) && c.getAuthTagLen() == (gcm ? 16 : 0) && c.getIsAuthenticated() == gcm, "value:cipher", "cipher parameters");
            byte[] kb = r.bytes(32), pt = r.data(), aad = gcm && r.chance(1, 2) ? r.bytes(r.range(1, 50)) : null, iv = r.chance(1, 2) ? r.bytes(gcm ? 12 : 16) : null;
            CipherKey key = CipherKey.fromComponents(c, kb);
            eq(key.getKeyData(), kb, "value:key", "key bytes");
            CipherResult res = CryptoEngine.cipher(pt, aad, key, iv);
            check(res != null && res.isValid(), "refused:cipher", "cipher failed");
            if (iv != null) eq(res.getIv(), iv, "value:iv", "the chosen nonce is not used");
            javax.crypto.Cipher j = javax.crypto.Cipher.getInstance(gcm ? "AES/GCM/NoPadding" : "AES/CTR/NoPadding");
            SecretKeySpec ks = new SecretKeySpec(kb, "AES");
            if (gcm) j.init(1, ks, new GCMParameterSpec(128, res.getIv())); else j.init(1, ks, new IvParameterSpec(res.getIv()));
            if (aad != null) j.updateAAD(aad);
            byte[] want = j.doFinal(pt);
            eq(gcm ? cat(res.getCipherText(), res.getAuthTag()) : res.getCipherText(), want, "value:ciphertext", "ciphertext (" + (gcm ? "GCM" : "CTR") + ", " + pt.length + " bytes)");
            byte[] ser = res.serialize();
            res = null;
            if (r.chance(1, 3)) collect();
            CipherResult back = CipherResult.fromBuffer(ser);
            check(back != null, "refused:cipher-buffer", "a serialized ciphertext is refused");
            eq(back.serialize(), ser, "roundtrip:CipherResult", "a ciphertext read back serializes differently");
            eq(CryptoEngine.decipher(back, aad, key, gcm || r.chance(1, 2) ? gcm : false), pt, "value:plaintext", "plaintext");
            if (!gcm) check(CryptoEngine.decipher(back, aad, key, true) == null, "accepted:only-auth", "an unauthenticated cipher opens where only authenticated ones may");
            if (gcm) {
                CipherResult t = CipherResult.fromBuffer(r.mutate(ser));
                check(t == null || CryptoEngine.decipher(t, aad, key, true) == null, "accepted:tampered", "a changed ciphertext opens");
                check(CryptoEngine.decipher(back, aad == null ? r.bytes(3) : r.mutate(aad), key, true) == null, "accepted:aad", "other associated data open");
                check(CryptoEngine.decipher(back, aad, CipherKey.fromComponents(c, r.bytes(32)), true) == null, "accepted:key", "another key opens");
            }
            CipherKey k2 = CipherKey.fromBuffer(key.serialize());
            eq(k2.getKeyData(), kb, "roundtrip:CipherKey", "a key read back differs");
            byte[] wrongKey = r.bytes(r.of(1, 16, 31, 33, 64));
            check(CipherKey.fromComponents(c, wrongKey) == null, "accepted:key-size", "a key of " + wrongKey.length + " bytes is accepted");
            CipherKey rk = CryptoEngine.randomKey(c);
            check(rk != null && rk.getKeyData().length == 32 && !Arrays.equals(rk.getKeyData(), CryptoEngine.randomKey(c).getKeyData()), "value:random-key", "random keys");
            ev("ciphers");
        }
        // files
        Path dir = Files.createTempDirectory(Paths.get(".").toAbsolutePath(), "c30");
        try {
            for (int i = 0; i < 4; i++) {
                boolean gcm = r.chance(1, 2);
                CipherKey key = CryptoEngine.randomKey(gcm ? Cipher.aes256Gcm() : Cipher.aes256Ctr());
                byte[] pt = r.chance(1, 3) ? r.bytes(r.range(60000, 140000)) : r.data();
                Path a = dir.resolve("a " + i), b = dir.resolve("b" + i), c = dir.resolve("c" + i);
                Files.write(a, pt);
                check(CryptoEngine.cipherFile(key, a.toString(), b.toString()), "refused:file", "cipherFile failed");
                check(CryptoEngine.decipherFile(key, b.toString(), c.toString(), gcm), "refused:file-back", "decipherFile failed");
                eq(Files.readAllBytes(c), pt, "value:file", "a file comes back differently");
                if (!gcm) check(!CryptoEngine.decipherFile(key, b.toString(), c.toString() + "o", true), "accepted:file-only-auth", "an unauthenticated file opens where only authenticated ones may");
                check(!CryptoEngine.cipherFile(key, dir.resolve("missing").toString(), b.toString() + "x"), "accepted:file", "a missing file is enciphered");
                if (gcm) { byte[] e = Files.readAllBytes(b); e[r.nextInt(e.length)] ^= 1; Files.write(b, e); check(!CryptoEngine.decipherFile(key, b.toString(), c.toString() + "t", true), "accepted:file-tampered", "a changed file opens"); }
                ev("files");
            }
        } finally {
            try (DirectoryStream<Path> s = Files.newDirectoryStream(dir)) { for (Path p : s) Files.delete(p); }
            Files.delete(dir);
        }
    }
    static void curves(R r) throws Exception {
        ECKey k = CryptoEngine.randEcKey(ECCurve.p521());
        check(k != null && k.getPubData().length == 134, "value:ec-key", "a key pair");
        byte[] pub = k.getPubData(), pri = k.getPriData();
        ECPublicKey jp = jpub(pub);
        ECPrivateKey js = jpri(pri);
        ECKey pubOnly = CryptoEngine.importEcKey(pub, false);
        check(pubOnly != null && pubOnly.getPriData() == null, "value:ec-public", "importing a public key");
        eq(pubOnly.getPubData(), pub, "value:ec-public-data", "an imported public key");
        ECKey priIn = CryptoEngine.importEcKey(pri, true);
        check(priIn != null, "refused:ec-private", "importing a private key");
        eq(priIn.getPubData(), pub, "value:ec-private-pub", "the public part of an imported private key");
        ev("ec_keys");
        for (int i = 0; i < 5; i++) {
            byte[] d = r.data();
            int w = r.nextInt(3);
            ECDSAResult s = CryptoEngine.ecSign(k, d, dig(w));
            check(s != null && s.getDigestMode().getSize() == dig(w).getSize(), "refused:sign", "ecSign failed");
            byte[] sig = s.getSigData(), raw = CryptoEngine.ecdsaToRaw(s), ser = s.serialize();
            s = null;
            if (r.chance(1, 2)) collect();
            String alg = "SHA" + (w == 0 ? "256" : w == 1 ? "384" : "512") + "withECDSA";
            Signature v = Signature.getInstance(alg);
            v.initVerify(jp); v.update(d);
            check(v.verify(sig), "value:signature", "the JDK refuses a signature");
            v = Signature.getInstance(alg + "inP1363Format");
            v.initVerify(jp); v.update(d);
            check(raw != null && raw.length == 132 && v.verify(raw), "value:raw-signature", "the JDK refuses a raw signature");
            ECDSAResult fr = CryptoEngine.ecdsaFromRaw(ECCurve.p521(), dig(w), raw);
            check(fr != null && CryptoEngine.ecVerify(fr, pubOnly, d), "refused:raw-signature", "a signature does not survive its raw form");
            ECDSAResult b = ECDSAResult.createFromBuffer(ser);
            check(b != null && CryptoEngine.ecVerify(b, pubOnly, d), "refused:signature-buffer", "a signature does not survive serialization");
            check(!CryptoEngine.ecVerify(b, pubOnly, r.mutate(d)), "accepted:signature-data", "a signature holds for other data");
            check(!CryptoEngine.ecVerify(b, CryptoEngine.randEcKey(ECCurve.p521()), d), "accepted:signature-key", "a signature holds for another key");
            Signature sg = Signature.getInstance(alg);
            sg.initSign(js); sg.update(d);
            byte[] theirs = sg.sign();
            ECDSAResult t = ECDSAResult.create(ECCurve.p521(), dig(w), theirs);
            check(t != null && CryptoEngine.ecVerify(t, pubOnly, d), "refused:jdk-signature", "the JDK's signature is refused");
            eq(t.getSigData(), theirs, "value:signature-data", "signature bytes");
            byte[] bad = r.bytes(r.of(1, 131, 133, 200));
            check(CryptoEngine.ecdsaFromRaw(ECCurve.p521(), dig(w), bad) == null, "accepted:raw-size", "a raw signature of " + bad.length + " bytes is accepted");
            ev("signatures");
        }
        // ECDH
        KeyPairGenerator g = KeyPairGenerator.getInstance("EC");
        g.initialize(new ECGenParameterSpec("secp521r1"));
        KeyPair jk = g.generateKeyPair();
        ECKey theirs = CryptoEngine.importEcKey(point(((ECPublicKey) jk.getPublic()).getW()), false);
        check(theirs != null, "refused:jdk-key", "the JDK's public key is refused");
        KeyAgreement ka = KeyAgreement.getInstance("ECDH");
        ka.init(jk.getPrivate()); ka.doPhase(jp, true);
        eq(CryptoEngine.ecdhGenSharedSecret(k, theirs), fixed(new BigInteger(1, ka.generateSecret()), 66), "value:ecdh", "shared secret");
        ev("ecdh");
        // ECDH cipher contexts
        for (int i = 0; i < 3; i++) {
            Cipher c = r.chance(1, 2) ? Cipher.aes256Gcm() : Cipher.aes256Ctr();
            ECDHCipherContext a = ECDHCipherContext.gen(ECCurve.p521(), c), b = ECDHCipherContext.fromComponents(k, c);
            KDFMeta m = KDFMeta.fromComponents(KDFAlgo.hkdfSha256(), r.bytes(32), r.bytes(r.range(1, 64)));
            byte[] pt = r.data();
            CipherResult res = a.encrypt(pt, b.getLocalKey(), m);
            check(res != null, "refused:ecdh-cipher", "encrypt failed");
            ECKey ap = a.getLocalKey();
            a = null;
            if (r.chance(1, 2)) collect();
            eq(b.decrypt(res, ap, m), pt, "value:ecdh-cipher", "what one side enciphers, the other reads differently");
            byte[] other = b.decrypt(res, ap, KDFMeta.fromComponents(KDFAlgo.hkdfSha256(), r.bytes(32), m.getInfo()));
            check(!Arrays.equals(other, pt), "accepted:ecdh-salt", "another salt opens");
            ev("ecdh_ciphers");
        }
    }

    // ------------------------------------------------------------------ accounts kept, exported and recovered
    static void accounts(R r) throws Exception {
        byte[] sys = r.bytes(r.range(1, 40));
        DeviceInfo dev = DeviceInfo.gen(sys);
        DeviceInfo same = DeviceInfo.compute(dev.getDevSalt(), sys);
        check(same != null && snap(same).equals(snap(dev)), "value:device", "device information is not derived again from its salt");
        byte[] ident = r.ident();
        ContextGenResult g;
        RootKeys roots = null;
        ECKey sig = null;
        switch (r.nextInt(3)) {
            case 0: g = ContextGenResult.genNew(dev, ident); break;
            case 1: sig = CryptoEngine.randEcKey(ECCurve.p521()); g = ContextGenResult.genNewWithSigKey(dev, sig, ident); break;
            default: roots = RootKeys.gen(); g = ContextGenResult.genWithRootKeys(dev, roots, ident);
        }
        check(g != null, "refused:generate", "generating an account failed");
        if (sig != null) eq(g.getCtx().getIdChain().getRoot().getSigKey().getPubData(), sig.getPubData(), "value:sig-key", "the given signing key is not used");
        if (roots != null) check(snap(g.getRootKeys()).equals(snap(roots)), "value:roots", "the given root keys are not used");
        byte[] pass = r.bytes(r.range(1, 60)), bad = r.mutate(pass);
        byte[] rec = g.makeRecovery(), exp = g.exportRecoveryKeyPassphrase(pass);
        check(rec != null && exp != null, "refused:export", "exporting the recovery data failed");
        Context ctx = g.getCtx();
        CipherKey rk = g.getRecoveryKey();
        RootKeys rootsNow = g.getRootKeys();
        String want = snap(rootsNow), wantKey = hex(rk.getKeyData()), wantChain = snap(ctx.getIdChain());
        g = null; roots = null; sig = null;
        collect();
        CipherKey rk2 = ContextGenResult.importRecoveryKeyPassphrase(exp, pass);
        check(rk2 != null && hex(rk2.getKeyData()).equals(wantKey) && hex(rk.getKeyData()).equals(wantKey), "value:recovery-key", "the recovery key comes back differently");
        if (bad.length > 0) {
            CipherKey no = ContextGenResult.importRecoveryKeyPassphrase(exp, bad);
            check(no == null, "accepted:recovery-passphrase", "another passphrase opens the recovery key");
            check(ContextGenResult.genWithPassphrase(dev, exp, bad, rec, ident) == null, "accepted:account-passphrase", "another passphrase recovers the account");
        }
        RootKeys back = ContextGenResult.importRecovery(rec, rk2);
        check(back != null && snap(back).equals(want), "value:recovered-roots", "the recovered root keys differ");
        check(snap(RootKeys.fromBuffer(back.serialize())).equals(want), "roundtrip:RootKeys", "root keys read back differ");
        ContextGenResult viaKey = ContextGenResult.genWithRecovery(dev, rec, rk2, ident), viaPass = ContextGenResult.genWithPassphrase(dev, exp, pass, rec, ident);
        check(viaKey != null && viaPass != null, "refused:recover", "recovering the account failed");
        check(snap(viaKey.getRootKeys()).equals(want) && snap(viaPass.getRootKeys()).equals(want), "value:recovered-account", "the recovered account has other root keys");
        check(snap(viaPass.getCtx().getStorageKeys()).equals(snap(ctx.getStorageKeys())) && snap(viaKey.getCtx().getStorageKeys()).equals(snap(ctx.getStorageKeys())), "value:recovered-keys", "the recovered account has other keys");
        ev("accounts_recovered", 2);
        // the same account in other objects
        byte[] data = r.data();
        CipherResult loc = ctx.cipherLocal(data), rem = ctx.cipherRemote(data);
        byte[] cx = ctx.exportPassphrase(pass), cs = ctx.serialize(), sk = ctx.exportStorageKeys(pass);
        check(loc != null && rem != null && cx != null && cs != null && sk != null, "refused:context-export", "exporting a context failed");
        Context[] cs2 = { Context.importFromBuffer(dev, cx, pass), Context.fromBuffer(same, cs), Context.fromValues(dev, ctx.getIdChain(), ctx.getStorageKeys()), viaKey.getCtx(), viaPass.getCtx() };
        check(Context.importFromBuffer(dev, cx, bad.length == 0 ? r.bytes(9) : bad) == null, "accepted:context-passphrase", "another passphrase imports the context");
        viaKey = null; viaPass = null; same = null; back = null;
        collect();
        for (int i = 0; i < cs2.length; i++) {
            check(cs2[i] != null, "refused:context", "the account does not come back (" + i + ")");
            if (i < 3) check(snap(cs2[i].getIdChain()).equals(wantChain), "value:context-chain", "the account comes back with another identity (" + i + ")");
            eq(cs2[i].decipherRemote(rem), data, "value:remote", "remotely stored data (" + i + ")");
            eq(cs2[i].decipherLocal(loc), data, "value:local", "locally stored data (" + i + ")");
            check(cs2[i].decipherLocal(rem) == null, "accepted:local-remote", "data stored remotely open as local data");
            ev("contexts_restored");
        }
        StorageKeys st = Context.importStorage(sk, pass);
        check(st != null && snap(st).equals(snap(ctx.getStorageKeys())), "value:storage", "storage keys come back differently");
        check(snap(StorageKeys.createFromBuffer(st.serialize())).equals(snap(st)), "roundtrip:StorageKeys", "storage keys read back differ");
        check(Context.importStorage(sk, r.bytes(5)) == null, "accepted:storage-passphrase", "another passphrase imports the storage keys");
        DeviceInfo elsewhere = DeviceInfo.gen(r.bytes(8));
        check(!snap(rootsNow.toStorageKeys(elsewhere)).equals(snap(st)) && snap(rootsNow.toStorageKeys(dev)).equals(snap(st)), "value:localize", "storage keys of a device");
        CipherResult re = rootsNow.encrypt(rk);
        check(re != null && snap(ContextGenResult.importRecovery(re.serialize(), rk)).equals(want), "value:root-export", "encrypted root keys come back differently");
        // identities
        IdentityChain chain = ctx.getIdChain();
        Identity root = chain.getRoot(), node = chain.getNode();
        ctx = null; chain = null; cs2 = null;
        collect();
        check(root.getType() == IdentityType.IDENTITY_TYPE_ROOT && node.getType() == IdentityType.IDENTITY_TYPE_NODE, "value:identity-type", "identity types");
        Identity n2 = root.genNode(r.ident());
        check(IdentityChain.fromIdentities(root, n2).isValid(), "refused:gen-node", "a node signed by a root is not valid");
        Acct other = acct(r);
        check(!IdentityChain.fromIdentities(other.ctx.getIdChain().getRoot(), n2).isValid(), "accepted:foreign-node", "a node signed by another root is valid");
        byte[] d = r.data();
        ECDSAResult s = n2.signData(d);
        check(CryptoEngine.ecVerify(s, n2.getSigKey(), d) && !CryptoEngine.ecVerify(s, root.getSigKey(), d), "value:identity-sign", "an identity's signature");
        Identity same2 = Identity.fromValues(n2.getType(), n2.getIdentifier(), n2.getSigKey(), n2.getSignature());
        check(snap(same2).equals(snap(n2)), "value:identity-copy", "an identity made from another's parts differs");
        Fingerprint f1 = root.bilateralFingerprint(other.pub.getRoot()), f2 = other.pub.getRoot().bilateralFingerprint(root);
        check(snap(f1).equals(snap(f2)) && f1.getHexString(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG).equalsIgnoreCase(hex(f1.getData()).substring(0, f1.getHexString(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG).length())), "value:bilateral", "fingerprints of two parties");
        check(!snap(root.fingerprint()).equals(snap(node.fingerprint())), "value:fingerprint", "fingerprints of two keys agree");
        String b32 = f1.getBase32String(FingerprintOutputType.FINGERPRINT_OUTPUT_SHORT);
        check(f1.getBase32String(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG).startsWith(b32) && b32.length() > 8, "value:base32", "the short form does not begin the long one");
        ev("identities");
    }

    // ------------------------------------------------------------------ what can be written down and read back
    interface From { Object from(byte[] b); }
    static void same(Object got, Object want, String what) throws Exception { check(got != null, "refused:build-" + what, what + " is refused"); check(snap(got).equals(snap(want)), "value:build-" + what, what + " is " + snap(got) + " after " + snap(want) + " was put in"); }
    /** what objects are built from is what they hold and what they do */
    static void built(R r) throws Exception {
        Acct a = acct(r), b = acct(r);
        CipherKey k1 = CryptoEngine.randomKey(Cipher.aes256Gcm()), k2 = CryptoEngine.randomKey(r.chance(1, 2) ? Cipher.aes256Gcm() : Cipher.aes256Ctr()), k3 = CryptoEngine.randomKey(Cipher.aes256Gcm());
        StorageKeys sk = StorageKeys.createFromKeys(k1, k3);
        same(sk.getLocal(), k1, "StorageKeys.local"); same(sk.getRemote(), k3, "StorageKeys.remote");
        ECKey e1 = CryptoEngine.randEcKey(ECCurve.p521());
        RootKeys rk = RootKeys.fromKeys(e1, k1, k3);
        same(rk.getNodeSignatureRoot(), e1, "RootKeys.nodeSignatureRoot"); same(rk.getNodeStorageRoot(), k1, "RootKeys.nodeStorageRoot"); same(rk.getRemoteStorageRoot(), k3, "RootKeys.remoteStorageRoot");
        StorageKeys loc = rk.toStorageKeys(a.dev);
        same(loc.getRemote(), k3, "RootKeys.toStorageKeys.remote");
        check(!Arrays.equals(loc.getLocal().serialize(), k1.serialize()), "value:build-local", "the local storage key is not bound to the device");
        Context c = Context.fromValues(a.dev, a.ctx.getIdChain(), sk);
        same(c.getIdChain(), a.ctx.getIdChain(), "Context.idChain"); same(c.getStorageKeys(), sk, "Context.storageKeys"); same(c.getDevInfo(), a.dev, "Context.devInfo");
        byte[] data = r.data();
        CipherResult l = c.cipherLocal(data), m = c.cipherRemote(data);
        if (l != null && m != null) {
            eq(CryptoEngine.decipher(l, null, k1, true), data, "value:build-local-key", "what a context enciphers for its device is not under its local key");
            eq(CryptoEngine.decipher(m, null, k3, true), data, "value:build-remote-key", "what a context enciphers for its account is not under its remote key");
            ev("keys_used");
        }
        byte[] id = r.ident();
        Identity root = Identity.fromValues(IdentityType.IDENTITY_TYPE_ROOT, id, e1, null);
        eq(root.getIdentifier(), id, "value:build-identifier", "identifier"); same(root.getSigKey(), e1, "Identity.sigKey"); check(root.getType() == IdentityType.IDENTITY_TYPE_ROOT && root.getSignature() == null, "value:build-type", "identity");
        Identity node = root.genNode(r.chance(1, 2) ? null : r.ident());
        Identity node2 = Identity.fromValues(IdentityType.IDENTITY_TYPE_NODE, node.getIdentifier(), node.getSigKey(), node.getSignature());
        same(node2, node, "Identity");
        IdentityChain ch = IdentityChain.fromIdentities(root, node2);
        same(ch.getRoot(), root, "IdentityChain.root"); same(ch.getNode(), node, "IdentityChain.node");
        check(ch.isValid(), "refused:build-chain", "an identity chain built of a root and its device is not valid");
        BigInteger kid = r.u64();
        EphemeralKeypair kp = EphemeralKeypair.gen(kid, node), kq = EphemeralKeypair.fromValues(kid, kp.getEcKey(), kp.getSignature());
        check(kp.getIdentifier().equals(kid), "value:build-kp-id", "EphemeralKeypair.gen has number " + kp.getIdentifier() + " instead of " + kid);
        same(kq, kp, "EphemeralKeypair");
        check(kq.verify(kq, node) && !kq.verify(kq, root), "value:build-kp-verify", "an ephemeral key verifies against somebody else, or not against its owner");
        byte[] dev = r.bytes(r.range(1, 64));
        Node n = Node.fromValues(dev, ch, kq);
        eq(n.getDevId(), dev, "value:build-devid", "Node.devId"); same(n.getIdChain(), ch, "Node.idChain"); same(n.getEphemeralKeypair(), kp, "Node.ephemeralKeypair");
        CipherResult x = CryptoEngine.cipher(data, null, k2, null);
        BigInteger kn = r.u64();
        KeyExchange ke = KeyExchange.fromValues(id, kn, x);
        eq(ke.getExchangeId(), id, "value:build-exchange-id", "KeyExchange.exchangeId"); check(ke.getKeyId().equals(kn), "value:build-key-id", "KeyExchange.keyId is " + ke.getKeyId() + " instead of " + kn); same(ke.getExchangeCiphertext(), x, "KeyExchange.exchangeCiphertext");
        BigInteger ttl = r.u64(), bor = r.u64();
        EphemeralInfo ei = EphemeralInfo.fromValues(ttl, bor);
        byte[] tag = r.bytes(r.range(1, 40));
        int type = r.nextInt(65536);
        PacketMeta pm = PacketMeta.fromValues(ei, tag, type);
        same(pm.getEphemeralitySettings(), ei, "PacketMeta.ephemeralitySettings"); eq(pm.getChannelTag(), tag, "value:build-tag", "PacketMeta.channelTag"); check(pm.getContentType() == type && ei.getTtl().equals(ttl) && ei.getBor().equals(bor), "value:build-meta", "PacketMeta");
        Payload p = Payload.fromValues(pm, data);
        same(p.getMeta(), pm, "Payload.meta"); eq(p.getBody(), data, "value:build-body", "Payload.body");
        EncoderResult er = a.ctx.encodePacket(p, nodes(r, List.of(b)));
        EncoderResult es = EncoderResult.fromValues(er.getPacketKey(), er.getPacket());
        same(es, er, "EncoderResult");
        byte[] raw = r.bytes(32), salt = r.bytes(r.range(1, 32)), info = r.bytes(r.range(1, 32));
        CipherKey ck = CipherKey.fromComponents(Cipher.aes256Ctr(), raw);
        eq(ck.getKeyData(), raw, "value:build-key-data", "CipherKey.keyData"); same(ck.getCipher(), Cipher.aes256Ctr(), "CipherKey.cipher");
        KDFMeta km = KDFMeta.fromComponents(KDFAlgo.hkdfSha384(), salt, info);
        eq(km.getSalt(), salt, "value:build-salt", "KDFMeta.salt"); eq(km.getInfo(), info, "value:build-info", "KDFMeta.info"); same(km.getAlgo(), KDFAlgo.hkdfSha384(), "KDFMeta.algo");
        ECDSAResult sg = node.getSignature(), sh = ECDSAResult.create(sg.getCurve(), sg.getDigestMode(), sg.getSigData());
        same(sh, sg, "ECDSAResult");
        KDFResult none = CryptoEngine.kdfFull(KDFAlgo.hkdfSha256(), raw, 0);
        check(none == null || none.getHash() == null || none.getHash().length == 0, "value:kdf-length", "kdfFull gives bytes when none are asked for");
        ev("built");
    }
    static void serialized(R r) throws Exception {
        built(r);
        Acct a = acct(r), b = acct(r);
        List<Object[]> all = new ArrayList<>();
        byte[] body = r.data();
        Payload p = payload(r, body, r.bytes(9), r.u64(), r.u64(), r.nextInt(65536));
        EncoderResult e = a.ctx.encodePacket(p, nodes(r, List.of(a, b)));
        ContextParseResult pr = b.ctx.parsePacket(e.getPacket().serialize(), a.pub);
        KeyExchangeSet kes = pr.getParseResult().getKeyExchangeSet();
        CryptoEngine eng = WickrCrypto.wickrCryptoEngineGetDefault();
        add(all, "Identity", a.ctx.getIdChain().getRoot().serialize(), Identity::fromBuffer);
        add(all, "IdentityChain", a.ctx.getIdChain().serialize(), IdentityChain::fromBuffer);
        add(all, "IdentityChain-private", a.ctx.getIdChain().serializePrivate(), IdentityChain::fromBuffer);
        add(all, "CipherKey", e.getPacketKey().serialize(), CipherKey::fromBuffer);
        add(all, "CipherResult", p.cipher(e.getPacketKey()).serialize(), CipherResult::fromBuffer);
        add(all, "ECDSAResult", a.kp.getSignature().serialize(), ECDSAResult::createFromBuffer);
        add(all, "KDFMeta", KDFMeta.fromComponents(KDFAlgo.scrypt17(), r.bytes(16), null).serialize(), KDFMeta::createWithBuffer);
        add(all, "Packet", e.getPacket().serialize(), Packet::createFromBuffer);
        add(all, "Payload", p.serialize(), Payload::createFromBuffer);
        add(all, "RootKeys", a.gen.getRootKeys().serialize(), RootKeys::fromBuffer);
        add(all, "StorageKeys", a.ctx.getStorageKeys().serialize(), StorageKeys::createFromBuffer);
        add(all, "Node", a.node.serialize(), Node::fromBuffer);
        add(all, "Context", a.ctx.serialize(), x -> Context.fromBuffer(a.dev, x));
        if (kes != null) add(all, "KeyExchangeSet", kes.serialize(), KeyExchangeSet::fromBuffer);
        add(all, "EphemeralKeypair", WickrCrypto.wickrEphemeralKeypairSerialize(a.kp), x -> WickrCrypto.wickrEphemeralKeypairCreateFromBuffer(x, eng));
        checkEqPayload(Payload.fromCiphertext(CipherResult.fromBuffer(p.cipher(e.getPacketKey()).serialize()), e.getPacketKey()), p);
        if (kes != null) {
            CipherResult ek = WickrCrypto.wickrKeyExchangeSetEncrypt(kes, eng, a.ctx.getPacketHeaderKey());
            check(ek != null, "refused:exchange-encrypt", "encrypting key exchanges failed");
            KeyExchangeSet k2 = WickrCrypto.wickrKeyExchangeSetCreateFromCipher(eng, ek, a.ctx.getPacketHeaderKey());
            check(k2 != null, "refused:exchange-decrypt", "decrypting key exchanges failed");
            eq(k2.serialize(), kes.serialize(), "roundtrip:exchanges", "key exchanges come back differently");
        }
        pr = null; e = null;
        collect();
        for (Object[] x : all) {
            String n = (String) x[0];
            byte[] w = (byte[]) x[1];
            From f = (From) x[2];
            check(w != null, "refused:serialize:" + n, "serializing failed");
            Object o = f.from(w);
            check(o != null, "refused:" + n, "its own bytes are refused");
            byte[] again = reserialize(o, n);
            eq(again, w, "roundtrip:" + n, "read back and written again");
            String s1 = snap(o);
            o = null;
            check(snap(f.from(w)).equals(s1), "value:reread:" + n, "reading the same bytes twice gives different objects");
            ev("roundtrips");
            for (int i = 0; i < 12; i++) {
                byte[] m = r.chance(1, 10) ? r.bytes(r.range(0, 60)) : r.mutate(w), keep = m.clone();
                Object h = f.from(m);
                eq(m, keep, "input-changed:" + n, "reading changed the bytes read");
                ev(h == null ? "hostile_refused" : "hostile_accepted");
                if (h != null) { byte[] v = reserialize(h, n); if (v != null) { Object h2 = f.from(v); check(h2 != null && Arrays.equals(reserialize(h2, n), v), "reserialized:" + n, "what was read from " + shex(m) + " is written in a form that is not read and written again"); } }
            }
            dist("serialized " + n + " " + w.length);
        }
    }
    static void add(List<Object[]> l, String n, byte[] b, From f) { l.add(new Object[] { n, b, f }); }
    static void checkEqPayload(Payload a, Payload b) throws Exception { check(a != null && snap(a).equals(snap(b)), "value:payload-cipher", "an enciphered payload comes back differently"); }
    static byte[] reserialize(Object o, String n) throws Exception {
        if (o instanceof EphemeralKeypair) return WickrCrypto.wickrEphemeralKeypairSerialize((EphemeralKeypair) o);
        return (byte[]) call(o.getClass().getMethod(n.equals("IdentityChain-private") ? "serializePrivate" : "serialize"), o);
    }

    // ------------------------------------------------------------------ random walks over the whole binding
    static final class Item { Object o; Item root; String snap; Item(Object o, Item root, String s) { this.o = o; this.root = root == null ? this : root; this.snap = s; } }
    // these are passed by value: the binding answers null with an exception, before it lets go of what it holds for the other arguments
    static final Set<Class<?>> byValue = Set.of(Cipher.class, Digest.class, ECCurve.class, KDFAlgo.class, EphemeralInfo.class, CryptoEngine.class);
    static final class Walk {
        final R r; final List<Item> pool = new ArrayList<>(); final List<byte[]> bytes = new ArrayList<>();
        final Set<Item> gone = new HashSet<>();
        boolean byValueNulls;
        Walk(R r) { this.r = r; }
        Item put(Object o, Item root) throws Exception { Item i = new Item(o, root, snap(o)); pool.add(i); return i; }
        Object val(Class<?> t, String where) {
            if (t == byte[].class) {
                switch (r.nextInt(10)) {
                    case 0: return null;
                    case 1: case 2: case 3: case 4: if (!bytes.isEmpty()) return r.pick(bytes).clone();
                    case 5: if (!bytes.isEmpty()) return r.mutate(r.pick(bytes));
                    default: return r.chance(1, 12) ? new byte[0] : r.bytes(r.of(1, 12, 16, 31, 32, 33, 64, 66, 127, 128, 132, 134, 600));
                }
            }
            if (t == boolean.class) return r.nextBoolean();
            if (t == long.class) return where.equals("randomBytes") ? (long) r.of(1, 16, 32, 5000) : where.equals("allocateNode") ? (long) r.range(1, 5) : (long) r.of(0, 1, 2, 3, 4, 5, 32, 64, 255);
            if (t == int.class) return r.of(0, 1, 255, 256, 65535);
            if (t == BigInteger.class) return byValueNulls && r.chance(1, 20) ? null : r.u64();
            if (isWrapper(t)) {
                if (r.chance(1, 14) && (byValueNulls || !byValue.contains(t))) return null;
                List<Item> l = new ArrayList<>();
                for (Item i : pool) if (i.o.getClass() == t) l.add(i);
                return l.isEmpty() ? null : r.pick(l).o;
            }
            if (isEnum(t)) {
                List<Object> l = new ArrayList<>();
                for (Field f : t.getFields()) if (Modifier.isStatic(f.getModifiers()) && f.getType() == t) try { l.add(f.get(null)); } catch (IllegalAccessException e) { }
                return r.pick(l);
            }
            throw new IllegalStateException("no value of " + t);
        }
        void step() throws Exception {
            Method m = null;
            Item self = null;
            for (int tries = 0; tries < 50; tries++) {
                m = r.pick(ops);
                if (Modifier.isStatic(m.getModifiers())) { self = null; break; }
                List<Item> l = new ArrayList<>();
                for (Item i : pool) if (i.o.getClass() == m.getDeclaringClass()) l.add(i);
                if (l.isEmpty()) { m = null; continue; }
                self = r.pick(l);
                break;
            }
            if (m == null) return;
            String name = m.getDeclaringClass().getSimpleName() + "." + m.getName();
            Class<?>[] pt = m.getParameterTypes();
            Object[] a = new Object[pt.length], keep = new Object[pt.length];
            boolean nul = false;
            for (int i = 0; i < pt.length; i++) {
                a[i] = val(pt[i], m.getName());
                if (a[i] == null && !byValueNulls && (byValue.contains(pt[i]) || pt[i] == BigInteger.class)) return;
                if (a[i] == null) nul = true;
                keep[i] = a[i] instanceof byte[] ? ((byte[]) a[i]).clone() : null;
            }
            Object res;
            try { res = call(m, self == null ? null : self.o, a); }
            catch (NullPointerException e) { if (!nul) throw new Viol("exception:" + name, "" + e); ev("null_exceptions"); return; }
            catch (RuntimeException e) { throw new Viol("exception:" + name, "" + e); }
            ev("operations");
            dist("op " + name + (nul ? " (null argument)" : "") + (res == null ? " refused" : ""));
            if (nul && res == null) ev("null_refused");
            for (int i = 0; i < pt.length; i++) if (keep[i] != null) eq((byte[]) a[i], (byte[]) keep[i], "input-changed:" + name, "argument " + i + " was changed");
            if (res instanceof byte[]) { if (bytes.size() < 40) bytes.add((byte[]) res); else bytes.set(r.nextInt(40), (byte[]) res); }
            if (name.equals("Node.setKeypair") && Boolean.TRUE.equals(res)) { Item rt = self.root; Object so = self.o; pool.removeIf(i -> i.root == rt && i.o != so && (i.o instanceof EphemeralKeypair || i.o instanceof ECKey || i.o instanceof ECDSAResult || i.o instanceof ECCurve || i.o instanceof Digest)); fresh(rt); }
            if (name.equals("WickrArray.setNode") || name.equals("EphemeralKeypair.makePublic")) fresh(self.root);
            if (res != null && isWrapper(res.getClass())) {
                boolean child = self != null && pt.length == 0 && m.getName().startsWith("get");
                if (pool.size() < 60) put(res, child ? self.root : null);
                if (child) ev("views");
            }
        }
        void fresh(Item rt) throws Exception { for (Item i : pool) if (i.root == rt) i.snap = snap(i.o); }
        void drop() {
            for (int i = pool.size() - 1; i >= 0; i--) {
                Item x = pool.get(i);
                boolean hasView = false;
                for (Item y : pool) if (y != x && y.root == x.root) hasView = true;
                if (r.chance(hasView ? 1 : 1, hasView ? 3 : 5)) {
                    // an object that nothing else in the pool belongs to may also be deleted explicitly
                    if (!hasView && r.chance(1, 3)) try { Method d = x.o.getClass().getMethod("delete"); d.invoke(x.o); if (r.chance(1, 2)) d.invoke(x.o); ev("deleted"); } catch (ReflectiveOperationException e) { }
                    pool.remove(i);
                    ev("dropped");
                }
            }
        }
        void verify() throws Exception {
            for (Item i : pool) {
                    check(snap(i.o).equals(i.snap), "changed:" + i.o.getClass().getSimpleName(), "an object changed although nothing was done to it");
                ev("unchanged");
            }
        }
    }
    static void walk(R r) throws Exception {
        Walk w = new Walk(r);
        seedPool(w, r);
        int n = r.range(120, 260);
        for (int i = 0; i < n; i++) {
            w.step();
            if (r.chance(1, 20)) { w.drop(); collect(); w.verify(); ev("collections"); }
        }
        collect();
        w.verify();
        ev("walks");
    }
    static void seedPool(Walk w, R r) throws Exception {
        for (Object o : new Object[] { Cipher.aes256Gcm(), Cipher.aes256Ctr(), Digest.sha256(), Digest.sha512(), ECCurve.p521(), KDFAlgo.scrypt17(), KDFAlgo.bcrypt15(), KDFAlgo.hkdfSha256(), KDFAlgo.hkdfSha512Expand(), WickrCrypto.wickrCryptoEngineGetDefault() }) w.put(o, null);
        Acct a = acct(r), b = acct(r);
        byte[] body = r.data();
        Payload p = payload(r, body, r.bytes(9), r.u64(), r.u64(), 7);
        WickrArray arr = nodes(r, List.of(a, b));
        EncoderResult e = a.ctx.encodePacket(p, arr);
        byte[] wire = e.getPacket().serialize();
        ContextParseResult pr = b.ctx.parsePacket(wire, a.pub);
        ContextDecodeResult d = b.ctx.decodePacket(pr, b.kp.getEcKey());
        byte[] pass = r.bytes(8);
        Object[] owned = { a.dev, a.gen, b.gen, a.pub, a.kp, b.kp, a.node, p, arr, e, pr, d, CryptoEngine.randomKey(Cipher.aes256Gcm()), CryptoEngine.randEcKey(ECCurve.p521()),
            KDFMeta.fromComponents(KDFAlgo.hkdfSha384(), r.bytes(16), r.bytes(16)), CryptoEngine.kdfFull(KDFAlgo.scrypt17(), pass, 32), a.ctx.cipherLocal(body), ECDHCipherContext.gen(ECCurve.p521(), Cipher.aes256Gcm()), a.pub.getRoot().fingerprint(), a.gen.getRootKeys().toStorageKeys(a.dev) };
        for (Object o : owned) {
            if (!r.chance(2, 3)) continue;
            Item root = w.put(o, null);
            // descend into it and keep only some of what is found on the way
            Object x = o;
            for (int depth = 0; depth < 5; depth++) {
                List<Method> g = new ArrayList<>();
                for (Method m : ops) if (m.getDeclaringClass() == x.getClass() && !Modifier.isStatic(m.getModifiers()) && m.getParameterCount() == 0 && m.getName().startsWith("get") && isWrapper(m.getReturnType())) g.add(m);
                if (g.isEmpty() || r.chance(1, 4)) break;
                Object y = call(r.pick(g), x);
                if (y == null) break;
                if (r.chance(2, 3)) { w.put(y, root); ev("views"); }
                x = y;
            }
            if (r.chance(1, 3)) w.pool.remove(root);
        }
        w.bytes.add(wire); w.bytes.add(body); w.bytes.add(pass); w.bytes.add(a.devId); w.bytes.add(a.ident);
        w.bytes.add(a.ctx.serialize()); w.bytes.add(a.gen.makeRecovery()); w.bytes.add(a.gen.exportRecoveryKeyPassphrase(pass)); w.bytes.add(a.ctx.exportPassphrase(pass)); w.bytes.add(p.serialize());
        w.bytes.add(a.kp.getEcKey().getPubData()); w.bytes.add(a.kp.getEcKey().getPriData()); w.bytes.add(a.pub.serialize());
    }
    // ------------------------------------------------------------------ every part of every object, after all the rest is gone
    interface Make { Object make() throws Exception; }
    static final class Leaf { Object o; String path, snap; Leaf(Object o, String p, String s) { this.o = o; path = p; snap = s; } }
    static void paths(Object o, List<Method> at, List<List<Method>> all, int depth) throws Exception {
        if (depth == 0) return;
        for (Method m : ops) {
            if (m.getDeclaringClass() != o.getClass() || Modifier.isStatic(m.getModifiers()) || m.getParameterCount() != 0 || !m.getName().startsWith("get") || !isWrapper(m.getReturnType())) continue;
            Object x = call(m, o);
            if (x == null) continue;
            List<Method> l = new ArrayList<>(at);
            l.add(m);
            all.add(l);
            paths(x, l, all, depth - 1);
        }
    }
    static void leaf(Make mk, String name, List<Method> p, boolean early, List<Leaf> leaves) throws Exception {
        Object x = mk.make();
        check(x != null, "refused:" + name, "an object could not be made again");
        StringBuilder d = new StringBuilder(name);
        for (Method m : p) { x = call(m, x); check(x != null, "refused:" + d + "." + m.getName(), "a part that was there is not there in an equal object"); d.append('.').append(m.getName()); }
        leaves.add(new Leaf(x, d.toString(), snap(x)));
        if (early) collect();
    }
    static void views(R r) throws Exception {
        Acct a = acct(r), b = acct(r);
        byte[] body = r.data(), pass = r.bytes(8);
        Payload p = payload(r, body, r.bytes(9), r.u64(), r.u64(), 7);
        byte[] pb = p.serialize(), nb = a.node.serialize(), cb = a.pub.serialize(), rb = a.gen.getRootKeys().serialize(), sb = a.ctx.getStorageKeys().serialize(), xb = b.ctx.serialize(), kb = WickrCrypto.wickrEphemeralKeypairSerialize(b.kp);
        CryptoEngine eng = WickrCrypto.wickrCryptoEngineGetDefault();
        byte[] wire = a.ctx.encodePacket(p, nodes(r, List.of(a, b))).getPacket().serialize();
        byte[] rec = a.gen.makeRecovery();
        CipherKey rk = a.gen.getRecoveryKey();
        byte[] kes = b.ctx.parsePacket(wire, a.pub).getParseResult().getKeyExchangeSet().serialize();
        byte[] idb = a.pub.getNode().serialize(), sig = b.kp.getSignature().serialize(), ct = p.cipher(rk).serialize(), kk = rk.serialize();
        ECKey bkey = b.kp.getEcKey();
        BigInteger u = r.u64(), u2 = r.u64();
        byte[] salt = r.bytes(16);
        Map<String, Make> mk = new LinkedHashMap<>();
        mk.put("Payload", () -> Payload.createFromBuffer(pb));
        mk.put("PacketMeta", () -> PacketMeta.fromValues(EphemeralInfo.fromValues(u, u2), salt, 3));
        mk.put("Node", () -> Node.fromBuffer(nb));
        mk.put("WickrArray", () -> { WickrArray w = WickrArray.allocateNode(1); w.setNode(0, Node.fromBuffer(nb)); return w.getNode(0); });
        mk.put("IdentityChain", () -> IdentityChain.fromBuffer(cb));
        mk.put("Identity", () -> Identity.fromBuffer(idb));
        mk.put("RootKeys", () -> RootKeys.fromBuffer(rb));
        mk.put("StorageKeys", () -> StorageKeys.createFromBuffer(sb));
        mk.put("Context", () -> Context.fromBuffer(b.dev, xb));
        mk.put("EphemeralKeypair", () -> WickrCrypto.wickrEphemeralKeypairCreateFromBuffer(kb, eng));
        mk.put("Packet", () -> Packet.createFromBuffer(wire));
        mk.put("EncoderResult", () -> EncoderResult.fromValues(CipherKey.fromBuffer(kk), Packet.createFromBuffer(wire)));
        mk.put("ContextParseResult", () -> b.ctx.parsePacket(wire, a.pub));
        mk.put("ContextParseResult(no decode)", () -> b.ctx.parsePacketNoDecode(wire, a.pub));
        mk.put("ContextDecodeResult", () -> b.ctx.decodePacket(b.ctx.parsePacket(wire, a.pub), bkey));
        mk.put("KeyExchangeSet", () -> KeyExchangeSet.fromBuffer(kes));
        mk.put("KeyExchange", () -> KeyExchange.fromValues(salt, u, CipherResult.fromBuffer(ct)));
        mk.put("ECDSAResult", () -> ECDSAResult.createFromBuffer(sig));
        mk.put("CipherResult", () -> CipherResult.fromBuffer(ct));
        mk.put("CipherKey", () -> CipherKey.fromBuffer(kk));
        mk.put("KDFMeta", () -> KDFMeta.fromComponents(KDFAlgo.hkdfSha384(), salt, body));
        mk.put("KDFResult", () -> CryptoEngine.kdfFull(KDFAlgo.hkdfSha256(), salt, 32));
        mk.put("ECDHCipherContext", () -> ECDHCipherContext.fromComponents(bkey, Cipher.aes256Gcm()));
        mk.put("ECKey", () -> CryptoEngine.importEcKey(bkey.getPubData(), false));
        mk.put("ContextGenResult", () -> ContextGenResult.genWithRecovery(a.dev, rec, rk, a.ident));
        List<Leaf> leaves = new ArrayList<>();
        for (Map.Entry<String, Make> e : mk.entrySet()) {
            List<List<Method>> all = new ArrayList<>();
            Object once = e.getValue().make();
            check(once != null, "refused:" + e.getKey(), "an object could not be made");
            paths(once, List.of(), all, e.getKey().equals("ContextGenResult") ? 2 : 5);
            once = null;
            for (List<Method> q : all) leaf(e.getValue(), e.getKey(), q, false, leaves);
        }
        ev("views_alone", leaves.size());
        collect(); collect();
        // what was released is used for other things
        List<Object> churn = new ArrayList<>();
        for (int i = 0; i < 200; i++) { churn.add(CryptoEngine.randomKey(Cipher.aes256Gcm())); CryptoEngine.randomBytes(16 + 8 * (i % 30)); }
        Collections.shuffle(leaves, r);
        while (!leaves.isEmpty()) {
            for (Leaf l : leaves) { check(snap(l.o).equals(l.snap), "changed-alone:" + l.path, "it changed when only it was left"); dist("alone " + l.path); }
            leaves.subList(0, (leaves.size() + 1) / 2).clear();
            collect();
        }
    }
    // ------------------------------------------------------------------ null arguments, one at a time
    static void nulls(R r) throws Exception {
        Walk w = new Walk(r);
        w.byValueNulls = true;
        seedPool(w, r);
        for (Method m : ops) for (int which = 0; which < m.getParameterCount(); which++) {
            Class<?>[] pt = m.getParameterTypes();
            if (pt[which].isPrimitive()) continue;
            if (!r.chance(1, 2)) continue;
            Object self = null;
            if (!Modifier.isStatic(m.getModifiers())) { self = w.val(m.getDeclaringClass(), ""); if (self == null) continue; }
            Object[] a = new Object[pt.length];
            for (int i = 0; i < a.length; i++) a[i] = i == which ? null : w.val(pt[i], m.getName());
            try { call(m, self, a); ev("null_calls"); }
            catch (NullPointerException e) { ev("null_exceptions"); }
            catch (RuntimeException e) { throw new Viol("exception:" + m.getDeclaringClass().getSimpleName() + "." + m.getName(), "null as argument " + which + ": " + e); }
            dist("null " + m.getDeclaringClass().getSimpleName() + "." + m.getName() + "#" + which);
        }
    }
    // ------------------------------------------------------------------ several threads over shared objects
    static void threads(R r) throws Exception {
        Acct s = acct(r), t = acct(r);
        int n = 4;
        Thread[] ts = new Thread[n];
        Viol[] bad = new Viol[n];
        Throwable[] err = new Throwable[n];
        for (int i = 0; i < n; i++) {
            final int me = i;
            final long seed = r.nextLong();
            ts[i] = new Thread(() -> {
                try {
                    R q = new R(seed);
                    for (int j = 0; j < 6; j++) {
                        byte[] body = q.data(), tag = q.bytes(8);
                        BigInteger ttl = q.u64(), bor = q.u64();
                        byte[] wire = (byte[]) encode(q, s, List.of(t), body, tag, ttl, bor, 5)[0];
                        ContextParseResult pr = t.ctx.parsePacket(wire, s.pub);
                        check(pr != null, "refused:threads", "a packet is refused");
                        ContextDecodeResult d = t.ctx.decodePacket(pr, t.kp.getEcKey());
                        check(d != null && d.getErr() == DecodeError.E_SUCCESS, "refused:threads-decode", "a message is refused");
                        checkPayload(d.getDecryptedPayload(), body, tag, ttl, bor, 5);
                        MessageDigest m = jdig(2);
                        eq(CryptoEngine.digest(body, null, Digest.sha512()), m.digest(body), "value:threads-digest", "digest");
                        ev("thread_messages");
                    }
                } catch (Viol v) { bad[me] = v; } catch (Throwable x) { err[me] = x; }
            });
            ts[i].start();
        }
        for (int i = 0; i < 5; i++) { collect(); Thread.sleep(2); }
        for (Thread x : ts) x.join();
        for (Viol v : bad) if (v != null) throw v;
        for (Throwable x : err) if (x != null) throw new Viol("exception:threads", "" + x);
    }

    public static String[] run(long seed, int k, boolean th) {
        out.clear(); events.clear(); dists.clear(); nevals = 0; thorough = th;
        R r = new R(seed);
        String what = "?";
        try {
            switch ((k + k / 16) % 16) {
                case 0: case 1: case 2: case 3: case 4: what = "walk"; walk(r); break;
                case 5: what = "views"; views(r); break;
                case 6: case 7: what = "messages"; messages(r); break;
                case 8: what = "digests"; digests(r); break;
                case 9: what = "ciphers"; ciphers(r); break;
                case 10: what = "curves"; curves(r); break;
                case 11: case 12: what = "accounts"; accounts(r); break;
                case 13: what = "serialized"; serialized(r); break;
                case 14: what = "nulls"; nulls(r); break;
                default: what = "threads"; threads(r);
            }
            ev("case_" + what);
        }
        catch (Viol v) { viol(v.key, v.getMessage()); }
        catch (Throwable t) { StringWriter s = new StringWriter(); t.printStackTrace(new PrintWriter(s)); String x = s.toString(); viol("exception:" + what, x.substring(0, Math.min(x.length(), 900))); }
        for (Map.Entry<String, Long> e : events.entrySet()) out.add("E " + e.getKey() + "|" + e.getValue());
        for (String d : dists) out.add("D " + d);
        out.add("N " + nevals);
        String[] o = out.toArray(new String[0]);
        out.clear(); events.clear(); dists.clear();
        return o;
    }
}
