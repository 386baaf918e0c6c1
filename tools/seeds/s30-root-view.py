PROPERTY='C30'
EDITS=[('swig/root_keys.i','%typemap(javaout) SWIGTYPE *node_signature_root, SWIGTYPE *node_storage_root, SWIGTYPE *remote_storage_root {','%typemap(javaout) SWIGTYPE *node_signature_root, SWIGTYPE *node_storage_root {')]
NEEDS='a key read from a set of root keys that is still used after the set itself was collected as garbage'
BREAKS='the remote storage root obtained from RootKeys no longer keeps the root keys alive: after a collection it reads released memory'
JAVA='''
import com.wickr.crypto.*;
import java.util.*;
public class Demo {
    static CipherKey key; static byte[] want;
    static void make() { RootKeys r = RootKeys.gen(); key = r.getRemoteStorageRoot(); want = key.getKeyData(); }
    @SuppressWarnings({"deprecation", "removal"})
    public static void main(String[] a) throws Exception {
        System.loadLibrary("WickrCrypto");
        for (int i = 0; i < 20; i++) {
            make();
            System.gc(); System.runFinalization(); System.gc(); System.runFinalization();
            for (int j = 0; j < 50; j++) CryptoEngine.randomBytes(48);
            byte[] got = key.getKeyData();
            if (!Arrays.equals(got, want)) { System.out.println("FAILED: the key changed"); System.exit(1); }
            CipherResult c = CryptoEngine.cipher(new byte[] { 1, 2, 3 }, null, key, null);
            if (c == null || !Arrays.equals(CryptoEngine.decipher(c, null, CipherKey.fromComponents(Cipher.aes256Gcm(), want), true), new byte[] { 1, 2, 3 })) { System.out.println("FAILED: the key is another"); System.exit(1); }
        }
        System.out.println("PASSED");
    }
}
'''
