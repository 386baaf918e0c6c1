PROPERTY='C30'
EDITS=[('swig/engine.i','return engine.wickr_crypto_engine_decrypt_file(key, sourceFilePath, destinationFilePath, only_auth_ciphers);','return engine.wickr_crypto_engine_decrypt_file(key, sourceFilePath, destinationFilePath, only_auth_ciphers && key && key->cipher.is_authenticated);')]
NEEDS='a file encrypted with the unauthenticated cipher, decrypted by a caller that asks for authenticated ciphers only'
BREAKS='CryptoEngine.decipherFile opens files that are not authenticated although only authenticated ciphers were asked for'
JAVA='''
import com.wickr.crypto.*;
import java.nio.file.*;
public class Demo {
    public static void main(String[] a) throws Exception {
        System.loadLibrary("WickrCrypto");
        Files.write(Paths.get("plain"), new byte[5000]);
        CipherKey ctr = CryptoEngine.randomKey(Cipher.aes256Ctr()), gcm = CryptoEngine.randomKey(Cipher.aes256Gcm());
        if (!CryptoEngine.cipherFile(ctr, "plain", "ctr") || !CryptoEngine.cipherFile(gcm, "plain", "gcm")) { System.out.println("FAILED: encrypting"); System.exit(1); }
        if (!CryptoEngine.decipherFile(gcm, "gcm", "o1", true) || !CryptoEngine.decipherFile(ctr, "ctr", "o2", false)) { System.out.println("FAILED: decrypting"); System.exit(1); }
        if (CryptoEngine.decipherFile(ctr, "ctr", "o3", true)) { System.out.println("FAILED: an unauthenticated file was accepted"); System.exit(1); }
        System.out.println("PASSED");
    }
}
'''
