PROPERTY='C30'
EDITS=[('swig/node.i','    return (wickr_node_t *)wickr_array_fetch_item($self, index, true);','    return (wickr_node_t *)wickr_array_fetch_item($self, index, false);')]
NEEDS='a node read from an array, collected as garbage while the array is used further'
BREAKS='WickrArray.getNode hands out the node the array owns, as an owned object: it is destroyed when that object is collected and again with the array'
JAVA='''
import com.wickr.crypto.*;
import java.math.BigInteger;
import java.util.*;
public class Demo {
    static WickrArray arr; static byte[] want;
    static void make() {
        DeviceInfo d = DeviceInfo.gen(new byte[] { 1, 2, 3 });
        Context c = ContextGenResult.genNew(d, new byte[] { 9, 9 }).getCtx();
        Node n = Node.fromValues(d.getMsgProtoId(), c.getIdChain(), c.ephemeralKeypairGen(BigInteger.ONE));
        arr = WickrArray.allocateNode(1);
        arr.setNode(0, n);
        want = d.getMsgProtoId();
    }
    static byte[] read() { return arr.getNode(0).getDevId(); }
    @SuppressWarnings({"deprecation", "removal"})
    public static void main(String[] a) throws Exception {
        System.loadLibrary("WickrCrypto");
        for (int i = 0; i < 10; i++) {
            make();
            for (int j = 0; j < 3; j++) {
                if (!Arrays.equals(read(), want)) { System.out.println("FAILED: the array's node changed"); System.exit(1); }
                System.gc(); System.runFinalization(); System.gc(); System.runFinalization();
            }
            arr = null;
            System.gc(); System.runFinalization();
        }
        System.out.println("PASSED");
    }
}
'''
