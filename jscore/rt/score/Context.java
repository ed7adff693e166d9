package score;

import verif.*;
import java.math.BigInteger;
import java.util.Arrays;

public final class Context {
    private Context() {}
    public static byte[] getTransactionHash() { return Sha.keccak256(("tx" + Rt2.tx()).getBytes()); }
    public static int getTransactionIndex() { return 0; }
    public static long getTransactionTimestamp() { return Rt2.time(); }
    public static BigInteger getTransactionNonce() { return BigInteger.ZERO; }
    public static Address getAddress() { return Rt.cur().addr; }
    public static Address getCaller() { return Rt.cur().caller; }
    public static Address getOrigin() { return Rt.cur().origin; }
    public static Address getOwner() { return Rt2.owner(); }
    public static BigInteger getValue() { return Rt.cur().value; }
    public static long getBlockTimestamp() { return Rt2.time(); }
    public static long getBlockHeight() { return Rt2.height(); }
    public static BigInteger getBalance(Address a) { return Rt2.balance(a); }
    public static <T> T call(Class<T> c, BigInteger value, Address to, String method, Object... params) { return Rt.call(c, value, to, method, params); }
    public static <T> T call(Class<T> c, Address to, String method, Object... params) { return Rt.call(c, BigInteger.ZERO, to, method, params); }
    public static Object call(BigInteger value, Address to, String method, Object... params) { return Rt.call(Object.class, value, to, method, params); }
    public static Object call(Address to, String method, Object... params) { return Rt.call(Object.class, BigInteger.ZERO, to, method, params); }
    public static void transfer(Address to, BigInteger value) { Rt.call(Object.class, value, to, "fallback"); }
    public static Address deploy(byte[] content, Object... params) { throw new UnsupportedOperationException(); }
    public static void revert(int code, String message) { throw new Rt.Reverted(code, message); }
    public static void revert(int code) { throw new Rt.Reverted(code, ""); }
    public static void revert(String message) { throw new Rt.Reverted(0, message); }
    public static void revert() { throw new Rt.Reverted(0, ""); }
    public static void require(boolean c) { if (!c) throw new Rt.Reverted(0, "Reverted(0)"); }
    public static void require(boolean c, String msg) { if (!c) throw new Rt.Reverted(0, msg); }
    public static void println(String msg) { Rt2.println(msg); }
    public static byte[] hash(String alg, byte[] msg) { return Sha.hash(alg, msg); }
    public static boolean verifySignature(String alg, byte[] msg, byte[] sig, byte[] pub) {
        if (!alg.equals("ecdsa-secp256k1")) throw new IllegalArgumentException("unsupported " + alg);
        if (sig.length != 65) return false;
        try {
            return Arrays.equals(Sha.recover(msg, sig, pub.length == 33), pub);
        } catch (IllegalArgumentException e) {
            return false;
        }
    }
    public static byte[] recoverKey(String alg, byte[] msg, byte[] sig, boolean compressed) {
        if (!alg.equals("ecdsa-secp256k1")) throw new IllegalArgumentException("unsupported " + alg);
        return Sha.recover(msg, sig, compressed);
    }
    public static Address getAddressFromKey(byte[] pub) { return new Address(Sha.addressOf(pub)); }
    public static <K, V> BranchDB<K, V> newBranchDB(String id, Class<?> leaf) { return Rt2.branch(id, leaf); }
    public static <K, V> DictDB<K, V> newDictDB(String id, Class<V> c) { return Rt2.db("D", id, c); }
    public static <V> ArrayDB<V> newArrayDB(String id, Class<V> c) { return Rt2.db("A", id, c); }
    public static <V> VarDB<V> newVarDB(String id, Class<V> c) { return Rt2.db("V", id, c); }
    public static void logEvent(Object[] indexed, Object[] data) {
        Object[] all = new Object[indexed.length - 1 + data.length];
        System.arraycopy(indexed, 1, all, 0, indexed.length - 1);
        System.arraycopy(data, 0, all, indexed.length - 1, data.length);
        Rt.event(String.valueOf(indexed[0]), all, indexed.length - 1);
    }
    public static ObjectReader newByteArrayObjectReader(String codec, byte[] b) {
        if (!codec.equals("RLPn") && !codec.equals("RLP")) throw new IllegalArgumentException("codec " + codec);
        return new Rlp.Reader(b);
    }
    public static ByteArrayObjectWriter newByteArrayObjectWriter(String codec) {
        if (!codec.equals("RLPn") && !codec.equals("RLP")) throw new IllegalArgumentException("codec " + codec);
        return new Rlp.Writer();
    }
}
