package verif;

import score.*;
import java.math.BigInteger;

public class Rt2 {
    public static long tx() { return Rt.txcount; }
    public static long time() { return Rt.timestamp; }
    public static long height() { return Rt.height; }
    public static Address owner() { return Rt.owners.get(Rt.cur().addr); }
    public static BigInteger balance(Address a) { return Rt.balances.getOrDefault(a, BigInteger.ZERO); }
    public static void println(String s) { if (Rt.verbose) System.err.println(s); }
    @SuppressWarnings("unchecked")
    public static <K, V> Rt.DB<K, V> db(String kind, String id, Class<V> c) { return new Rt.DB<K, V>("/" + kind + Rt.part(id), c, true); }
    @SuppressWarnings("unchecked")
    public static <K, V> BranchDB<K, V> branch(String id, Class<?> c) { return (BranchDB<K, V>) (Object) new Rt.DB<K, Object>("/B" + Rt.part(id), (Class<Object>) c, true); }
}
