package verif;

import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;

/** keccak-256 and secp256k1 key recovery, which the JDK lacks. */
public class Sha {
    private static final long[] RC = {
        1L, 0x8082L, 0x800000000000808aL, 0x8000000080008000L, 0x808bL, 0x80000001L, 0x8000000080008081L,
        0x8000000000008009L, 0x8aL, 0x88L, 0x80008009L, 0x8000000aL, 0x8000808bL, 0x800000000000008bL,
        0x8000000000008089L, 0x8000000000008003L, 0x8000000000008002L, 0x8000000000000080L, 0x800aL,
        0x800000008000000aL, 0x8000000080008081L, 0x8000000000008080L, 0x80000001L, 0x8000000080008008L};
    private static final int[] ROT = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
    private static final int[] PIL = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};

    private static void f(long[] s) {
        long[] c = new long[5];
        for (int r = 0; r < 24; r++) {
            for (int i = 0; i < 5; i++) c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
            for (int i = 0; i < 5; i++) {
                long t = c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
                for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
            }
            long t = s[1];
            for (int i = 0; i < 24; i++) {
                int j = PIL[i];
                long b = s[j];
                s[j] = Long.rotateLeft(t, ROT[i]);
                t = b;
            }
            for (int j = 0; j < 25; j += 5) {
                System.arraycopy(s, j, c, 0, 5);
                for (int i = 0; i < 5; i++) s[j + i] = c[i] ^ (~c[(i + 1) % 5] & c[(i + 2) % 5]);
            }
            s[0] ^= RC[r];
        }
    }

    public static byte[] keccak256(byte[] in) {
        int rate = 136;
        long[] s = new long[25];
        byte[] p = Arrays.copyOf(in, (in.length / rate + 1) * rate);
        p[in.length] ^= 1;
        p[p.length - 1] ^= (byte) 0x80;
        for (int o = 0; o < p.length; o += rate) {
            for (int i = 0; i < rate; i++) s[i / 8] ^= (p[o + i] & 0xffL) << 8 * (i % 8);
            f(s);
        }
        byte[] out = new byte[32];
        for (int i = 0; i < 32; i++) out[i] = (byte) (s[i / 8] >>> 8 * (i % 8));
        return out;
    }

    public static byte[] hash(String alg, byte[] in) {
        try {
            switch (alg) {
                case "keccak-256": return keccak256(in);
                case "sha3-256": return MessageDigest.getInstance("SHA3-256").digest(in);
                case "sha-256": return MessageDigest.getInstance("SHA-256").digest(in);
                default: throw new IllegalArgumentException("unsupported algorithm " + alg);
            }
        } catch (java.security.NoSuchAlgorithmException e) {
            throw new RuntimeException(e);
        }
    }

    static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
    static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
    static final BigInteger GX = new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16);
    static final BigInteger GY = new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16);

    // Jacobian coordinates, null is the point at infinity
    private static BigInteger[] dbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger y2 = p[1].multiply(p[1]).mod(P);
        BigInteger s = p[0].multiply(y2).shiftLeft(2).mod(P);
        BigInteger m = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P);
        return new BigInteger[]{x, y, p[1].multiply(p[2]).shiftLeft(1).mod(P)};
    }

    private static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
        BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : null;
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        BigInteger h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
        return new BigInteger[]{x, y, h.multiply(p[2]).multiply(q[2]).mod(P)};
    }

    private static BigInteger[] mul(BigInteger[] p, BigInteger k) {
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = dbl(r);
            if (k.testBit(i)) r = add(r, p);
        }
        return r;
    }

    private static final Map<String, byte[]> memo = new HashMap<>();

    public static byte[] recover(byte[] msg, byte[] sig, boolean compressed) {
        if (msg.length != 32 || sig.length != 65) throw new IllegalArgumentException("bad length");
        String key = new BigInteger(1, msg).toString(36) + "/" + new BigInteger(1, sig).toString(36) + sig[0] + compressed;
        byte[] r = memo.get(key);
        if (r == null) {
            r = recover0(msg, sig, compressed);
            if (memo.size() > 10000) memo.clear();
            memo.put(key, r);
        }
        return r.clone();
    }

    private static byte[] recover0(byte[] msg, byte[] sig, boolean compressed) {
        BigInteger r = new BigInteger(1, Arrays.copyOfRange(sig, 0, 32)), s = new BigInteger(1, Arrays.copyOfRange(sig, 32, 64));
        int v = sig[64];
        if (r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0 || v < 0 || v > 3)
            throw new IllegalArgumentException("invalid signature");
        BigInteger x = v >= 2 ? r.add(N) : r;
        if (x.compareTo(P) >= 0) throw new IllegalArgumentException("invalid signature");
        BigInteger y2 = x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(7)).mod(P);
        BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(y2)) throw new IllegalArgumentException("invalid signature");
        if (y.testBit(0) != ((v & 1) == 1)) y = P.subtract(y);
        BigInteger ri = r.modInverse(N), e = new BigInteger(1, msg);
        BigInteger[] q = add(mul(new BigInteger[]{x, y, BigInteger.ONE}, s.multiply(ri).mod(N)),
                mul(new BigInteger[]{GX, GY, BigInteger.ONE}, e.negate().multiply(ri).mod(N)));
        if (q == null) throw new IllegalArgumentException("invalid signature");
        BigInteger zi = q[2].modInverse(P), zi2 = zi.multiply(zi).mod(P);
        byte[] px = fix(q[0].multiply(zi2).mod(P)), py = fix(q[1].multiply(zi2).multiply(zi).mod(P));
        byte[] out = new byte[compressed ? 33 : 65];
        out[0] = compressed ? (byte) (2 + (py[31] & 1)) : 4;
        System.arraycopy(px, 0, out, 1, 32);
        if (!compressed) System.arraycopy(py, 0, out, 33, 32);
        return out;
    }

    private static byte[] fix(BigInteger v) {
        byte[] b = v.toByteArray(), out = new byte[32];
        int n = Math.min(32, b.length);
        System.arraycopy(b, b.length - n, out, 32 - n, n);
        return out;
    }

    public static byte[] addressOf(byte[] pub) {
        byte[] p = pub;
        if (pub.length == 33) {
            BigInteger x = new BigInteger(1, Arrays.copyOfRange(pub, 1, 33));
            BigInteger y2 = x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(7)).mod(P);
            BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
            if (y.testBit(0) != ((pub[0] & 1) == 1)) y = P.subtract(y);
            p = new byte[65];
            System.arraycopy(pub, 1, p, 1, 32);
            System.arraycopy(fix(y), 0, p, 33, 32);
        }
        byte[] h = hash("sha3-256", Arrays.copyOfRange(p, 1, 65));
        byte[] out = new byte[21];
        System.arraycopy(h, 12, out, 1, 20);
        return out;
    }
}
