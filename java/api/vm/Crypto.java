package vm;

import java.math.BigInteger;
import java.security.MessageDigest;
import java.security.NoSuchAlgorithmException;
import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;
import score.Address;

/** Hashes and secp256k1, for the platform and for the oracles. */
public final class Crypto {
    private Crypto() {}

    public static String hex(byte[] b) {
        StringBuilder sb = new StringBuilder();
        for (byte x : b) {
            sb.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        }
        return sb.toString();
    }

    public static byte[] unhex(String s) {
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) {
            r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        }
        return r;
    }

    public static byte[] hash(String alg, byte[] msg) {
        try {
            switch (alg) {
                case "sha-256":
                    return MessageDigest.getInstance("SHA-256").digest(msg);
                case "sha3-256":
                    return MessageDigest.getInstance("SHA3-256").digest(msg);
                case "keccak-256":
                    return keccak(msg);
                default:
                    throw new IllegalArgumentException("hash " + alg);
            }
        } catch (NoSuchAlgorithmException e) {
            throw new IllegalStateException(e);
        }
    }

    private static final long[] RC = new long[24];
    private static final int[] ROT = new int[25];

    static {
        int lfsr = 1;
        for (int i = 0; i < 24; i++) {
            for (int j = 0; j < 7; j++) {
                if ((lfsr & 1) != 0) {
                    RC[i] ^= 1L << ((1 << j) - 1);
                }
                lfsr = (lfsr << 1) ^ ((lfsr & 0x80) != 0 ? 0x171 : 0);
            }
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
    }

    public static byte[] keccak(byte[] in) {
        int rate = 136;
        byte[] p = Arrays.copyOf(in, (in.length / rate + 1) * rate);
        p[in.length] ^= 1;
        p[p.length - 1] ^= (byte) 0x80;
        long[] a = new long[25];
        long[] b = new long[25], c = new long[5], d = new long[5];
        for (int o = 0; o < p.length; o += rate) {
            for (int i = 0; i < rate; i++) {
                a[i / 8] ^= (p[o + i] & 0xffL) << (8 * (i % 8));
            }
            for (int r = 0; r < 24; r++) {
                for (int x = 0; x < 5; x++) {
                    c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
                }
                for (int x = 0; x < 5; x++) {
                    d[x] = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                }
                for (int x = 0; x < 5; x++) {
                    for (int y = 0; y < 5; y++) {
                        b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y] ^ d[x], ROT[x + 5 * y]);
                    }
                }
                for (int x = 0; x < 5; x++) {
                    for (int y = 0; y < 5; y++) {
                        a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
                    }
                }
                a[0] ^= RC[r];
            }
        }
        byte[] out = new byte[32];
        for (int i = 0; i < 32; i++) {
            out[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
        }
        return out;
    }

    static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
    public static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
    static final BigInteger[] G = {
        new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16),
        new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16), BigInteger.ONE};

    // Jacobian coordinates; null is the point at infinity
    static BigInteger[] dbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) {
            return null;
        }
        BigInteger y2 = p[1].multiply(p[1]).mod(P);
        BigInteger s = p[0].multiply(y2).shiftLeft(2).mod(P);
        BigInteger m = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P);
        return new BigInteger[] {x, y, p[1].multiply(p[2]).shiftLeft(1).mod(P)};
    }

    static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        if (p == null) {
            return q;
        }
        if (q == null) {
            return p;
        }
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
        BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
        if (u1.equals(u2)) {
            return s1.equals(s2) ? dbl(p) : null;
        }
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        BigInteger h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
        return new BigInteger[] {x, y, h.multiply(p[2]).multiply(q[2]).mod(P)};
    }

    static BigInteger[] mul(BigInteger[] p, BigInteger k) {
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = dbl(r);
            if (k.testBit(i)) {
                r = add(r, p);
            }
        }
        return r;
    }

    static BigInteger[] affine(BigInteger[] p) {
        BigInteger zi = p[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
        return new BigInteger[] {p[0].multiply(z2).mod(P), p[1].multiply(z2).multiply(zi).mod(P)};
    }

    static byte[] be32(BigInteger v) {
        byte[] b = v.toByteArray();
        byte[] r = new byte[32];
        int n = Math.min(32, b.length);
        System.arraycopy(b, b.length - n, r, 32 - n, n);
        return r;
    }

    static byte[] encode(BigInteger[] q, boolean compressed) {
        byte[] x = be32(q[0]), y = be32(q[1]);
        byte[] r = new byte[compressed ? 33 : 65];
        r[0] = (byte) (compressed ? (q[1].testBit(0) ? 3 : 2) : 4);
        System.arraycopy(x, 0, r, 1, 32);
        if (!compressed) {
            System.arraycopy(y, 0, r, 33, 32);
        }
        return r;
    }

    private static final Map<BigInteger, BigInteger[]> POINTS = new HashMap<>();
    // signatures made here, with the key they were made with: recovering it is what the curve says (checked for the first ones)
    private static final Map<String, BigInteger> SIGNED = new HashMap<>();
    private static int checked;

    private static BigInteger[] point(BigInteger d) { return POINTS.computeIfAbsent(d, x -> affine(mul(G, x))); }

    public static byte[] publicKey(BigInteger d, boolean compressed) { return encode(point(d), compressed); }

    public static byte[] recoverKey(String alg, byte[] msg, byte[] sig, boolean compressed) {
        BigInteger d = "ecdsa-secp256k1".equals(alg) ? SIGNED.get(hex(msg) + hex(sig)) : null;
        if (d == null) {
            return recover(alg, msg, sig, compressed);
        }
        byte[] k = publicKey(d, compressed);
        if (checked < 20) {
            checked++;
            if (!Arrays.equals(k, recover(alg, msg, sig, compressed))) {
                throw new Error("harness: recovered key");
            }
        }
        return k;
    }

    private static byte[] recover(String alg, byte[] msg, byte[] sig, boolean compressed) {
        if (!"ecdsa-secp256k1".equals(alg) || msg.length != 32 || sig.length != 65) {
            throw new IllegalArgumentException("recoverKey");
        }
        BigInteger r = new BigInteger(1, Arrays.copyOfRange(sig, 0, 32));
        BigInteger s = new BigInteger(1, Arrays.copyOfRange(sig, 32, 64));
        int v = sig[64];
        if (v < 0 || v > 3 || r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0) {
            throw new IllegalArgumentException("signature");
        }
        BigInteger x = v >= 2 ? r.add(N) : r;
        if (x.compareTo(P) >= 0) {
            throw new IllegalArgumentException("signature");
        }
        BigInteger y2 = x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(7)).mod(P);
        BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(y2)) {
            throw new IllegalArgumentException("signature");
        }
        if (y.testBit(0) != ((v & 1) == 1)) {
            y = P.subtract(y);
        }
        BigInteger ri = r.modInverse(N);
        BigInteger e = new BigInteger(1, msg);
        BigInteger[] q = add(mul(G, e.negate().multiply(ri).mod(N)), mul(new BigInteger[] {x, y, BigInteger.ONE}, s.multiply(ri).mod(N)));
        if (q == null) {
            throw new IllegalArgumentException("signature");
        }
        return encode(affine(q), compressed);
    }

    public static byte[] sign(BigInteger d, byte[] msg, BigInteger k) {
        BigInteger[] p = point(k);
        BigInteger r = p[0].mod(N);
        BigInteger s = k.modInverse(N).multiply(new BigInteger(1, msg).add(r.multiply(d))).mod(N);
        int v = (p[1].testBit(0) ? 1 : 0) | (p[0].compareTo(N) >= 0 ? 2 : 0);
        if (s.compareTo(N.shiftRight(1)) > 0) {
            s = N.subtract(s);
            v ^= 1;
        }
        byte[] sig = new byte[65];
        System.arraycopy(be32(r), 0, sig, 0, 32);
        System.arraycopy(be32(s), 0, sig, 32, 32);
        sig[64] = (byte) v;
        SIGNED.put(hex(msg) + hex(sig), d);
        return sig;
    }

    public static byte[] ethAddress(BigInteger d) {
        byte[] pub = publicKey(d, false);
        return Arrays.copyOfRange(keccak(Arrays.copyOfRange(pub, 1, 65)), 12, 32);
    }

    public static Address addressOf(byte[] key) {
        if (key.length == 33) { // compressed
            BigInteger x = new BigInteger(1, Arrays.copyOfRange(key, 1, 33));
            BigInteger y = x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(7)).modPow(P.add(BigInteger.ONE).shiftRight(2), P);
            if (y.testBit(0) != (key[0] == 3)) {
                y = P.subtract(y);
            }
            key = encode(new BigInteger[] {x, y}, false);
        }
        byte[] h = hash("sha3-256", Arrays.copyOfRange(key, 1, 65));
        byte[] raw = new byte[21];
        System.arraycopy(h, 12, raw, 1, 20);
        return new Address(raw);
    }
}
