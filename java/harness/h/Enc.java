package h;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import vm.Crypto;
import vm.Rlp;

/** Encodings and texts, written without the code they are compared with. */
public final class Enc {
    private Enc() { }

    static byte[] bytes(byte[] b) {
        if (b == null) {
            return new byte[] {(byte) 0xf8, 0};
        }
        if (b.length == 1 && b[0] >= 0) {
            return b;
        }
        return cat(Rlp.head(0x80, b.length), b);
    }

    static byte[] num(long v) { return bytes(BigInteger.valueOf(v).toByteArray()); }

    static byte[] num(BigInteger v) { return bytes(v.toByteArray()); }

    static byte[] list(byte[]... l) {
        byte[] b = cat(l);
        return cat(Rlp.head(0xc0, b.length), b);
    }

    static byte[] list(List<byte[]> l) { return list(l.toArray(new byte[0][])); }

    static byte[] cat(byte[]... l) {
        int n = 0;
        for (byte[] b : l) {
            n += b.length;
        }
        byte[] r = new byte[n];
        n = 0;
        for (byte[] b : l) {
            System.arraycopy(b, 0, r, n, b.length);
            n += b.length;
        }
        return r;
    }

    static String show(Object o) {
        if (o instanceof byte[]) {
            return Crypto.hex((byte[]) o);
        }
        if (o instanceof Object[]) {
            List<String> l = new ArrayList<>();
            for (Object x : (Object[]) o) {
                l.add(show(x));
            }
            return l.toString();
        }
        return String.valueOf(o);
    }
}
