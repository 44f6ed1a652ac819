package h;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import vm.Crypto;
import vm.Rlp;

/** A BTP message as the harness reads and writes it (its own codec). */
final class Msg {
    String src = "";
    String dst = "";
    String svc = "";
    BigInteger sn = BigInteger.ZERO;
    byte[] payload = new byte[0];
    BigInteger nsn = BigInteger.ZERO;
    String feeNet;
    List<BigInteger> fee;

    Msg() {}

    Msg(String src, String dst, String svc, BigInteger sn, byte[] payload, BigInteger nsn) {
        this.src = src;
        this.dst = dst;
        this.svc = svc;
        this.sn = sn;
        this.payload = payload;
        this.nsn = nsn;
    }

    Msg fee(String net, List<BigInteger> v) {
        feeNet = net;
        fee = v;
        return this;
    }

    Msg copy() {
        return new Msg(src, dst, svc, sn, payload, nsn).fee(feeNet, fee == null ? null : new ArrayList<>(fee));
    }

    byte[] bytes() {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(7);
        w.write(src);
        w.write(dst);
        w.write(svc);
        w.write(sn);
        w.write(payload);
        w.write(nsn);
        if (feeNet == null) {
            w.writeNull();
        } else {
            w.beginList(2);
            w.write(feeNet);
            w.beginList(fee.size());
            for (BigInteger v : fee) {
                w.write(v);
            }
            w.end();
            w.end();
        }
        w.end();
        return w.toByteArray();
    }

    static Msg of(byte[] b) {
        Rlp.Reader r = new Rlp.Reader(b);
        Msg m = new Msg();
        r.beginList();
        m.src = r.readString();
        m.dst = r.readString();
        m.svc = r.readString();
        m.sn = r.readBigInteger();
        m.payload = r.readByteArray();
        m.nsn = r.readBigInteger();
        if (r.beginNullableList()) {
            m.feeNet = r.readString();
            m.fee = new ArrayList<>();
            r.beginList();
            while (r.hasNext()) {
                m.fee.add(r.readBigInteger());
            }
            r.end();
            r.end();
        }
        r.end();
        return m;
    }

    /** What is passed on, without the fees. */
    String core() {
        String p = svc.equals("bmc") || sn.signum() < 0 ? internal(svc, sn, payload) : Crypto.hex(payload);
        return src + ">" + dst + "/" + svc + " sn" + sn + " nsn" + nsn + " " + p;
    }

    String fees() { return feeNet == null ? "none" : feeNet + fee; }

    @Override
    public String toString() { return core() + " " + fees(); }

    /** The content of internal messages and of errors; the text of an error does not matter. */
    static String internal(String svc, BigInteger sn, byte[] payload) {
        try {
            Rlp.Reader r = new Rlp.Reader(payload);
            r.beginList();
            if (sn.signum() < 0) {
                return "error" + r.readLong();
            }
            String t = r.readString();
            byte[] b = r.readByteArray();
            Rlp.Reader s = new Rlp.Reader(b);
            s.beginList();
            switch (t) {
                case "Init":
                    s.beginList();
                    List<String> l = new ArrayList<>();
                    while (s.hasNext()) {
                        l.add(s.readString());
                    }
                    l.sort(null);
                    return t + l;
                case "Link":
                case "Unlink":
                    return t + s.readString();
                case "Claim":
                    return t + s.readBigInteger() + "/" + s.readString();
                case "Response":
                    return t + s.readLong();
                default:
                    return t;
            }
        } catch (RuntimeException e) {
            return "raw" + Crypto.hex(payload);
        }
    }

    static byte[] errorBytes(long code, String m) {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(2);
        w.write(code);
        w.write(m);
        w.end();
        return w.toByteArray();
    }

    static byte[] bmc(String type, byte[] inner) {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(2);
        w.write(type);
        w.write(inner);
        w.end();
        return w.toByteArray();
    }

    static byte[] init(List<String> links) {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(1);
        w.beginList(links.size());
        for (String l : links) {
            w.write(l);
        }
        w.end();
        w.end();
        return bmc("Init", w.toByteArray());
    }

    static byte[] link(String type, String l) {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(1);
        w.write(l);
        w.end();
        return bmc(type, w.toByteArray());
    }

    static byte[] claim(BigInteger v, String to) {
        Rlp.Writer w = new Rlp.Writer();
        w.beginList(2);
        w.write(v);
        w.write(to);
        w.end();
        return bmc("Claim", w.toByteArray());
    }

    static byte[] response(long code) { return bmc("Response", errorBytes(code, "")); }

    static BigInteger sum(List<BigInteger> l) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger v : l) {
            s = s.add(v);
        }
        return s;
    }

    static List<BigInteger> list(BigInteger... v) { return new ArrayList<>(Arrays.asList(v)); }
}
