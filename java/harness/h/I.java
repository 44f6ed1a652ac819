package h;

import static h.Enc.bytes;
import static h.Enc.cat;
import static h.Enc.list;
import static h.Enc.num;

import foundation.icon.btp.bmv.icon.BTPMessageVerifier;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import score.Address;
import score.RevertedException;
import score.UserRevertedException;
import vm.Chain;
import vm.Crypto;
import vm.Rlp;

/**
 * The verifier of ICON blocks: a source chain with validators, votes, receipts and events that is
 * made here, relay messages of it (genuine ones in every cut, and forged ones), and a model of
 * what the verifier answers.
 */
public final class I {
    static final BigInteger O = BigInteger.ZERO;
    static final int HIGHER = 33, LOWER = 34, PROOFHIGHER = 35, OLD = 36, SEQHIGHER = 32, SEQLOWER = 28;

    public static void run(Mon m) {
        statics();
        m.group("relay", m.n(150, 3000), k -> relay(k, 14, 5));
        m.group("long", m.n(4, 60), k -> relay(k, 120, 1));
        m.group("quorum", m.n(30, 400), I::quorum);
        m.group("tries", m.n(40, 600), I::tries);
    }

    // ---- objects kept in static fields: on the platform, part of each contract's own state

    static final Map<Field, Map<Field, Object>> STATICS = new LinkedHashMap<>();

    static void statics() {
        try {
            Class<?> c = Class.forName("foundation.icon.btp.bmv.icon.BMVProperties");
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) && f.getType() == c) {
                    f.setAccessible(true);
                    Map<Field, Object> m = new LinkedHashMap<>();
                    for (Field g : c.getDeclaredFields()) {
                        if (!Modifier.isStatic(g.getModifiers()) && !Modifier.isFinal(g.getModifiers())) {
                            g.setAccessible(true);
                            m.put(g, g.get(f.get(null)));
                        }
                    }
                    STATICS.put(f, m);
                }
            }
        } catch (ReflectiveOperationException | RuntimeException e) {
            // none
        }
    }

    static void restore() {
        try {
            for (Map.Entry<Field, Map<Field, Object>> e : STATICS.entrySet()) {
                for (Map.Entry<Field, Object> g : e.getValue().entrySet()) {
                    g.getKey().set(e.getKey().get(null), g.getValue());
                }
            }
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    // ---- keys

    static byte[] H(byte[]... b) { return Crypto.hash("sha3-256", cat(b)); }

    static final Map<String, byte[]> SIGS = new HashMap<>();
    static final List<BigInteger> KEYS = new ArrayList<>();
    static final Map<BigInteger, Address> ADDRS = new HashMap<>();

    static {
        for (int i = 0; i < 24; i++) {
            BigInteger d = new BigInteger(1, Crypto.keccak(("icon key" + i).getBytes())).mod(Crypto.N);
            KEYS.add(d);
            ADDRS.put(d, Crypto.addressOf(Crypto.publicKey(d, false)));
        }
    }

    static byte[] sign(BigInteger key, byte[] hash) {
        return SIGS.computeIfAbsent(key.toString(36) + Crypto.hex(hash),
                s -> Crypto.sign(key, hash, new BigInteger(1, Crypto.keccak(new byte[] {(byte) (hash[0] & 15)})).mod(Crypto.N)));
    }

    static byte[] validators(List<BigInteger> keys) {
        List<byte[]> l = new ArrayList<>();
        for (BigInteger d : keys) {
            l.add(bytes(ADDRS.get(d).toByteArray()));
        }
        return list(l);
    }

    // ---- tries

    /** A trie over the positions of a list: its root and the nodes from there to a position. */
    static final class Trie {
        final List<byte[]> values;
        byte[] root;
        final List<List<byte[]>> paths = new ArrayList<>();

        Trie(List<byte[]> values) {
            this.values = values;
            List<int[]> keys = new ArrayList<>();
            List<Integer> at = new ArrayList<>();
            for (int i = 0; i < values.size(); i++) {
                byte[] b = num(i);
                int[] n = new int[b.length * 2];
                for (int j = 0; j < b.length; j++) {
                    n[2 * j] = b[j] >> 4 & 15;
                    n[2 * j + 1] = b[j] & 15;
                }
                keys.add(n);
                at.add(i);
                paths.add(new ArrayList<>());
            }
            root = values.isEmpty() ? null : H(node(keys, at, 0));
        }

        private static byte[] header(int[] key, int from, int to, boolean leaf) {
            int n = to - from;
            byte[] b = new byte[n / 2 + 1];
            b[0] = (byte) ((leaf ? 0x20 : 0) | (n % 2 == 1 ? 0x10 | key[from++] : 0));
            for (int i = 1; from < to; from += 2) {
                b[i++] = (byte) (key[from] << 4 | key[from + 1]);
            }
            return b;
        }

        private byte[] node(List<int[]> keys, List<Integer> at, int depth) {
            int[] first = keys.get(at.get(0));
            byte[] b;
            if (at.size() == 1) {
                b = list(bytes(header(first, depth, first.length, true)), bytes(values.get(at.get(0))));
            } else {
                int d = depth;
                while (same(keys, at, d)) {
                    d++;
                }
                if (d > depth) {
                    byte[] child = node(keys, at, d);
                    b = list(bytes(header(first, depth, d, false)), bytes(H(child)));
                } else {
                    List<byte[]> l = new ArrayList<>();
                    for (int i = 0; i < 16; i++) {
                        List<Integer> sub = new ArrayList<>();
                        for (int x : at) {
                            if (keys.get(x)[depth] == i) {
                                sub.add(x);
                            }
                        }
                        l.add(bytes(sub.isEmpty() ? new byte[0] : H(node(keys, sub, depth + 1))));
                    }
                    l.add(bytes(new byte[0]));
                    b = list(l);
                }
            }
            for (int x : at) {
                paths.get(x).add(0, b);
            }
            return b;
        }

        private static boolean same(List<int[]> keys, List<Integer> at, int d) {
            for (int x : at) {
                if (keys.get(x)[d] != keys.get(at.get(0))[d]) {
                    return false;
                }
            }
            return true;
        }
    }

    static byte[] proofs(List<byte[]> nodes) {
        List<byte[]> l = new ArrayList<>();
        for (byte[] n : nodes) {
            l.add(bytes(n));
        }
        return bytes(list(l));
    }

    // ---- the source chain

    static final class Ev {
        byte[] raw;
        BigInteger seq; // of a message for the verifier's centre
        byte[] msg;
    }

    static final class Rcpt {
        List<Ev> events = new ArrayList<>();
        boolean hashed; // the events are in a trie of their own
        Trie trie;
        byte[] raw;
    }

    static final class Block {
        long height;
        List<BigInteger> signers, next;
        List<Rcpt> receipts = new ArrayList<>();
        Trie trie;
        byte[][] fields;
        byte[] header, hash;
        BigInteger first; // sequence number of its first message
        int msgs;
    }

    static byte[] header(byte[][] fields) { return list(fields); }

    static final class Src {
        final Mon.Case k;
        final String net, here;
        final Address bmc, other;
        final long start;
        final int max;
        List<Block> blocks = new ArrayList<>();
        List<BigInteger> validators;
        BigInteger seq = O;
        int serial;

        Src(Mon.Case k, int max, String here) {
            this.k = k;
            this.max = max;
            this.here = here;
            net = "0x" + (1 + k.pick(9)) + ".icon";
            Chain c = new Chain(net);
            bmc = c.newAddress(true);
            other = c.newAddress(true);
            start = 1 + k.of(0, 1, 5, 127, 1000, 65535) + k.pick(10);
            seq = k.chance(30) ? BigInteger.valueOf(k.of(126L, 254L, 1000000L, (1L << 31) - 2, (1L << 32) - 2, Long.MAX_VALUE - 1)) : O;
            validators = choose();
        }

        String there() { return "btp://" + net + "/" + bmc; }

        List<BigInteger> choose() {
            List<BigInteger> l = new ArrayList<>(KEYS);
            Collections.shuffle(l, k.r);
            return new ArrayList<>(l.subList(0, 1 + k.pick(max)));
        }

        Ev event(int kind) {
            Ev e = new Ev();
            byte[] msg = new byte[k.of(0, 1, 1, 20, 55, 56, 300)];
            k.r.nextBytes(msg);
            serial++;
            Address a = kind == 1 ? other : bmc;
            String sig = kind == 2 ? k.of("MessageDropped(str,int,bytes)", "Drop(str,int,bytes)", "message(str,int,bytes)", "Messages()") : "Message(str,int,bytes)";
            String next = kind == 3 ? k.of(here + "0", here.substring(0, here.length() - 1), "btp://0xf.icon/" + bmc, "") : here;
            BigInteger s = seq.add(BigInteger.valueOf(k.of(0, 1, 1, 2, -1)));
            if (kind == 0) {
                seq = seq.add(BigInteger.ONE);
                s = seq;
                e.seq = s;
                e.msg = msg;
            }
            if (kind == 4) { // of another contract, with values that are missing
                a = other;
                e.raw = list(bytes(a.toByteArray()), list(bytes("Other(str,int)".getBytes()), bytes(null)), list(bytes(null), bytes(msg)));
            } else {
                e.raw = list(bytes(a.toByteArray()), list(bytes(sig.getBytes()), bytes(next.getBytes()), num(s)), list(bytes(msg)));
            }
            return e;
        }

        Rcpt receipt(int events) {
            Rcpt r = new Rcpt();
            for (int i = 0; i < events; i++) {
                r.events.add(event(k.of(0, 0, 0, 1, 2, 3, 4)));
            }
            r.hashed = events > 0 || k.chance(60);
            List<byte[]> raws = new ArrayList<>();
            for (Ev e : r.events) {
                raws.add(e.raw);
            }
            serial++; // no two are the same
            byte[] last = new byte[] {(byte) serial};
            List<byte[]> l = new ArrayList<>(Arrays.asList(num(0), bytes(bmc.toByteArray()), num(1000 + serial), bytes(last), num(12500000000L), bytes(H(last))));
            if (r.hashed) {
                r.trie = new Trie(raws);
                l.add(list());
                l.add(bytes(null));
                l.add(bytes(r.trie.root));
            } else {
                l.add(list());
                l.add(k.chance(20) ? bytes(other.toByteArray()) : bytes(null));
                l.add(bytes(null));
            }
            r.raw = list(l);
            return r;
        }

        Block produce(int receipts, int events) {
            Block b = new Block();
            b.height = start + 1 + blocks.size();
            b.first = seq.add(BigInteger.ONE);
            for (int i = 0; i < receipts; i++) {
                b.receipts.add(receipt(k.pick(events + 1)));
            }
            b.msgs = seq.subtract(b.first).intValue() + 1;
            List<byte[]> raws = new ArrayList<>();
            for (Rcpt r : b.receipts) {
                raws.add(r.raw);
            }
            b.trie = new Trie(raws);
            b.signers = validators;
            if (k.chance(25)) {
                validators = choose();
                if (k.chance(30)) { // the same ones in another order
                    validators = new ArrayList<>(b.signers);
                    Collections.shuffle(validators, k.r);
                }
            }
            b.next = validators;
            byte[] result = null;
            if (!b.receipts.isEmpty() || k.chance(40)) {
                List<byte[]> l = new ArrayList<>(Arrays.asList(bytes(k.chance(80) ? H(new byte[] {1}) : null), bytes(k.chance(20) ? H(new byte[] {2}) : null), bytes(b.trie.root)));
                if (k.chance(30)) {
                    l.add(bytes(list(bytes(H(new byte[] {3})), bytes(k.chance(50) ? null : new byte[] {4}))));
                }
                result = list(l);
            }
            byte[] prev = blocks.isEmpty() ? H(new byte[] {5}) : blocks.get(blocks.size() - 1).hash;
            b.fields = new byte[][] {num(2), num(b.height), num(1500000000000000L + b.height * 2000000), k.chance(10) ? bytes(null) : bytes(ADDRS.get(k.any(b.signers)).toByteArray()),
                bytes(prev), bytes(k.chance(90) ? H(new byte[] {6}) : null), bytes(H(validators(b.next))), bytes(k.chance(10) ? H(new byte[] {7}) : null),
                bytes(k.chance(90) ? H(new byte[] {8, (byte) serial}) : null), bytes(k.chance(50) ? new byte[] {0} : H(new byte[] {9})), bytes(result)};
            b.header = header(b.fields);
            b.hash = H(b.header);
            blocks.add(b);
            return b;
        }

        Block at(long height) { return blocks.get((int) (height - start - 1)); }

        long top() { return start + blocks.size(); }
    }

    // ---- parts of relay messages

    static final class Votes {
        long round, parts = 1, type = 1, height;
        byte[] partHash = H(new byte[] {10}), id;
        List<BigInteger> keys = new ArrayList<>();
        // what is stated, when it is not what was signed
        Long statedRound, statedParts;
        int shift = -1, spoil = -1;

        Votes(Mon.Case k, Block b, int n) {
            height = b.height;
            id = b.hash;
            round = k.of(0, 0, 1, 200);
            parts = k.of(1, 1, 130);
            if (k.chance(5)) {
                partHash = null;
            }
            List<BigInteger> l = new ArrayList<>(b.signers);
            Collections.shuffle(l, k.r);
            keys.addAll(l.subList(0, n));
        }

        byte[] encode() {
            List<byte[]> items = new ArrayList<>();
            for (int i = 0; i < keys.size(); i++) {
                long t = 1500000000000000L + height * 2000000 + i;
                byte[] m = list(num(height), num(round), num(type), bytes(id), list(num(parts), bytes(partHash)), num(t));
                byte[] s = sign(keys.get(i), H(m));
                if (i == spoil) {
                    s = s.clone();
                    s[5] ^= 1;
                }
                items.add(list(num(t + (i == shift ? 1 : 0)), bytes(s)));
            }
            return list(num(statedRound != null ? statedRound : round), list(num(statedParts != null ? statedParts : parts), bytes(partHash)), list(items));
        }
    }

    static int enough(Mon.Case k, Block b) {
        int n = b.signers.size(), min = n * 2 / 3 + 1;
        return k.chance(50) ? min : min + k.pick(n - min + 1);
    }

    static byte[] update(byte[] header, byte[] votes, byte[] next) { return list(bytes(header), bytes(votes), bytes(next)); }

    static byte[] message(List<byte[]> updates, byte[] proof, List<byte[]> receipts, boolean nulls) {
        List<byte[]> u = new ArrayList<>(), r = new ArrayList<>();
        for (byte[] b : updates) {
            u.add(bytes(b));
        }
        for (byte[] b : receipts) {
            r.add(bytes(b));
        }
        return list(u.isEmpty() && nulls ? bytes(null) : list(u), bytes(proof), r.isEmpty() && nulls ? bytes(null) : list(r));
    }

    /** A receipt with some of its events, as it is proven. */
    static final class Shown {
        int at;
        Rcpt r;
        List<Integer> events = new ArrayList<>();

        byte[] encode(Trie t) { return encode(at, t.paths.get(at)); }

        byte[] encode(long index, List<byte[]> path) {
            List<byte[]> l = new ArrayList<>();
            if (r.hashed) {
                for (int e : events) {
                    l.add(list(num(e), proofs(r.trie.paths.get(e))));
                }
            }
            return list(num(index), proofs(path), r.hashed ? list(l) : bytes(null));
        }

        List<Ev> shown() {
            List<Ev> l = new ArrayList<>();
            if (!r.hashed) {
                return r.events;
            }
            for (int e : events) {
                l.add(r.events.get(e));
            }
            return l;
        }
    }

    // ---- the verifier and its model

    static final class Dst {
        final Mon.Case k;
        final Chain chain = new Chain("0xa.icon");
        final Address owner = chain.newAddress(false), bmc = chain.newAddress(true);
        Address ver;
        Src src;
        long height, offset, last;
        List<byte[]> hashes = new ArrayList<>(); // of the blocks after the offset
        BigInteger seq;
        int got;

        Dst(Mon.Case k) { this.k = k; }

        String here() { return "btp://" + chain.net + "/" + bmc; }

        void deploy() {
            height = offset = last = src.start;
            seq = src.seq;
            restore();
            ver = chain.deploy(owner, () -> new BTPMessageVerifier(bmc, src.net, text(src.validators), offset));
            status("deploy");
        }

        String text(List<BigInteger> keys) {
            String enc = java.util.Base64.getEncoder().encodeToString(validators(keys));
            if (k.chance(30) && enc.indexOf('+') < 0 && enc.indexOf('/') < 0) {
                return enc;
            }
            List<String> l = new ArrayList<>();
            for (BigInteger d : keys) {
                l.add(ADDRS.get(d).toString());
            }
            return String.join(",", l);
        }

        /** The code of the contract is replaced by itself. */
        void replace() {
            List<BigInteger> now = height == src.start ? src.blocks.isEmpty() ? src.validators : src.at(src.start + 1).signers : src.at(height).next;
            chain.update(ver, () -> new BTPMessageVerifier(bmc, src.net, text(now), offset + k.pick(3)));
            k.add(" replaced");
            status("replace");
        }

        void status(String what) {
            Object o = chain.tx(owner, O, ver, "getStatus");
            Rlp.Reader r;
            try {
                Object h = o.getClass().getMethod("getHeight").invoke(o);
                k.check(((Number) h).longValue() == height, "height:" + what, "height " + h + " is not " + height + "\n" + k.input);
                r = new Rlp.Reader((byte[]) o.getClass().getMethod("getExtra").invoke(o));
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
            r.beginList();
            long a = r.readLong(), b = r.readLong();
            k.check(a == offset && b == last, "extra:" + what, "offset " + a + ", last height " + b + " are not " + offset + ", " + last);
        }

        List<byte[]> call(Address from, String here, String there, BigInteger s, byte[] m) {
            byte[][] r = (byte[][]) chain.tx(from, O, ver, "handleRelayMessage", here, there, s, m);
            return r == null ? null : Arrays.asList(r);
        }

        void refuse(String what, byte[] m, int code) { refuse(what, bmc, here(), src.there(), seq, m, code); }

        void refuse(String what, Address from, String here, String there, BigInteger s, byte[] m, int code) {
            List<byte[]> r;
            k.count("refused " + what, 1);
            k.seen(what, Crypto.hex(H(m)), from, here, there, s);
            try {
                r = call(from, here, there, s, m);
            } catch (UserRevertedException e) {
                k.check(code < 0 || e.getCode() == code, "code:" + what, "refused with " + e.getCode() + " instead of " + code + ": " + e.getMessage());
                status(what);
                return;
            } catch (RevertedException e) {
                k.check(code < 0, "code:" + what, "refused without the code " + code + ": " + e);
                status(what);
                return;
            }
            k.fail("accepted:" + what, "accepted, with " + Enc.show(r == null ? null : r.toArray()) + "\n" + k.input);
        }

        /** Blocks up to a height (none: the block is proven), and some receipts of the last one. */
        void honest(int n, long at, List<Shown> receipts, long witnessAt, BigInteger s) {
            List<byte[]> ups = new ArrayList<>(), rs = new ArrayList<>();
            Block b = n > 0 ? src.at(height + n) : src.at(at);
            for (int i = 1; i <= n; i++) {
                Block u = src.at(height + i);
                ups.add(update(u.header, new Votes(k, u, enough(k, u)).encode(), next(u)));
            }
            for (Shown x : receipts) {
                rs.add(x.encode(b.trie));
            }
            byte[] proof = n > 0 ? null : list(bytes(b.header), list(num(witnessAt), list(witness(b.height, witnessAt))));
            byte[] m = message(ups, proof, rs, k.chance(50));
            List<byte[]> want = new ArrayList<>();
            BigInteger e = s;
            int code = 0;
            if (n == 0 && witnessAt != height) {
                code = witnessAt < height ? OLD : -1;
            }
            for (Shown x : receipts) {
                for (Ev v : x.shown()) {
                    if (v.seq == null || code != 0) {
                        continue;
                    }
                    int c = v.seq.compareTo(e.add(BigInteger.ONE));
                    if (c != 0) {
                        code = c > 0 ? SEQHIGHER : SEQLOWER;
                        continue;
                    }
                    e = v.seq;
                    want.add(v.msg);
                }
            }
            String what = n > 0 ? "updates" : "proof";
            k.add(" " + what + n + "/" + receipts.size() + "/" + (b.height - src.start));
            if (code != 0) {
                refuse(what + "-" + code, bmc, here(), src.there(), s, m, code);
                return;
            }
            List<byte[]> r;
            try {
                r = call(bmc, here(), src.there(), s, m);
            } catch (RevertedException x) {
                k.fail("refused:" + what, x + "\n" + k.input);
                return;
            }
            k.count("accepted " + what, 1);
            k.count("messages", want.size());
            k.seen(what, Crypto.hex(H(m)));
            k.check(r != null && r.size() == want.size(), "number:" + what, (r == null ? "null" : r.size() + "") + " messages instead of " + want.size());
            for (int i = 0; i < want.size(); i++) {
                k.check(Arrays.equals(want.get(i), r.get(i)), "message:" + what, "message " + i + " of " + want.size() + ": " + Enc.show(r.get(i)) + " is not " + Enc.show(want.get(i)));
            }
            for (int i = 1; i <= n; i++) {
                hashes.add(src.at(height + i).hash);
            }
            height += n;
            if (!want.isEmpty()) {
                last = b.height;
                seq = e;
            }
            status(what);
        }

        /** The validators that come with a block: needed when they change, and of no meaning otherwise. */
        byte[] next(Block u) {
            if (!Arrays.equals(validators(u.next), validators(u.signers))) {
                return validators(u.next);
            }
            return k.chance(15) ? validators(k.chance(50) ? u.next : src.choose()) : null;
        }

        List<byte[]> witness(long h, long at) {
            List<byte[]> l = new ArrayList<>();
            int n = (int) (Math.min(at, height) - offset), i = (int) (h - offset - 1), from = 0, size = Integer.highestOneBit(Math.max(n, 1));
            while (size > 1 && ((n & size) == 0 || i >= from + size)) {
                from += n & size;
                size >>= 1;
            }
            List<byte[]> row = new ArrayList<>();
            for (int j = from; j < from + size && j < hashes.size(); j++) {
                row.add(hashes.get(j));
            }
            i -= from;
            while (row.size() > 1) {
                l.add(bytes(row.get(i ^ 1)));
                List<byte[]> up = new ArrayList<>();
                for (int j = 0; j < row.size(); j += 2) {
                    up.add(H(row.get(j), row.get(j + 1)));
                }
                row = up;
                i /= 2;
            }
            return l;
        }
    }

    /** Receipts that show the next messages of a block, up to some number, with events that mean nothing. */
    static List<Shown> show(Mon.Case k, Block b, BigInteger seq, int most) {
        List<Shown> l = new ArrayList<>();
        for (int i = 0; i < b.receipts.size(); i++) {
            Shown s = new Shown();
            s.at = i;
            s.r = b.receipts.get(i);
            boolean any = false;
            for (int j = 0; j < s.r.events.size(); j++) {
                Ev e = s.r.events.get(j);
                if (e.seq == null ? k.chance(15) : e.seq.compareTo(seq) > 0 && most > 0) {
                    s.events.add(j);
                    if (e.seq != null) {
                        most--;
                    }
                }
                any |= e.seq != null && e.seq.compareTo(seq) > 0;
            }
            if (s.r.hashed ? !s.events.isEmpty() || k.chance(5) : any && most >= 0 || k.chance(5) && noMessages(s.r)) {
                l.add(s);
            }
        }
        return l;
    }

    static boolean noMessages(Rcpt r) {
        for (Ev e : r.events) {
            if (e.seq != null) {
                return false;
            }
        }
        return true;
    }

    static int left(Dst d) {
        if (d.height == d.src.start) {
            return 0;
        }
        return Math.max(0, d.src.at(d.height).first.add(BigInteger.valueOf(d.src.at(d.height).msgs - 1)).subtract(d.seq).intValue());
    }

    static void step(Mon.Case k, Src src, Dst d) {
        while (src.top() < d.height + 4) {
            src.produce(k.of(0, 0, 1, 1, 2, 3, 18), k.of(0, 1, 2, 4));
        }
        // the block that holds the next message, if it was accepted already
        Block due = null;
        for (long h = src.start + 1; h <= d.height; h++) {
            Block b = src.at(h);
            if (b.msgs > 0 && b.first.add(BigInteger.valueOf(b.msgs)).compareTo(d.seq) > 0 && b.first.compareTo(d.seq.add(BigInteger.ONE)) <= 0
                    && b.first.add(BigInteger.valueOf(b.msgs - 1)).compareTo(d.seq) > 0) {
                due = b;
            }
        }
        if (k.chance(8) && d.height > src.start) { // of any block, in any order
            Block b = src.at(src.start + 1 + k.pick((int) (d.height - src.start)));
            List<Shown> l = show(k, b, d.seq, 99);
            if (!l.isEmpty() && k.chance(50)) {
                l.add(k.any(l));
            }
            Collections.shuffle(l, k.r);
            BigInteger s = k.chance(50) ? d.seq : b.first.add(BigInteger.valueOf(k.of(-2, -1, 0, 1)));
            BigInteger keep = d.seq;
            d.honest(0, b.height, b.receipts.isEmpty() ? new ArrayList<>() : l, k.chance(80) ? d.height : d.height + k.of(-1, 1), s);
            d.seq = keep;
            return;
        }
        if (due != null && k.chance(40)) { // one left out, or shown again
            List<Shown> l = show(k, due, d.seq, 2 + k.pick(6));
            List<Shown> some = new ArrayList<>();
            for (Shown x : l) {
                if (x.events.size() > 1) {
                    some.add(x);
                }
            }
            if (!some.isEmpty()) {
                Shown x = k.any(some);
                if (k.chance(70)) {
                    x.events.remove(k.pick(x.events.size()));
                } else {
                    x.events.add(k.pick(x.events.size() + 1), k.any(x.events));
                }
                BigInteger keep = d.seq;
                d.honest(0, due.height, l, d.height, d.seq);
                if (!d.seq.equals(keep)) {
                    return;
                }
            }
        }
        if (due != null) {
            d.honest(0, due.height, show(k, due, d.seq, 1 + k.pick(5)), d.height, d.seq);
            return;
        }
        int n = 1 + k.pick(3);
        for (int i = 1; i < n; i++) { // messages come with the last block of a relay message
            if (src.at(d.height + i).msgs > 0) {
                n = k.chance(70) ? i : n;
                break;
            }
        }
        Block b = src.at(d.height + n);
        boolean next = b.first.equals(d.seq.add(BigInteger.ONE));
        d.honest(n, 0, next && k.chance(75) ? show(k, b, d.seq, 1 + k.pick(6)) : new ArrayList<>(), 0, d.seq);
        if (k.chance(5)) {
            d.replace();
        }
    }

    static Dst start(Mon.Case k, int max) {
        Dst d = new Dst(k);
        d.src = new Src(k, max, d.here());
        d.deploy();
        k.input("start " + d.offset + ", " + d.src.validators.size() + " validators, from " + d.seq + ":");
        return d;
    }

    static void relay(Mon.Case k, int steps, int attacks) {
        Dst d = start(k, k.chance(50) ? 4 : 8);
        for (int i = 0; i < steps; i++) {
            step(k, d.src, d);
            for (int j = k.pick(attacks + 1); j > 0; j--) {
                attack(k, d.src, d);
            }
        }
    }

    static void quorum(Mon.Case k) {
        Dst d = start(k, 1);
        d.src.validators = new ArrayList<>(KEYS.subList(0, 1 + k.n % 13));
        restore();
        d.ver = d.chain.deploy(d.owner, () -> new BTPMessageVerifier(d.bmc, d.src.net, d.text(d.src.validators), d.offset));
        Block b = d.src.produce(1, 2);
        int n = b.signers.size();
        for (int v = 0; v <= n; v++) {
            if (v * 3 <= n * 2) {
                d.refuse("quorum", message(Arrays.asList(update(b.header, new Votes(k, b, v).encode(), d.next(b))), null, new ArrayList<>(), false), 27);
            }
        }
        Votes few = new Votes(k, b, n * 2 / 3);
        for (int i = 0; i < 3 && !few.keys.isEmpty(); i++) { // the same one again and again
            few.keys.add(few.keys.get(k.pick(few.keys.size())));
        }
        d.refuse("repeated-vote", message(Arrays.asList(update(b.header, few.encode(), d.next(b))), null, new ArrayList<>(), false), -1);
        k.add(" " + n);
        d.src.produce(0, 0);
        d.honest(1, 0, new ArrayList<>(), 0, d.seq);
    }

    static void tries(Mon.Case k) {
        Dst d = start(k, 2);
        int[] sizes = {1, 2, 15, 16, 17, 18, 33, 127, 128, 129, 130, 145, 260};
        Block b = d.src.produce(sizes[k.n % sizes.length], k.chance(20) ? 20 : 2);
        d.src.produce(0, 0);
        d.honest(1, 0, new ArrayList<>(), 0, d.seq);
        for (int i = 0; i < b.receipts.size(); i++) {
            Shown s = new Shown();
            s.at = i;
            s.r = b.receipts.get(i);
            for (int j = 0; j < s.r.events.size(); j++) {
                s.events.add(j);
            }
            d.honest(0, b.height, new ArrayList<>(Arrays.asList(s)), d.height, d.seq);
        }
        k.check(left(d) == 0, "harness", "messages left: " + left(d));
        for (int i = 0; i < 10; i++) {
            attack(k, d.src, d);
        }
    }

    static void attack(Mon.Case k, Src src, Dst d) {
        while (src.top() < d.height + 4) {
            src.produce(k.of(0, 1, 2), 3);
        }
        Block b = src.at(d.height + 1);
        byte[] good = new Votes(k, b, b.signers.size()).encode(), next = d.next(b);
        switch (k.pick(15)) {
            case 0: { // not from the message centre, not for it, not of the network
                byte[] m = message(Arrays.asList(update(b.header, good, next)), null, new ArrayList<>(), false);
                d.refuse("caller", d.owner, d.here(), src.there(), d.seq, m, -1);
                d.refuse("bmc", d.bmc, "btp://" + d.chain.net + "/" + d.chain.newAddress(true), src.there(), d.seq, m, -1);
                d.refuse("prev", d.bmc, d.here(), "btp://" + k.of("0xff.icon", src.net + "z", src.net.substring(1), "0x1.bsc") + "/" + src.bmc, d.seq, m, -1);
                break;
            }
            case 1: { // a block of the past or of the future
                long h = k.chance(50) ? d.height + 2 + k.pick(2) : src.start + 1 + k.pick((int) (d.height - src.start + 1));
                if (h <= d.height || h > d.height + 1) {
                    Block x = src.at(h);
                    List<byte[]> l = new ArrayList<>();
                    if (h > d.height + 2 || k.chance(50) && h <= d.height) {
                        l.add(update(b.header, good, next));
                    }
                    l.add(update(x.header, new Votes(k, x, x.signers.size()).encode(), d.next(x)));
                    d.refuse("height", message(l, null, new ArrayList<>(), false), h <= d.height ? LOWER : HIGHER);
                }
                break;
            }
            case 2: { // votes of others
                List<BigInteger> out = new ArrayList<>(KEYS);
                out.removeAll(b.signers);
                Votes v = new Votes(k, b, k.chance(50) ? b.signers.size() : Math.max(0, b.signers.size() - 1));
                v.keys.add(k.pick(v.keys.size() + 1), k.any(out));
                d.refuse("foreign-vote", message(Arrays.asList(update(b.header, v.encode(), next)), null, new ArrayList<>(), false), -1);
                break;
            }
            case 3: { // too few, or the same ones again
                int n = b.signers.size() * 2 / 3;
                Votes v = new Votes(k, b, k.chance(60) ? n : k.pick(n + 1));
                if (k.chance(50) && !v.keys.isEmpty()) {
                    for (int i = 0; i < b.signers.size(); i++) {
                        v.keys.add(k.any(v.keys));
                    }
                }
                d.refuse("few-votes", message(Arrays.asList(update(b.header, v.encode(), next)), null, new ArrayList<>(), false), -1);
                break;
            }
            case 4: { // votes for something else
                Votes v = new Votes(k, b, b.signers.size());
                switch (k.pick(7)) {
                    case 0: v.statedRound = v.round + 1; break;
                    case 1: v.statedParts = v.parts + 1; break;
                    case 2: v.type = k.of(0, 2); break;
                    case 3: v.height += k.of(-1, 1); break;
                    case 4: v.id = src.at(d.height + 2).hash; break;
                    case 5: v.shift = k.pick(v.keys.size()); break;
                    default: v.spoil = k.pick(v.keys.size());
                }
                d.refuse("other-vote", message(Arrays.asList(update(b.header, v.encode(), next)), null, new ArrayList<>(), false), -1);
                break;
            }
            case 5: { // a header nobody voted for
                byte[][] f = b.fields.clone();
                int i = k.of(0, 2, 3, 4, 5, 6, 7, 8, 9, 10);
                byte[] x = f[i];
                switch (i) {
                    case 0: x = num(3); break;
                    case 2: x = num(7); break;
                    case 3: x = bytes(src.other.toByteArray()); break;
                    case 6: next = validators(new ArrayList<>(KEYS.subList(20, 23))); x = bytes(H(next)); break;
                    case 10: x = bytes(list(bytes(H(new byte[] {11})), bytes(null), bytes(H(new byte[] {12})))); break;
                    default: x = bytes(H(x, new byte[] {(byte) src.serial}));
                }
                f[i] = x;
                d.refuse("header-" + i, message(Arrays.asList(update(header(f), good, next)), null, new ArrayList<>(), false), -1);
                break;
            }
            case 6: { // validators nobody voted for
                if (Arrays.equals(validators(b.next), validators(b.signers))) {
                    break;
                }
                byte[] v = null;
                switch (k.pick(3)) {
                    case 0: v = validators(b.signers); break;
                    case 1: {
                        List<BigInteger> l = new ArrayList<>(b.next);
                        l.add(KEYS.get(KEYS.indexOf(k.any(l))));
                        v = validators(l);
                        break;
                    }
                    default:
                }
                d.refuse("validators", message(Arrays.asList(update(b.header, good, v)), null, new ArrayList<>(), false), -1);
                break;
            }
            case 7: { // the next block by the validators of before
                Block c = src.at(d.height + 2);
                List<BigInteger> gone = new ArrayList<>(b.signers);
                gone.removeAll(c.signers);
                if (gone.isEmpty()) {
                    break;
                }
                Votes v = new Votes(k, c, 0);
                v.keys.addAll(b.signers);
                d.refuse("former-validators", message(Arrays.asList(update(b.header, good, validators(b.next)), update(c.header, v.encode(), d.next(c))), null, new ArrayList<>(), false), -1);
                break;
            }
            case 8: { // nothing, no votes, no block
                d.refuse("nothing", message(new ArrayList<>(), null, new ArrayList<>(), k.chance(50)), -1);
                d.refuse("no-votes", message(Arrays.asList(update(b.header, null, next)), null, new ArrayList<>(), false), -1);
                d.refuse("no-witness", message(new ArrayList<>(), list(bytes(b.header), bytes(null)), new ArrayList<>(), false), -1);
                byte[] m = message(Arrays.asList(update(b.header, good, next)), null, new ArrayList<>(), false);
                d.refuse("cut", Arrays.copyOf(m, k.pick(m.length)), -1);
                break;
            }
            case 14: { // next to an update, a block nobody voted for, with messages
                byte[][] f = b.fields.clone();
                Ev e = new Ev();
                e.raw = list(bytes(src.bmc.toByteArray()), list(bytes("Message(str,int,bytes)".getBytes()), bytes(d.here().getBytes()), num(d.seq.add(BigInteger.ONE))), list(bytes("forged".getBytes())));
                Shown s = new Shown();
                s.r = new Rcpt();
                s.r.hashed = true;
                s.r.events.add(e);
                s.events.add(0);
                s.r.trie = new Trie(Arrays.asList(e.raw));
                s.r.raw = list(num(0), bytes(src.bmc.toByteArray()), num(1), num(1), num(1), num(0), list(), bytes(null), bytes(s.r.trie.root));
                Trie t = new Trie(Arrays.asList(s.r.raw));
                f[10] = bytes(list(bytes(null), bytes(null), bytes(t.root)));
                if (k.chance(50)) {
                    f[1] = num(d.height);
                }
                byte[] pr = list(bytes(header(f)), list(num(d.height + k.of(0, 1)), list(d.height == src.start ? new ArrayList<>() : d.witness(d.height, d.height))));
                d.refuse("beside", message(Arrays.asList(update(b.header, good, next)), pr, Arrays.asList(s.encode(t)), false), -1);
                d.refuse("unproven", message(new ArrayList<>(), pr, Arrays.asList(s.encode(t)), false), -1);
                break;
            }
            case 9: { // a proven block that was never accepted
                if (d.height == src.start) {
                    break;
                }
                Block x = src.at(src.start + 1 + k.pick((int) (d.height - src.start)));
                byte[][] f = x.fields.clone();
                List<byte[]> w = d.witness(x.height, d.height);
                int code = -1;
                long h = d.height;
                switch (k.pick(5)) {
                    case 0: f[8] = bytes(H(new byte[] {13})); break;
                    case 1: f[1] = num(x.height + k.of(-1, 1)); break;
                    case 2: {
                        if (w.isEmpty()) {
                            return;
                        }
                        int i = k.pick(w.size());
                        w.set(i, bytes(H(w.get(i))));
                        break;
                    }
                    case 3: {
                        if (w.isEmpty() || k.chance(50)) {
                            w.add(bytes(H(new byte[] {14})));
                        } else {
                            w.remove(k.pick(w.size()));
                        }
                        break;
                    }
                    default: f = b.fields; code = PROOFHIGHER;
                }
                d.refuse("proof", message(new ArrayList<>(), list(bytes(header(f)), list(num(h), list(w))), new ArrayList<>(), false), code);
                break;
            }
            case 10: // receipts and events that are not of the block
            case 11:
            case 12:
            default: {
                List<Block> l = new ArrayList<>();
                for (long h = src.start + 1; h <= d.height; h++) {
                    if (!src.at(h).receipts.isEmpty()) {
                        l.add(src.at(h));
                    }
                }
                if (l.isEmpty()) {
                    break;
                }
                Block x = k.any(l);
                Shown s = new Shown();
                s.at = k.pick(x.receipts.size());
                s.r = x.receipts.get(s.at);
                for (int j = 0; j < s.r.events.size(); j++) {
                    s.events.add(j);
                }
                List<byte[]> path = new ArrayList<>(x.trie.paths.get(s.at));
                long index = s.at;
                byte[] rp = null;
                String what;
                switch (k.pick(8)) {
                    case 0: what = "index"; index = s.at + k.of(-1, 1, 16, 128, 256); break;
                    case 1: what = "no-node"; path.remove(k.pick(path.size())); break;
                    case 2: { // another receipt under the same position
                        what = "leaf";
                        Rcpt forged = src.receipt(2);
                        src.seq = src.seq.subtract(BigInteger.valueOf(forged.events.stream().filter(e -> e.seq != null).count()));
                        List<byte[]> raws = new ArrayList<>();
                        for (Rcpt r : x.receipts) {
                            raws.add(r.raw);
                        }
                        raws.set(s.at, forged.raw);
                        Trie t = new Trie(raws);
                        s.r = forged;
                        s.events.clear();
                        if (k.chance(50)) {
                            path = t.paths.get(s.at);
                        } else { // only its own node is another one
                            path.set(path.size() - 1, t.paths.get(s.at).get(path.size() - 1));
                        }
                        break;
                    }
                    case 3: {
                        what = "other-block";
                        Block y = k.any(l);
                        if (y == x || s.at >= y.receipts.size()) {
                            return;
                        }
                        path = y.trie.paths.get(s.at);
                        break;
                    }
                    case 4: case 5: { // an event of elsewhere
                        what = "event";
                        Rcpt other = k.any(k.any(l).receipts);
                        if (!s.r.hashed || !other.hashed || other == s.r || other.events.isEmpty()) {
                            return;
                        }
                        int e = k.pick(other.events.size());
                        if (e < s.r.events.size() && Arrays.equals(s.r.events.get(e).raw, other.events.get(e).raw)) {
                            return;
                        }
                        rp = list(num(index), proofs(path), list(list(num(e), proofs(other.trie.paths.get(e)))));
                        break;
                    }
                    case 6: { // an event that was altered, or at another place
                        what = "altered-event";
                        if (!s.r.hashed || s.r.events.isEmpty()) {
                            return;
                        }
                        int e = k.pick(s.r.events.size());
                        List<byte[]> p = new ArrayList<>(s.r.trie.paths.get(e));
                        int at = e;
                        if (k.chance(40)) {
                            at += k.of(-1, 1, 16);
                        } else {
                            List<byte[]> raws = new ArrayList<>(s.r.trie.values);
                            Ev forged = new Ev();
                            raws.set(e, list(bytes(src.bmc.toByteArray()), list(bytes("Message(str,int,bytes)".getBytes()), bytes(d.here().getBytes()), num(d.seq.add(BigInteger.ONE))), list(bytes("forged".getBytes()))));
                            p.set(p.size() - 1, new Trie(raws).paths.get(e).get(p.size() - 1));
                        }
                        rp = list(num(index), proofs(path), list(list(num(at), proofs(p))));
                        break;
                    }
                    default: { // proven in a block without results
                        what = "no-result";
                        Block y = null;
                        for (long h = src.start + 1; h <= d.height; h++) {
                            if (src.at(h).receipts.isEmpty()) {
                                y = src.at(h);
                            }
                        }
                        if (y == null) {
                            return;
                        }
                        byte[] pr = list(bytes(y.header), list(num(d.height), list(d.witness(y.height, d.height))));
                        d.refuse(what, message(new ArrayList<>(), pr, Arrays.asList(s.encode(index, path)), false), -1);
                        return;
                    }
                }
                byte[] pr = list(bytes(x.header), list(num(d.height), list(d.witness(x.height, d.height))));
                d.refuse(what, message(new ArrayList<>(), pr, Arrays.asList(rp != null ? rp : s.encode(index, path)), false), -1);
            }
        }
    }
}
