package h;

import static h.Enc.*;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import score.Address;
import score.RevertedException;
import score.UserRevertedException;
import vm.Chain;
import vm.Crypto;
import vm.Rlp;

/** The verifiers: V01 of BTP blocks, V02 of the bridge. */
public final class V {
    public static void run(Mon m) {
        if (m.prop.equals("V01")) {
            m.group("blocks", m.n(60, 900), k -> blocks(k, 8, 6));
            m.group("proofs", m.n(40, 600), V::proofs);
            m.group("quorum", m.n(24, 240), V::quorum);
            m.group("long", m.n(4, 60), k -> blocks(k, 40, 2));
        } else {
            m.group("bridge", m.n(600, 12000), V::bridge);
        }
    }

    // ------------------------------------------------------------------ encoding

    static byte[] H(byte[]... b) { return Crypto.keccak(cat(b)); }

    static String hex(byte[] b) { return b == null ? "null" : Crypto.hex(b); }

    // ------------------------------------------------------------------ the source chain

    static final class Block {
        long height;
        int round;
        long first;
        boolean changed;
        List<byte[]> msgs = new ArrayList<>();
        List<BigInteger> signers; // validators that decide on it
        byte[] nextPC;            // validators of the next block
        byte[] prev;
        byte[] nsHash;
        List<byte[]> path = new ArrayList<>();
        List<Integer> dirs = new ArrayList<>();
        byte[] root;

        long end() { return first + msgs.size(); }
    }

    static final Map<String, byte[]> SIGS = new HashMap<>();
    static final List<BigInteger> KEYS = new ArrayList<>();
    static final List<byte[]> ADDRS = new ArrayList<>();

    static {
        for (int i = 0; i < 24; i++) {
            BigInteger d = new BigInteger(1, Crypto.keccak(("key" + i).getBytes())).mod(Crypto.N);
            KEYS.add(d);
            ADDRS.add(Crypto.ethAddress(d));
        }
    }

    static byte[] sign(BigInteger key, byte[] hash) {
        return SIGS.computeIfAbsent(key.toString(36) + hex(hash),
                s -> Crypto.sign(key, hash, new BigInteger(1, Crypto.keccak(new byte[] {(byte) (hash[0] & 15)})).mod(Crypto.N)));
    }

    static byte[] proofContext(List<BigInteger> keys) {
        List<byte[]> l = new ArrayList<>();
        for (BigInteger d : keys) {
            l.add(bytes(ADDRS.get(KEYS.indexOf(d))));
        }
        return list(list(l));
    }

    static final class Src {
        Mon.Case k;
        String srcId;
        String net;
        int type;
        long nid;
        List<Block> blocks = new ArrayList<>();
        List<BigInteger> validators;
        byte[] pc;
        List<byte[]> all = new ArrayList<>(); // all messages, by sequence number
        int maxValidators;
        int serial;

        Src(Mon.Case k, int maxValidators) {
            this.k = k;
            this.maxValidators = maxValidators;
            net = "0x" + (1 + k.pick(9)) + ".icon";
            srcId = k.chance(40) ? k.of("btp/", "btp://", "a/b/") + net : net;
            type = 1 + k.pick(3);
            nid = 1 + k.pick(400);
            choose();
            Block b = new Block();
            b.height = 1 + k.pick(1000);
            b.round = 0;
            b.changed = true;
            b.signers = validators;
            b.nextPC = pc;
            seal(b);
        }

        void choose() {
            List<BigInteger> l = new ArrayList<>(KEYS);
            Collections.shuffle(l, k.r);
            validators = l.subList(0, 1 + k.pick(maxValidators));
            pc = proofContext(validators);
        }

        void seal(Block b) {
            b.root = b.msgs.isEmpty() ? null : root(leaves(b.msgs));
            b.prev = blocks.isEmpty() ? null : blocks.get(blocks.size() - 1).nsHash;
            b.nsHash = nsHash(b, nid);
            if (!blocks.isEmpty()) {
                for (int i = k.pick(4); i > 0; i--) {
                    b.path.add(H(new byte[] {(byte) i}, b.nsHash));
                    b.dirs.add(k.pick(2));
                }
            }
            blocks.add(b);
            all.addAll(b.msgs);
        }

        byte[] message() {
            serial++;
            int x = k.pick(10);
            if (x == 0) {
                // somebody on the source chain sends what may be taken for an inner node
                return cat(H(forged()), H(("junk" + serial).getBytes()));
            }
            if (x == 3) {
                return cat(H(forged()), H(forged()));
            }
            if (x == 1) {
                return cat(H(("junk" + serial).getBytes()), H(forged()));
            }
            byte[] m = new byte[1 + k.pick(x == 2 ? 300 : 40)];
            k.r.nextBytes(m);
            return cat(("m" + serial + ":").getBytes(), m);
        }

        byte[] forged() { return "forged message".getBytes(); }

        void produce(int max) {
            Block last = blocks.get(blocks.size() - 1);
            Block b = new Block();
            b.height = last.height + 1 + k.pick(5);
            b.round = k.pick(3);
            b.first = last.end();
            b.signers = validators;
            b.nextPC = pc;
            int c = k.chance(20) ? 1 : k.pick(max + 1);
            for (int i = 0; i < c; i++) {
                b.msgs.add(message());
            }
            if (c == 0 || k.chance(25)) {
                byte[] old = pc;
                do {
                    choose();
                } while (Arrays.equals(old, pc));
                b.changed = true;
                b.nextPC = pc;
            }
            seal(b);
        }

        byte[] nsHash(Block b, long nid) {
            return H(list(num(nid), num(b.first << 1 | (b.changed ? 1 : 0)), bytes(b.prev), num(b.msgs.size()), bytes(b.root)));
        }

        byte[] decision(Block b) { return decision(b, srcId, type); }

        byte[] decision(Block b, String srcId, int type) {
            byte[] h = b.nsHash;
            for (int i = 0; i < b.path.size(); i++) {
                h = b.dirs.get(i) == 0 ? H(b.path.get(i), h) : H(h, b.path.get(i));
            }
            byte[] nts = H(list(bytes(H(b.nextPC)), bytes(h)));
            return H(list(bytes(srcId.getBytes()), num(type), num(b.height), num(b.round), bytes(nts)));
        }

        byte[] header(Block b) {
            List<byte[]> p = new ArrayList<>();
            for (int i = 0; i < b.path.size(); i++) {
                p.add(list(num(b.dirs.get(i)), bytes(b.path.get(i))));
            }
            return list(num(b.height), num(b.round), bytes(H(b.nextPC)), list(p), num(nid),
                    num(b.first << 1 | (b.changed ? 1 : 0)), bytes(b.prev), num(b.msgs.size()), bytes(b.root),
                    bytes(b.changed ? b.nextPC : null));
        }

        byte[] update(Block b, List<byte[]> sigs) { return update(header(b), sigs); }

        static byte[] update(byte[] header, List<byte[]> sigs) {
            List<byte[]> l = new ArrayList<>();
            for (byte[] s : sigs) {
                l.add(bytes(s));
            }
            return list(bytes(header), bytes(list(list(l))));
        }

        static int quorum(int n) { return 2 * n / 3 + 1; }

        /** Signatures of at least a quorum, in some order. */
        List<byte[]> sigs(Block b) { return sigs(b, quorum(b.signers.size()) + k.pick(b.signers.size() - quorum(b.signers.size()) + 1)); }

        List<byte[]> sigs(Block b, int n) {
            List<BigInteger> l = new ArrayList<>(b.signers);
            Collections.shuffle(l, k.r);
            List<byte[]> r = new ArrayList<>();
            byte[] d = decision(b);
            for (BigInteger key : l.subList(0, n)) {
                r.add(sign(key, d));
            }
            return r;
        }
    }

    static List<byte[]> leaves(List<byte[]> msgs) {
        List<byte[]> l = new ArrayList<>();
        for (byte[] m : msgs) {
            l.add(H(m));
        }
        return l;
    }

    static int split(int n) { return Integer.highestOneBit(n - 1); }

    static byte[] root(List<byte[]> l) {
        if (l.size() == 1) {
            return l.get(0);
        }
        int s = split(l.size());
        return H(root(l.subList(0, s)), root(l.subList(s, l.size())));
    }

    static final class Node {
        final int n;
        final byte[] v;

        Node(int n, byte[] v) {
            this.n = n;
            this.v = v;
        }
    }

    static final class Proof {
        List<Node> left = new ArrayList<>();
        List<byte[]> msgs = new ArrayList<>();
        List<Node> right = new ArrayList<>();

        byte[] encode() {
            List<byte[]> m = new ArrayList<>();
            for (byte[] b : msgs) {
                m.add(bytes(b));
            }
            return list(nodes(left), list(m), nodes(right));
        }

        static byte[] nodes(List<Node> l) {
            List<byte[]> r = new ArrayList<>();
            for (Node n : l) {
                r.add(list(num(n.n), bytes(n.v)));
            }
            return list(r);
        }

        public String toString() {
            StringBuilder sb = new StringBuilder("left[");
            for (Node n : left) {
                sb.append(n.n).append(' ');
            }
            sb.append("] messages ").append(msgs.size()).append(" right[");
            for (Node n : right) {
                sb.append(n.n).append(' ');
            }
            return sb.append(']').toString();
        }
    }

    static Proof proof(List<byte[]> msgs, int from, int to) {
        Proof p = new Proof();
        p.msgs.addAll(msgs.subList(from, to));
        cover(leaves(msgs), 0, from, to, p);
        return p;
    }

    static void cover(List<byte[]> l, int at, int from, int to, Proof p) {
        int end = at + l.size();
        if (end <= from) {
            p.left.add(new Node(l.size(), root(l)));
        } else if (at >= to) {
            p.right.add(new Node(l.size(), root(l)));
        } else if (l.size() > 1) {
            int s = split(l.size());
            cover(l.subList(0, s), at, from, to, p);
            cover(l.subList(s, l.size()), at + s, from, to, p);
        }
    }

    // ------------------------------------------------------------------ the verifier under observation

    static final class Dst {
        final Mon.Case k;
        final Src src;
        final Chain chain = new Chain("0xd.icon");
        final Address owner = chain.newAddress(false);
        final Address bmc = chain.newAddress(true);
        Address bmv;
        final BigInteger offset;
        int block;      // last block taken over
        long delivered; // messages returned

        Dst(Mon.Case k, Src src) {
            this.k = k;
            this.src = src;
            offset = BigInteger.valueOf(k.chance(50) ? 0 : k.pick(1000));
            byte[] h = src.header(src.blocks.get(0));
            bmv = chain.deploy(owner, () -> new foundation.icon.btp.bmv.btpblock.BTPMessageVerifier(src.srcId, src.type, bmc, h, offset));
            status("deployment");
        }

        BigInteger seq() { return offset.add(BigInteger.valueOf(delivered)); }

        String here() { return "btp://" + chain.net + "/" + bmc; }

        String there() { return "btp://" + src.net + "/cx" + "0123456789012345678901234567890123456789"; }

        Block cur() { return src.blocks.get(block); }

        int left() { return (int) (cur().end() - delivered); }

        /** What the verifier says about itself. */
        Object[] status(String when) {
            foundation.icon.btp.lib.BMVStatus s = (foundation.icon.btp.lib.BMVStatus) chain.tx(owner, BigInteger.ZERO, bmv, "getStatus");
            Rlp.Reader r = new Rlp.Reader(s.getExtra());
            r.beginList();
            BigInteger o = r.readBigInteger(), f = r.readBigInteger(), c = r.readBigInteger();
            r.end();
            Block b = cur();
            boolean ok = s.getHeight() == b.height && o.equals(offset) && f.longValueExact() == b.first
                    && c.longValueExact() == b.msgs.size();
            k.check(ok, "status", when + ": height " + s.getHeight() + " offset " + o + " first " + f + " count " + c
                    + "; the last block taken over has height " + b.height + " offset " + offset + " first " + b.first + " count "
                    + b.msgs.size());
            return null;
        }

        byte[][] call(Address from, String bmcAddr, String prev, BigInteger seq, byte[] msg) {
            return (byte[][]) chain.tx(from, BigInteger.ZERO, bmv, "handleRelayMessage", bmcAddr, prev, seq, msg);
        }

        /** An attempt that has to be refused, whatever the code. */
        void refuse(String what, Address from, String bmcAddr, String prev, BigInteger seq, byte[] msg, int code) {
            String before = chain.dump();
            k.count("hostile", 1);
            k.seen("refuse", what, code, left() > 0, cur().changed);
            byte[][] r;
            try {
                r = call(from, bmcAddr, prev, seq, msg);
            } catch (UserRevertedException e) {
                k.check(code < 0 || e.getCode() == code, "code:" + what, "refused with code " + e.getCode() + " in place of " + code + " "
                        + e.getMessage());
                k.check(before.equals(chain.dump()), "state:" + what, "the state changed");
                return;
            } catch (RevertedException e) {
                k.check(code < 0, "code:" + what, "failed in place of code " + code + ": " + e.getMessage());
                return;
            }
            k.fail("accepted:" + what, "returned " + r.length + " messages " + text(r) + " at block " + block + " of "
                    + src.blocks.size() + " delivered " + delivered + " message " + hex(msg));
        }

        void refuse(String what, byte[] msg, int code) { refuse(what, bmc, here(), there(), seq(), msg, code); }

        /** An attempt that may be taken over if only true messages come out. */
        void attempt(String what, byte[] msg) {
            k.count("attempts", 1);
            byte[][] r;
            try {
                r = call(bmc, here(), there(), seq(), msg);
            } catch (RevertedException e) {
                k.count("attempts refused", 1);
                return;
            }
            k.seen("attempt", what, r.length);
            for (int i = 0; i < r.length; i++) {
                int s = (int) delivered + i;
                k.check(s < src.all.size() && Arrays.equals(r[i], src.all.get(s)), "forged:" + what, "message " + i + " of "
                        + r.length + " is not message " + s + " of the source: " + text(r) + " relay message " + hex(msg));
            }
            delivered += r.length;
            // where it is now is what it says, if that is a place on the chain
            foundation.icon.btp.lib.BMVStatus s = (foundation.icon.btp.lib.BMVStatus) chain.tx(owner, BigInteger.ZERO, bmv, "getStatus");
            int at = -1;
            for (int i = block; i < src.blocks.size(); i++) {
                if (src.blocks.get(i).height == s.getHeight()) {
                    at = i;
                }
            }
            k.check(at >= 0, "place:" + what, "height " + s.getHeight() + " is not one of the chain; relay message " + hex(msg));
            block = at;
            k.check(cur().first <= delivered && delivered <= cur().end(), "place:" + what, "delivered " + delivered + " block from "
                    + cur().first + " to " + cur().end());
            status(what);
        }

        static String text(byte[][] r) {
            StringBuilder sb = new StringBuilder();
            for (byte[] b : r) {
                sb.append(hex(b)).append(' ');
            }
            return sb.toString();
        }

        /** The next honest relay message; moves on when apply is set. */
        byte[] honest(boolean apply) {
            int b = block;
            long d = delivered;
            List<byte[]> items = new ArrayList<>();
            int max = 1 + k.pick(4);
            if (cur().end() > d) {
                int from = (int) (d - cur().first);
                int to = from + 1 + k.pick(cur().msgs.size() - from);
                if (k.chance(50)) {
                    to = cur().msgs.size();
                }
                items.add(list(num(2), bytes(proof(cur().msgs, from, to).encode())));
                d += to - from;
                k.seen("proof", from, to, cur().msgs.size());
                while (to < cur().msgs.size() && k.chance(40)) {
                    from = to;
                    to = from + 1 + k.pick(cur().msgs.size() - from);
                    items.add(list(num(2), bytes(proof(cur().msgs, from, to).encode())));
                    d += to - from;
                }
            }
            while (src.blocks.get(b).end() == d && b + 1 < src.blocks.size() && items.size() < 2 * max) {
                Block n = src.blocks.get(++b);
                items.add(list(num(1), bytes(src.update(n, src.sigs(n)))));
                k.seen("update", n.signers.size(), n.changed, n.msgs.size(), n.dirs);
                if (n.msgs.isEmpty()) {
                    continue;
                }
                if (k.chance(25)) {
                    break;
                }
                int to = k.chance(60) ? n.msgs.size() : 1 + k.pick(n.msgs.size());
                items.add(list(num(2), bytes(proof(n.msgs, 0, to).encode())));
                d += to;
                if (to < n.msgs.size()) {
                    break;
                }
            }
            byte[] msg = list(list(items));
            if (!apply) {
                return msg;
            }
            byte[][] r;
            try {
                r = call(bmc, here(), there(), seq(), msg);
            } catch (RevertedException e) {
                k.fail("refused", "an honest relay message was refused: " + e.getMessage() + "; from block " + block + " delivered "
                        + delivered + " to block " + b + " delivered " + d + ", " + items.size() + " items, " + hex(msg));
                return null;
            }
            k.count("accepted", 1);
            List<byte[]> want = src.all.subList((int) delivered, (int) d);
            boolean same = r.length == want.size();
            for (int i = 0; same && i < r.length; i++) {
                same = Arrays.equals(r[i], want.get(i));
            }
            k.check(same, "messages", "returned " + r.length + " messages " + text(r) + "; the relay message proves "
                    + want.size() + " from " + delivered + ": " + text(want.toArray(new byte[0][])));
            k.count("messages", r.length);
            block = b;
            delivered = d;
            status("relay message");
            return msg;
        }
    }

    static byte[] one(int type, byte[] payload) { return list(list(list(num(type), bytes(payload)))); }

    static void blocks(Mon.Case k, int steps, int attacks) {
        Src src = new Src(k, k.chance(50) ? 4 : 7);
        Dst dst = new Dst(k, src);
        k.input("source " + src.srcId + " type " + src.type + " network " + src.nid + " offset " + dst.offset + ";");
        List<byte[]> old = new ArrayList<>();
        for (int i = 0; i < steps; i++) {
            while (src.blocks.size() - dst.block < 2 + k.pick(3)) {
                src.produce(k.chance(10) ? 40 : 6);
            }
            for (int j = k.pick(attacks + 1); j > 0; j--) {
                attack(k, src, dst, old);
            }
            byte[] m = dst.honest(true);
            k.add(" block " + dst.block + "/" + dst.delivered);
            if (m.length > 2) {
                old.add(m); // one that says nothing may come any number of times
            }
        }
    }

    static Block copy(Block b) {
        Block c = new Block();
        c.height = b.height;
        c.round = b.round;
        c.first = b.first;
        c.changed = b.changed;
        c.msgs = new ArrayList<>(b.msgs);
        c.signers = b.signers;
        c.nextPC = b.nextPC;
        c.prev = b.prev;
        c.nsHash = b.nsHash;
        c.path = new ArrayList<>(b.path);
        c.dirs = new ArrayList<>(b.dirs);
        c.root = b.root;
        return c;
    }

    static List<BigInteger> outsiders(Src src, Block b) {
        List<BigInteger> l = new ArrayList<>(KEYS);
        l.removeAll(b.signers);
        return l;
    }

    static void attack(Mon.Case k, Src src, Dst dst, List<byte[]> old) {
        Block next = dst.block + 1 < src.blocks.size() ? src.blocks.get(dst.block + 1) : null;
        boolean ready = dst.left() == 0 && next != null;
        switch (k.pick(16)) {
            case 0: { // not from the message centre, not for it, not of the network, not in sequence
                byte[] m = dst.honest(false);
                dst.refuse("caller", dst.owner, dst.here(), dst.there(), dst.seq(), m, -1);
                dst.refuse("bmc", dst.bmc, "btp://" + dst.chain.net + "/" + dst.owner, dst.there(), dst.seq(), m, -1);
                dst.refuse("prev", dst.bmc, dst.here(), "btp://" + k.of("0xff.icon", "z" + src.net, src.net + "z", src.net.substring(1), "0x1.bsc") + "/cx" + "0123456789012345678901234567890123456789", dst.seq(), m, -1);
                dst.refuse("seq", dst.bmc, dst.here(), dst.there(), dst.seq().add(BigInteger.valueOf(k.of(-1, 1, 2, -2, 256))), m, -1);
                break;
            }
            case 1: { // an old one again
                if (!old.isEmpty()) {
                    dst.refuse("replay", k.chance(50) ? old.get(old.size() - 1) : k.any(old), -1);
                }
                break;
            }
            case 2: { // a block of the past
                Block b = src.blocks.get(k.pick(dst.block + 1));
                if (b.prev != null) {
                    dst.refuse("past", one(1, src.update(b, src.sigs(b))), b.first < dst.cur().end() ? 27 : -1);
                }
                break;
            }
            case 3: { // a block of the future
                int i = dst.block + 2 + k.pick(3);
                if (i < src.blocks.size()) {
                    Block b = src.blocks.get(i);
                    dst.refuse("gap", one(1, src.update(b, src.sigs(b))), b.first > dst.cur().end() ? 26 : -1);
                }
                break;
            }
            case 4: { // the next block while messages remain
                if (dst.left() > 0 && next != null) {
                    dst.refuse("remain", one(1, src.update(next, src.sigs(next))), -1);
                }
                break;
            }
            case 5: // bytes changed
            case 6: {
                byte[] m = dst.honest(false);
                for (int i = 0; i < 12; i++) {
                    dst.attempt("bytes", mutate(k, m));
                    if (dst.left() > 0 || dst.block + 1 < src.blocks.size()) {
                        m = dst.honest(false);
                    } else {
                        break;
                    }
                }
                break;
            }
            case 7: { // not enough of them
                if (!ready) {
                    break;
                }
                int q = Src.quorum(next.signers.size()) - 1;
                List<byte[]> s = src.sigs(next, q);
                String what = k.of("few", "twice", "outsider", "other", "empty");
                byte[] d = src.decision(next);
                if (what.equals("twice")) {
                    if (s.isEmpty()) {
                        break;
                    }
                    do {
                        s.add(s.get(k.pick(s.size())));
                    } while (k.chance(50));
                } else if (what.equals("outsider")) {
                    s.add(k.pick(s.size() + 1), sign(k.any(outsiders(src, next)), d));
                } else if (what.equals("other")) {
                    Block b = copy(next);
                    b.height++;
                    s.add(sign(next.signers.get(0), src.decision(b)));
                } else if (what.equals("empty")) {
                    s.clear();
                }
                dst.refuse("quorum " + what, one(1, src.update(next, s)), -1);
                break;
            }
            case 8: { // validators of before or after
                if (!ready || next.prev == null) {
                    break;
                }
                for (Block b : src.blocks) {
                    if (!b.signers.equals(next.signers)) {
                        int same = 0;
                        List<byte[]> s = new ArrayList<>();
                        for (BigInteger key : b.signers) {
                            same += next.signers.contains(key) ? 1 : 0;
                            s.add(sign(key, src.decision(next)));
                        }
                        if (same < b.signers.size()) {
                            dst.refuse("validators of another time", one(1, src.update(next, s)), -1);
                            break;
                        }
                    }
                }
                break;
            }
            case 9: { // signed for another network or type
                if (!ready) {
                    break;
                }
                List<byte[]> s = new ArrayList<>();
                boolean t = k.chance(50);
                for (BigInteger key : next.signers) {
                    s.add(sign(key, src.decision(next, t ? src.srcId : src.srcId + "x", t ? src.type + 1 : src.type)));
                }
                dst.refuse("decision of another " + (t ? "type" : "network"), one(1, src.update(next, s)), -1);
                break;
            }
            case 10: { // a made up block with the signatures of the true one or of outsiders
                if (!ready) {
                    break;
                }
                Block b = copy(next);
                String what = k.of("height", "round", "messages", "validators", "prev", "path", "first", "all", "path dir", "path more", "path less");
                boolean own = k.chance(40);
                switch (what) {
                    case "height": b.height += k.of(1, -1, 100); break;
                    case "round": b.round++; break;
                    case "messages": b.msgs.add(src.forged()); break;
                    case "validators":
                        b.changed = true;
                        b.nextPC = proofContext(outsiders(src, next).subList(0, 1 + k.pick(3)));
                        break;
                    case "prev": b.prev = H("other".getBytes()); break;
                    case "path":
                        b.path.add(0, b.nsHash);
                        b.dirs.add(0, 1);
                        break;
                    case "first": b.first++; break;
                    case "path dir":
                        if (b.path.isEmpty()) {
                            return;
                        }
                        b.dirs.set(0, k.chance(50) ? 1 - b.dirs.get(0) : k.of(2, -1, 256));
                        break;
                    case "path more":
                        b.path.add(H("more".getBytes()));
                        b.dirs.add(k.pick(2));
                        break;
                    case "path less":
                        if (b.path.isEmpty()) {
                            return;
                        }
                        b.path.remove(b.path.size() - 1);
                        b.dirs.remove(b.dirs.size() - 1);
                        break;
                    default:
                        b.msgs.clear();
                        b.msgs.add(src.forged());
                }
                b.root = b.msgs.isEmpty() ? null : root(leaves(b.msgs));
                b.nsHash = src.nsHash(b, src.nid);
                List<byte[]> s;
                if (own) {
                    s = new ArrayList<>();
                    for (BigInteger key : outsiders(src, next)) {
                        s.add(sign(key, src.decision(b)));
                    }
                } else {
                    s = src.sigs(next, next.signers.size());
                }
                byte[] u = list(num(1), bytes(src.update(b, s)));
                dst.refuse("made up " + what, b.msgs.isEmpty() ? list(list(u)) : list(list(u,
                        list(num(2), bytes(proof(b.msgs, 0, b.msgs.size()).encode())))), -1);
                break;
            }
            case 11: { // signed by the validators, but not the next block of this network
                if (!ready) {
                    break;
                }
                Block b = copy(next);
                String what = k.of("network", "prev", "no prev", "validators not named", "flag");
                byte[] hd;
                if (what.equals("network")) {
                    b.nsHash = src.nsHash(b, src.nid + 1);
                    Src o = src;
                    long n = o.nid;
                    o.nid = n + 1;
                    hd = o.header(b);
                    o.nid = n;
                } else if (what.equals("prev")) {
                    b.prev = H("fork".getBytes());
                    b.nsHash = src.nsHash(b, src.nid);
                    hd = src.header(b);
                } else if (what.equals("no prev")) {
                    b.prev = null;
                    b.nsHash = src.nsHash(b, src.nid);
                    hd = src.header(b);
                } else if (what.equals("flag")) {
                    // says that the validators change and they do not
                    if (b.changed) {
                        break;
                    }
                    b.changed = true;
                    b.nsHash = src.nsHash(b, src.nid);
                    hd = src.header(b);
                } else {
                    if (!b.changed) {
                        break;
                    }
                    Block c = copy(b);
                    c.nextPC = proofContext(outsiders(src, next).subList(0, 1));
                    byte[] good = src.header(b), bad = src.header(c);
                    // the hash of the true ones, the list of others
                    hd = replace(good, bytes(b.nextPC), bytes(c.nextPC), bad);
                    if (hd == null) {
                        break;
                    }
                }
                List<byte[]> s = new ArrayList<>();
                byte[] d = src.decision(b);
                for (BigInteger key : next.signers) {
                    s.add(sign(key, d));
                }
                dst.refuse("signed, " + what, one(1, Src.update(hd, s)), -1);
                break;
            }
            case 12: { // what a relay message cannot be
                byte[] m = dst.honest(false);
                byte[] junk = new byte[1 + k.pick(30)];
                k.r.nextBytes(junk);
                dst.attempt("junk", junk);
                m = dst.left() > 0 || dst.block + 1 < src.blocks.size() ? dst.honest(false) : m;
                dst.attempt("cut", Arrays.copyOf(m, k.pick(m.length)));
                if (dst.left() == 0 && dst.block + 1 >= src.blocks.size()) {
                    break;
                }
                dst.refuse("proof of nothing", one(2, new Proof().encode()), -1);
                dst.refuse("kind", list(list(list(num(k.of(0, 3, 9)), bytes(junk)))), -1);
                break;
            }
            case 13: { // messages already given, or too early, or with others
                List<byte[]> msgs = dst.cur().msgs;
                if (msgs.isEmpty()) {
                    break;
                }
                int from = k.pick(msgs.size()), to = from + 1 + k.pick(msgs.size() - from);
                if (dst.left() > 0 && from == dst.delivered - dst.cur().first) {
                    Proof p = proof(msgs, from, to);
                    int i = k.pick(p.msgs.size());
                    String what = k.of("changed", "added", "swapped", "left out");
                    switch (what) {
                        case "changed": p.msgs.set(i, src.forged()); break;
                        case "added": p.msgs.add(i, src.forged()); break;
                        case "swapped":
                            if (p.msgs.size() < 2) {
                                return;
                            }
                            Collections.swap(p.msgs, i, (i + 1) % p.msgs.size());
                            break;
                        default: p.msgs.remove(i);
                    }
                    dst.refuse("messages " + what, one(2, p.encode()), -1);
                } else {
                    dst.refuse("messages of another place", one(2, proof(msgs, from, to).encode()), -1);
                }
                break;
            }
            case 14: { // messages of the next block with no block, or the ones of another block
                if (next != null && !next.msgs.isEmpty() && !next.msgs.equals(dst.cur().msgs)) {
                    dst.refuse("messages of the next block", one(2, proof(next.msgs, 0, next.msgs.size()).encode()), -1);
                }
                break;
            }
            default: { // the next block with messages that are not its own
                if (ready && !next.msgs.isEmpty()) {
                    List<byte[]> l = new ArrayList<>(next.msgs);
                    l.set(k.pick(l.size()), src.forged());
                    dst.refuse("block with other messages", list(list(list(num(1), bytes(src.update(next, src.sigs(next)))),
                            list(num(2), bytes(proof(l, 0, l.size()).encode())))), -1);
                    dst.refuse("messages before the block", list(list(list(num(2), bytes(proof(next.msgs, 0, next.msgs.size()).encode())),
                            list(num(1), bytes(src.update(next, src.sigs(next)))))), -1);
                    int part = 1 + k.pick(next.msgs.size());
                    byte[] pp = list(num(2), bytes(proof(next.msgs, 0, part).encode()));
                    dst.refuse("messages twice", list(list(list(num(1), bytes(src.update(next, src.sigs(next)))), pp, pp)), -1);
                    dst.refuse("block twice", list(list(list(num(1), bytes(src.update(next, src.sigs(next)))),
                            list(num(1), bytes(src.update(next, src.sigs(next)))))), -1);
                }
            }
        }
    }

    /** The header with the list of validators replaced. */
    static byte[] replace(byte[] good, byte[] what, byte[] by, byte[] like) {
        Rlp.Reader r = new Rlp.Reader(good);
        r.beginList();
        int body = good.length - (good[0] >= (byte) 0xf8 && good[0] < 0 && (good[0] & 0xff) >= 0xf8 ? 1 + (good[0] & 0xff) - 0xf7 : 1);
        byte[] b = Arrays.copyOfRange(good, good.length - body, good.length);
        if (b.length < what.length || !Arrays.equals(Arrays.copyOfRange(b, b.length - what.length, b.length), what)) {
            return null;
        }
        return list(Arrays.copyOf(b, b.length - what.length), by);
    }

    static byte[] mutate(Mon.Case k, byte[] m) {
        byte[] b = m.clone();
        switch (k.pick(6)) {
            case 0:
            case 1:
                for (int i = 1 + k.pick(2); i > 0; i--) {
                    b[k.pick(b.length)] ^= 1 << k.pick(8);
                }
                return b;
            case 2:
                b[k.pick(b.length)] = (byte) (int) k.of(0, 1, 127, 128, 255, 192, 129, 247, 248, 249);
                return b;
            case 3: {
                int i = k.pick(b.length);
                return cat(Arrays.copyOf(b, i), new byte[] {(byte) k.pick(256)}, Arrays.copyOfRange(b, i, b.length));
            }
            case 4: {
                int i = k.pick(b.length);
                return cat(Arrays.copyOf(b, i), Arrays.copyOfRange(b, i + 1, b.length));
            }
            default: {
                int i = k.pick(b.length), n = Math.min(1 + k.pick(40), b.length - i), j = k.pick(b.length - n + 1);
                System.arraycopy(m, i, b, j, n);
                return b;
            }
        }
    }

    /** A verifier that knows all blocks and none of the messages of the last one. */
    static Dst ready(Mon.Case k, Src src) {
        Dst dst = new Dst(k, src);
        while (dst.block + 1 < src.blocks.size()) {
            Block n = src.blocks.get(dst.block + 1);
            byte[][] r = dst.call(dst.bmc, dst.here(), dst.there(), dst.seq(), one(1, src.update(n, src.sigs(n))));
            k.check(r.length == 0, "messages", "a block alone returned messages");
            dst.block++;
        }
        return dst;
    }

    /** Proofs of messages made of all that is known, for blocks of all sizes. */
    static void proofs(Mon.Case k) {
        Src src = new Src(k, 1);
        int size = k.chance(50) ? 1 + k.pick(4) : 1 + k.pick(20);
        while (src.blocks.size() < 2 || src.blocks.get(src.blocks.size() - 1).msgs.isEmpty()) {
            src.produce(size);
        }
        Dst dst = ready(k, src);
        Block b = dst.cur();
        String size0 = b.msgs.size() + " messages; ";
        List<byte[]> hashes = new ArrayList<>();
        collect(leaves(b.msgs), hashes);
        hashes.add(new byte[0]);
        hashes.add(H("anything".getBytes()));
        List<byte[]> msgs = new ArrayList<>(b.msgs);
        for (byte[] m : b.msgs) {
            if (m.length == 64) {
                hashes.add(Arrays.copyOf(m, 32));
                hashes.add(Arrays.copyOfRange(m, 32, 64));
            }
        }
        msgs.add(src.forged());
        for (int i = 0; i < 4; i++) {
            msgs.add(cat(k.any(hashes), k.any(hashes)));
        }
        int tries = 0;
        while (tries < 600) {
            if (dst.left() == 0) {
                dst = ready(k, src);
            }
            for (int i = 0; i < 100 && dst.left() > 0; i++) {
                tries++;
                int from = (int) (dst.delivered - b.first);
                Proof p = k.chance(40) ? reread(k, src, b.msgs, from) : null;
                if (p != null) {
                    // another reading of the same hashes
                } else if (k.chance(70)) {
                    int to = from + 1 + k.pick(b.msgs.size() - from);
                    p = proof(b.msgs, from, to);
                    for (int j = 1 + k.pick(5); j > 0; j--) {
                        bend(k, p, hashes, msgs);
                    }
                } else {
                    p = new Proof();
                    for (int j = k.pick(4); j > 0; j--) {
                        p.left.add(new Node(count(k), k.any(hashes)));
                    }
                    for (int j = k.pick(4); j > 0; j--) {
                        p.msgs.add(k.any(msgs));
                    }
                    for (int j = k.pick(4); j > 0; j--) {
                        p.right.add(new Node(count(k), k.any(hashes)));
                    }
                }
                k.input(size0 + p);
                k.seen("shape", p, dst.left());
                dst.attempt("proof", one(2, p.encode()));
            }
            if (dst.left() > 0) {
                dst.honest(true);
            }
        }
    }

    /** A part of the tree: its hash, and what a message with that hash would be. */
    static final class Part {
        final byte[] v;
        final byte[] m;

        Part(byte[] v, byte[] m) {
            this.v = v;
            this.m = m;
        }
    }

    static void cutUp(Mon.Case k, Src src, List<byte[]> msgs, int deep, List<Part> out) {
        List<byte[]> l = leaves(msgs);
        if (msgs.size() == 1) {
            byte[] m = msgs.get(0);
            if (m.length == 64 && k.chance(60)) {
                for (byte[] h : new byte[][] {Arrays.copyOf(m, 32), Arrays.copyOfRange(m, 32, 64)}) {
                    out.add(new Part(h, Arrays.equals(h, H(src.forged())) ? src.forged() : null));
                }
            } else {
                out.add(new Part(l.get(0), m));
            }
            return;
        }
        int s = split(msgs.size());
        if (k.chance(deep)) {
            cutUp(k, src, msgs.subList(0, s), deep, out);
            cutUp(k, src, msgs.subList(s, msgs.size()), deep, out);
        } else {
            out.add(new Part(root(l), cat(root(l.subList(0, s)), root(l.subList(s, l.size())))));
        }
    }

    /** n as a sum of c numbers. */
    static int[] sum(Mon.Case k, int n, int c) {
        int[] r = new int[c];
        if (n < c) {
            for (int i = 0; i < n; i++) {
                r[k.pick(c)]++;
            }
            return r;
        }
        Arrays.fill(r, 1);
        for (int i = c; i < n; i++) {
            r[k.pick(c)]++;
        }
        if (c > 1 && k.chance(20)) {
            // some of nothing
            Arrays.fill(r, 0);
            int some = 1 + k.pick(c - 1);
            for (int i = 0; i < n; i++) {
                r[k.chance(50) ? k.pick(some) : c - 1 - k.pick(some)]++;
            }
        } else if (c > 1 && k.chance(50)) {
            // powers of two where that is possible
            int rest = n;
            for (int i = 0; i < c; i++) {
                int max = rest - (c - 1 - i);
                r[i] = i == c - 1 ? rest : Integer.highestOneBit(1 + k.pick(max));
                rest -= r[i];
            }
        }
        return r;
    }

    /** A proof of the same root with the tree read in another way: inner nodes as messages, messages as inner nodes. */
    static Proof reread(Mon.Case k, Src src, List<byte[]> msgs, int from) {
        List<Part> parts = new ArrayList<>();
        cutUp(k, src, msgs, k.of(40, 60, 80, 100), parts);
        List<Integer> can = new ArrayList<>();
        for (int i = 0; i < parts.size(); i++) {
            if (parts.get(i).m != null && (from == 0 ? i == 0 : i > 0 && (i <= from || k.chance(10)))) {
                can.add(i);
            }
        }
        if (can.isEmpty()) {
            return null;
        }
        int a = k.any(can), z = a + 1;
        while (z < parts.size() && parts.get(z).m != null && k.chance(40)) {
            z++;
        }
        int total = k.chance(85) ? msgs.size() : msgs.size() + k.of(1, -1, 2, -2, 4);
        int rest = total - from - (z - a), right = parts.size() - z;
        boolean none = k.chance(15) && rest >= 0;
        if (rest < right && !none || right == 0 && rest > 0) {
            return null;
        }
        Proof p = new Proof();
        int[] n = a == 0 ? new int[0] : sum(k, from, a);
        for (int i = 0; i < a; i++) {
            p.left.add(new Node(n[i], parts.get(i).v));
        }
        for (int i = a; i < z; i++) {
            p.msgs.add(parts.get(i).m);
        }
        n = right == 0 || rest == 0 ? new int[right] : sum(k, rest, right);
        for (int i = 0; i < right; i++) {
            p.right.add(new Node(n[i], parts.get(z + i).v));
        }
        return p;
    }

    static int count(Mon.Case k) { return k.chance(80) ? k.pick(8) - 3 : k.of(16, 64, 1 << 30, Integer.MAX_VALUE, Integer.MIN_VALUE, -(1 << 30)); }

    static void collect(List<byte[]> l, List<byte[]> out) {
        out.add(root(l));
        if (l.size() > 1) {
            int s = split(l.size());
            collect(l.subList(0, s), out);
            collect(l.subList(s, l.size()), out);
        }
    }

    static void bend(Mon.Case k, Proof p, List<byte[]> hashes, List<byte[]> msgs) {
        List<Node> l = k.chance(50) ? p.left : p.right;
        switch (k.pick(9)) {
            case 0: l.add(k.pick(l.size() + 1), new Node(count(k), k.any(hashes))); break;
            case 1: {
                int c = count(k);
                l.add(k.pick(l.size() + 1), new Node(c, k.any(hashes)));
                l = k.chance(50) ? p.left : p.right;
                l.add(k.pick(l.size() + 1), new Node(-c, k.any(hashes)));
                break;
            }
            case 2: { // neutral on the left: a negative and a positive one
                int c = 1 + k.pick(3);
                p.left.add(0, new Node(c, k.any(hashes)));
                p.left.add(0, new Node(-c, k.any(hashes)));
                break;
            }
            case 3: { // one more message and one less on the right
                p.msgs.add(k.pick(p.msgs.size() + 1), k.any(msgs));
                p.right.add(new Node(-1, k.any(hashes)));
                break;
            }
            case 4:
                if (!l.isEmpty()) {
                    int i = k.pick(l.size());
                    l.set(i, new Node(l.get(i).n + k.of(1, -1, 2, -2), l.get(i).v));
                }
                break;
            case 5:
                if (!l.isEmpty()) {
                    l.remove(k.pick(l.size()));
                }
                break;
            case 6:
                if (!p.msgs.isEmpty()) {
                    p.msgs.set(k.pick(p.msgs.size()), k.any(msgs));
                }
                break;
            case 7:
                if (!p.msgs.isEmpty()) {
                    int i = k.pick(p.msgs.size());
                    p.msgs.add(i, p.msgs.get(i));
                }
                break;
            default:
                if (p.msgs.size() > 1) {
                    p.msgs.remove(k.pick(p.msgs.size()));
                } else {
                    l.add(new Node(0, k.any(hashes)));
                }
        }
    }

    static void first(Mon.Case k) {
        Src src = new Src(k, 4);
        src.produce(3);
        Chain chain = new Chain("0xd.icon");
        Address owner = chain.newAddress(false), bmc = chain.newAddress(true);
        Block b = src.blocks.get(1);
        b.changed = true;
        byte[] hd = src.header(b);
        Block f = src.blocks.get(0);
        byte[] other = replace(src.header(f), bytes(f.nextPC), bytes(proofContext(outsiders(src, f).subList(0, 2))), null);
        for (byte[] h : other == null ? new byte[][] {hd} : new byte[][] {hd, other}) {
            boolean ok = false;
            try {
                chain.deploy(owner, () -> new foundation.icon.btp.bmv.btpblock.BTPMessageVerifier(src.srcId, src.type, bmc, h, BigInteger.ZERO));
            } catch (RevertedException | foundation.icon.btp.lib.BTPException e) {
                ok = true;
            }
            k.check(ok, "deployed", "a verifier starts from a header that is not the first of its network or names other validators than it says: " + hex(h));
        }
        // nobody may sign
        Src none = new Src(k, 4);
        f = none.blocks.get(0);
        f.nextPC = none.pc = list(list());
        f.nsHash = none.nsHash(f, none.nid);
        none.produce(3);
        Block n = none.blocks.get(1);
        Dst dst = new Dst(k, none);
        List<byte[]> s = new ArrayList<>();
        for (int i = k.pick(3); i >= 0; i--) {
            s.add(sign(KEYS.get(i), none.decision(n)));
        }
        dst.refuse("signed by anybody", one(1, none.update(n, s)), -1);
        dst.refuse("signed by nobody", one(1, none.update(n, new ArrayList<>())), -1);
    }

    /** Every number of validators with every number of signatures. */
    static void quorum(Mon.Case k) {
        if (k.n % 4 == 0) {
            first(k);
        }
        int n = 1 + k.n % 12;
        Src src = new Src(k, n);
        List<BigInteger> l = new ArrayList<>(KEYS);
        Collections.shuffle(l, k.r);
        Block b = src.blocks.get(0);
        src.validators = l.subList(0, n);
        b.nextPC = src.pc = proofContext(src.validators);
        b.nsHash = src.nsHash(b, src.nid);
        src.produce(3);
        Block next = src.blocks.get(1);
        Dst dst = new Dst(k, src);
        k.input(n + " validators");
        for (int s = 0; s <= n; s++) {
            byte[] m = one(1, src.update(next, src.sigs(next, s)));
            k.seen("quorum", n, s);
            if (3 * s <= 2 * n) {
                dst.refuse("quorum " + s + " of " + n, m, -1);
                if (s > 0) {
                    List<byte[]> d = src.sigs(next, s);
                    while (d.size() <= n) {
                        d.add(k.pick(d.size()), k.any(d));
                    }
                    dst.refuse("quorum twice", one(1, src.update(next, d)), -1);
                }
                continue;
            }
            Dst x = new Dst(k, src);
            try {
                x.call(x.bmc, x.here(), x.there(), x.seq(), m);
            } catch (RevertedException e) {
                k.fail("quorum", s + " of " + n + " validators signed and the block was refused: " + e.getMessage());
            }
            x.block = 1;
            x.status("quorum");
        }
    }

    // ------------------------------------------------------------------ the bridge

    static final class Ev {
        String next;
        long seq;
        byte[] msg;

        byte[] encode() { return list(bytes(next.getBytes()), num(seq), bytes(msg)); }
    }

    static void bridge(Mon.Case k) {
        Chain chain = new Chain("0xd.icon");
        Address owner = chain.newAddress(false), bmc = chain.newAddress(true);
        String net = "0x" + (1 + k.pick(9)) + ".bsc";
        long start = k.chance(80) ? k.pick(1000) : 0xfffffff0L + k.pick(1000);
        Address bmv = chain.deploy(owner, () -> new foundation.icon.btp.bmv.bridge.BTPMessageVerifier(bmc, net, BigInteger.valueOf(start)));
        String here = "btp://" + chain.net + "/" + bmc, there = "btp://" + net + "/0x" + "0123456789012345678901234567890123456789";
        long height = start, seq = k.chance(50) ? 0 : k.pick(500);
        k.input("height " + start + " sequence " + seq + ";");
        long[] sent = {seq};
        List<Ev> past = new ArrayList<>();
        for (int step = 0; step < 6; step++) {
            // what a relay could bring: events in order, possibly with old ones or old blocks among them
            List<byte[]> proofs = new ArrayList<>();
            List<byte[]> want = new ArrayList<>();
            long h = height, next = seq + 1;
            boolean gap = false;
            StringBuilder what = new StringBuilder();
            for (int i = k.pick(5); i > 0; i--) {
                boolean low = k.chance(12) && h > 0;
                long ph = low ? h - 1 - k.pick((int) Math.min(h, 5)) : h + k.pick(3);
                List<byte[]> evs = new ArrayList<>();
                what.append(" proof ").append(ph).append('[');
                long n = next;
                for (int j = k.pick(5); j > 0; j--) {
                    Ev e = new Ev();
                    e.next = here;
                    e.msg = new byte[k.pick(30)];
                    k.r.nextBytes(e.msg);
                    if (k.chance(12)) {
                        e.seq = Math.max(0, n - 1 - k.pick(4));
                    } else if (k.chance(3)) {
                        e.seq = n + 1 + k.pick(3);
                    } else {
                        e.seq = n;
                    }
                    what.append(e.seq).append(' ');
                    evs.add(e.encode());
                    if (low || gap) {
                        if (low && e.seq == n) {
                            n++;
                        }
                        continue;
                    }
                    if (e.seq == n) {
                        want.add(e.msg);
                        n++;
                    } else if (e.seq > n) {
                        gap = true;
                    }
                }
                what.append(']');
                if (!low) {
                    h = ph;
                    next = n;
                }
                proofs.add(bytes(list(num(k.pick(20)), bytes(list(evs)), num(ph))));
            }
            byte[] msg = list(list(proofs));
            k.add(what.toString());
            k.seen("bridge", what.length() / 4, gap, want.size());
            BigInteger s = BigInteger.valueOf(seq);
            if (k.chance(15)) {
                int x = k.pick(3);
                Address from = x == 0 ? owner : bmc;
                String cur = x == 1 ? "btp://" + chain.net + "/" + owner : here;
                String prev = x == 2 ? "btp://" + k.of("0xee.bsc", net + "x", "x" + net, net.substring(1)) + "/0x00" : there;
                refuse(k, chain, from, bmv, cur, prev, s, msg, new String[] {"caller", "bmc", "prev"}[x], 25);
            }
            if (k.chance(10)) {
                byte[] cut = Arrays.copyOf(msg, k.pick(msg.length));
                refuse(k, chain, bmc, bmv, here, there, s, cut, "cut", -1);
            }
            if (gap) {
                refuse(k, chain, bmc, bmv, here, there, s, msg, "gap", 26);
                continue;
            }
            byte[][] r;
            try {
                r = (byte[][]) chain.tx(bmc, BigInteger.ZERO, bmv, "handleRelayMessage", here, there, s, msg);
            } catch (RevertedException e) {
                k.fail("refused", "a relay message was refused: " + e.getMessage() + what);
                return;
            }
            boolean same = r.length == want.size();
            for (int i = 0; same && i < r.length; i++) {
                same = Arrays.equals(r[i], want.get(i));
            }
            k.check(same, "messages", "returned " + Dst.text(r) + "; expected " + Dst.text(want.toArray(new byte[0][])) + what);
            k.count("messages", r.length);
            seq += r.length;
            height = h;
            foundation.icon.btp.lib.BMVStatus st = (foundation.icon.btp.lib.BMVStatus) chain.tx(owner, BigInteger.ZERO, bmv, "getStatus");
            k.check(st.getHeight() == height, "height", "height " + st.getHeight() + " in place of " + height + what);
        }
    }

    static void refuse(Mon.Case k, Chain chain, Address from, Address bmv, String cur, String prev, BigInteger seq, byte[] msg, String what, int code) {
        String before = chain.dump();
        k.count("hostile", 1);
        try {
            chain.tx(from, BigInteger.ZERO, bmv, "handleRelayMessage", cur, prev, seq, msg);
        } catch (UserRevertedException e) {
            k.check(code < 0 || e.getCode() == code, "code:" + what, "refused with code " + e.getCode() + " in place of " + code);
            k.check(before.equals(chain.dump()), "state:" + what, "the state changed");
            return;
        } catch (RevertedException e) {
            k.check(code < 0, "code:" + what, "failed in place of code " + code + ": " + e.getMessage());
            return;
        }
        k.fail("accepted:" + what, hex(msg));
    }
}
