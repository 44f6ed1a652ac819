package h;

import static h.Enc.bytes;
import static h.Enc.list;
import static h.Enc.num;

import foundation.icon.btp.nativecoin.NativeCoinService__Rec;
import foundation.icon.btp.nativecoin.irc31.OwnerBasedIRC31Supplier__Rec;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.TreeSet;
import score.Address;
import score.RevertedException;
import vm.Chain;
import vm.Crypto;
import vm.Rlp;

/**
 * The coin service and its tokens: networks with the real contracts, a message centre that is
 * part of the harness, and a model of every balance; and at the end, whether all coins that
 * went abroad are backed by coins kept at home.
 */
public final class G {
    static final BigInteger O = BigInteger.ZERO, RICH = BigInteger.TEN.pow(9), ALL = BigInteger.valueOf(10000);
    static final String[] NETS = {"0x1.icon", "0x2.icon", "0x3.bsc"}, NAMES = {"ICX", "MOON", "BNB"}, ALLNAMES = {"ICX", "MOON", "BNB", "FOO"};
    static final String SVC = "nativecoin";

    public static void run(Mon m) {
        statics();
        m.group("coins", m.n(260, 5000), k -> coins(k, 70));
        m.group("long", m.n(8, 100), k -> coins(k, 600));
        m.group("tokens", m.n(120, 2000), k -> tokens(k, 50));
    }

    static final class Refused extends RuntimeException {
        Refused() { super("refused", null, false, false); }
    }

    static final class Msg {
        String from, to;
        BigInteger sn;
        byte[] payload;
        String error;
    }

    static final class Tx {
        Address from;
        String to;
        List<String> coins = new ArrayList<>();
        List<BigInteger> amounts = new ArrayList<>(), fees = new ArrayList<>();
    }

    // ---- objects kept in static fields: on the platform, part of each contract's own state

    static final Map<Field, Map<Field, Object>> STATICS = new LinkedHashMap<>();

    static void statics() {
        try {
            Class<?> c = Class.forName("foundation.icon.btp.nativecoin.NCSProperties");
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) && f.getType() == c) {
                    f.setAccessible(true);
                    Map<Field, Object> m = new LinkedHashMap<>();
                    for (Field g : c.getDeclaredFields()) {
                        if (!Modifier.isStatic(g.getModifiers()) && !Modifier.isFinal(g.getModifiers())) {
                            g.setAccessible(true);
                            m.put(g, g.get(f.get(null)));
                        }
                    }
                    STATICS.put(f, m);
                }
            }
        } catch (ReflectiveOperationException | RuntimeException e) {
            // none
        }
    }

    static void restore() {
        try {
            for (Map.Entry<Field, Map<Field, Object>> e : STATICS.entrySet()) {
                for (Map.Entry<Field, Object> g : e.getValue().entrySet()) {
                    g.getKey().set(e.getKey().get(null), g.getValue());
                }
            }
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    static BigInteger id(String coin) { return new BigInteger(Crypto.hash("sha3-256", coin.getBytes())); }

    static byte[] str(String s) { return bytes(s.getBytes()); }

    static Address address(String s) {
        try {
            return Address.fromString(s);
        } catch (RuntimeException e) {
            return null;
        }
    }

    static final class Node {
        final Mon.Case k;
        final Chain chain;
        final String name;
        final Address owner, bmc, svc, tok;
        final List<Address> people = new ArrayList<>(), dapps = new ArrayList<>();
        final TreeSet<String> routes = new TreeSet<>();
        boolean broken;
        Address mode;         // the contract that refuses
        Object[] again;       // what a contract tries while it is paid
        // the model
        TreeMap<String, BigInteger> v = new TreeMap<>();
        BigInteger sn = O, ratio = BigInteger.TEN;
        List<String> coins = new ArrayList<>();
        TreeSet<String> owners = new TreeSet<>();
        Map<BigInteger, Tx> pending = new TreeMap<>();
        TreeSet<String> approved = new TreeSet<>();
        List<String> want = new ArrayList<>();
        List<Msg> sent = new ArrayList<>();

        Node(Mon.Case k, int n) {
            this.k = k;
            chain = new Chain(NETS[n]);
            name = NAMES[n];
            owner = chain.newAddress(false);
            bmc = chain.newAddress(true);
            chain.registerAt(bmc, (Chain.Native) this::centre);
            tok = chain.deploy(owner, OwnerBasedIRC31Supplier__Rec::new);
            restore();
            svc = chain.deploy(owner, () -> new NativeCoinService__Rec(bmc, tok, name));
            for (int i = 0; i < 3; i++) {
                people.add(chain.newAddress(false));
            }
            for (int i = 0; i < 2; i++) {
                Address d = chain.newAddress(true);
                chain.registerAt(d, (Chain.Native) this::dapp);
                dapps.add(d);
            }
            people.add(owner);
            owners.add("" + owner);
            for (Address a : users()) {
                chain.mint(a, RICH);
                v.put("n " + a, RICH);
            }
        }

        List<Address> users() {
            List<Address> l = new ArrayList<>(people);
            l.addAll(dapps);
            return l;
        }

        List<Address> all() {
            List<Address> l = users();
            l.add(bmc);
            l.add(svc);
            l.add(tok);
            return l;
        }

        Object centre(String m, Object[] p) {
            switch (m) {
                case "getBtpAddress": return "btp://" + chain.net + "/" + bmc;
                case "sendMessage":
                    if (broken || !routes.contains(p[0]) || !p[1].equals(SVC)) {
                        throw new Chain.Revert(10, "refused");
                    }
                    Chain.event("sent", p[0], p[2], p[3]);
                    return BigInteger.ONE;
                default: throw new Chain.Revert(1, m);
            }
        }

        Object dapp(String m, Object[] p) {
            if (!m.equals("fallback") && !m.startsWith("onIRC31")) {
                throw new RevertedException("no such method");
            }
            if (Chain.frame().self.equals(mode)) {
                throw new Chain.Revert(7, "refused");
            }
            if (again != null) {
                Object[] a = again;
                again = null;
                try {
                    chain.call(O, svc, "reclaim", a);
                    Chain.event("reclaimed again", a);
                } catch (RevertedException e) {
                    // as it has to be
                }
            }
            return null;
        }

        // ---- the model

        BigInteger get(String key) { return v.getOrDefault(key, O); }

        void add(String key, BigInteger x) {
            BigInteger n = get(key).add(x);
            if (n.signum() < 0) {
                throw new Refused();
            }
            v.put(key, n);
        }

        void need(boolean ok) {
            if (!ok) {
                throw new Refused();
            }
        }

        boolean known(Address a) { return !a.isContract() || dapps.contains(a) && !a.equals(mode); }

        void pay(Address from, Address to, BigInteger x) {
            add("n " + from, x.negate());
            add("n " + to, x);
        }

        void token(Address from, Address to, String coin, BigInteger x) {
            need(x.signum() >= 0);
            add("t " + coin + " " + from, x.negate());
            add("t " + coin + " " + to, x);
        }

        void mSend(Address from, String to, List<String> names, List<BigInteger> amounts) {
            int i = to.indexOf("://"), j = i < 0 ? -1 : to.indexOf('/', i + 3);
            need(i > 0 && j > i + 3 && j + 1 < to.length());
            String net = to.substring(i + 3, j), acc = to.substring(j + 1);
            need(routes.contains(net) && !broken);
            Tx t = new Tx();
            t.from = from;
            t.to = to;
            List<byte[]> assets = new ArrayList<>(), details = new ArrayList<>();
            for (int n = 0; n < names.size(); n++) {
                BigInteger a = amounts.get(n), fee = a.multiply(ratio).divide(ALL);
                fee = fee.signum() == 0 ? BigInteger.ONE : fee;
                BigInteger x = a.subtract(fee);
                need(x.signum() > 0);
                add("l " + names.get(n) + " " + from, a);
                t.coins.add(names.get(n));
                t.amounts.add(x);
                t.fees.add(fee);
                assets.add(list(str(names.get(n)), num(x)));
                details.add(list(str(names.get(n)), num(x), num(fee)));
            }
            sn = sn.add(BigInteger.ONE);
            pending.put(sn, t);
            want.add("sent " + net + " " + sn + " " + Crypto.hex(list(num(0), bytes(list(str(from.toString()), str(acc), list(assets))))));
            want.add("TransferStart " + from + " " + to + " " + sn + " " + Crypto.hex(list(details)));
        }

        void mRequest(String net, BigInteger s, String to, List<String> names, List<BigInteger> amounts) {
            Address a = address(to);
            need(a != null);
            BigInteger home = O;
            boolean tokens = false;
            for (int i = 0; i < names.size(); i++) {
                BigInteger x = amounts.get(i);
                need(x != null && x.signum() > 0);
                if (coins.contains(names.get(i))) {
                    tokens = true;
                    add("t " + names.get(i) + " " + a, x);
                    add("s " + names.get(i), x);
                } else {
                    need(name.equals(names.get(i)));
                    home = home.add(x);
                }
            }
            need(!tokens || known(a) || a.equals(svc));
            if (home.signum() > 0) {
                need(known(a));
                pay(svc, a, home);
            }
            need(routes.contains(net) && !broken);
            want.add("sent " + net + " " + s + " ok");
        }

        void mEnd(BigInteger s, boolean ok) {
            Tx t = pending.remove(s);
            if (t == null) {
                return;
            }
            for (int i = 0; i < t.coins.size(); i++) {
                String c = t.coins.get(i);
                BigInteger x = t.amounts.get(i), f = t.fees.get(i);
                add("l " + c + " " + t.from, x.add(f).negate());
                if (!ok) {
                    add("r " + c + " " + t.from, x.add(f));
                    continue;
                }
                add("f " + c, f);
                if (!c.equals(name)) {
                    add("t " + c + " " + svc, x.negate());
                    add("s " + c, x.negate());
                }
            }
            want.add("TransferEnd " + t.from + " " + s + " " + ok);
        }

        // ---- the comparison

        List<String> happened() {
            List<String> l = new ArrayList<>();
            for (Chain.Event e : chain.takeEvents()) {
                Object[] a = e.args;
                switch (e.name) {
                    case "sent": {
                        Msg m = new Msg();
                        m.from = chain.net;
                        m.to = (String) a[0];
                        m.sn = (BigInteger) a[1];
                        m.payload = (byte[]) a[2];
                        sent.add(m);
                        String text = Crypto.hex(m.payload);
                        try {
                            Rlp.Reader r = new Rlp.Reader(m.payload);
                            r.beginList();
                            int type = r.readInt();
                            if (type == 2 || type == 3) {
                                Rlp.Reader q = new Rlp.Reader(r.readByteArray());
                                q.beginList();
                                BigInteger code = q.readBigInteger();
                                text = type == 3 ? "unknown" : code.signum() == 0 ? "ok" : "failed";
                            }
                        } catch (RuntimeException x) {
                            // shown as it is
                        }
                        l.add("sent " + m.to + " " + m.sn + " " + text);
                        break;
                    }
                    case "TransferStart": l.add("TransferStart " + a[0] + " " + a[1] + " " + a[2] + " " + Crypto.hex((byte[]) a[3])); break;
                    case "TransferEnd": l.add("TransferEnd " + a[0] + " " + a[1] + " " + (((BigInteger) a[2]).signum() == 0)); break;
                    case "TransferSingle":
                    case "TransferBatch":
                    case "ApprovalForAll":
                    case "URI": break;
                    default: l.add(e.name + " " + Enc.show(a));
                }
            }
            return l;
        }

        boolean op(String sig, Address from, BigInteger value, Address at, Runnable model, String method, Object... params) {
            k.add("\n" + chain.net + " " + from + " +" + value + " " + (at.equals(tok) ? "token." : "") + method + Mon.cut(Enc.show(params), 400)
                    + (broken ? " broken" : "") + (mode != null ? " mode " + mode : ""));
            TreeMap<String, BigInteger> v0 = new TreeMap<>(v);
            Map<BigInteger, Tx> p0 = new TreeMap<>(pending);
            List<String> c0 = new ArrayList<>(coins);
            TreeSet<String> a0 = new TreeSet<>(approved);
            BigInteger s0 = sn, r0 = ratio;
            want.clear();
            boolean ok = true;
            try {
                pay(from, at, value);
                model.run();
            } catch (Refused e) {
                ok = false;
                v = v0;
                pending = p0;
                coins = c0;
                approved = a0;
                sn = s0;
                ratio = r0;
                want.clear();
            }
            chain.takeEvents();
            restore();
            String before = chain.dump(), err = "";
            boolean done = true;
            try {
                chain.signer = k.chance(20) ? k.any(people) : null;
                chain.tx(from, value, at, method, params);
            } catch (RevertedException e) {
                done = false;
                err = e.toString();
            } finally {
                chain.signer = null;
            }
            k.count(method + (ok ? "" : " refused"), 1);
            k.seen(sig, method, ok, want.size(), broken, mode != null, v.size(), pending.size());
            k.check(ok == done, (ok ? "refused:" : "accepted:") + sig, (ok ? "refused: " + err : "was taken") + " " + method + Enc.show(params));
            if (!done) {
                k.check(before.equals(chain.dump()), "state:" + sig, "a refused call changed the state");
            }
            List<String> got = happened(), w = new ArrayList<>(want);
            Collections.sort(got);
            Collections.sort(w);
            k.check(got.equals(w), "effects:" + sig, "expected " + w + "\nobserved " + got);
            view(sig);
            return done;
        }

        Object read(Address at, String m, Object... p) {
            restore();
            return chain.tx(people.get(0), O, at, m, p);
        }

        static BigInteger field(Object o, String f) {
            try {
                return (BigInteger) o.getClass().getMethod("get" + f).invoke(o);
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
        }

        BigInteger supply(String coin) {
            try {
                return (BigInteger) read(tok, "totalSupply", id(coin));
            } catch (RevertedException e) {
                return O;
            }
        }

        void eq(String sig, String what, BigInteger is, BigInteger want) {
            k.check(want.equals(is), sig, what + " is " + is + " in place of " + want);
        }

        void view(String sig) {
            for (Address a : all()) {
                eq("balance:" + sig, "the balance of " + a + (a.equals(svc) ? " (the service)" : ""), chain.balance(a), get("n " + a));
            }
            String c = k.any(List.of(NAMES));
            List<String> names = k.chance(10) ? List.of(NAMES) : List.of(c);
            for (String n : names) {
                List<Address> l = all();
                if (names.size() == 1) {
                    l = List.of(svc, k.any(users()));
                }
                for (Address a : l) {
                    eq("tokens:" + sig, "the " + n + " of " + a + (a.equals(svc) ? " (the service)" : ""), (BigInteger) read(tok, "balanceOf", a, id(n)), get("t " + n + " " + a));
                    Object b = read(svc, "balanceOf", a, n);
                    if (a.equals(svc)) {
                        eq("fees:" + sig, "fees in " + n, field(b, "Refundable"), get("f " + n));
                    } else {
                        eq("locked:" + sig, "locked " + n + " of " + a, field(b, "Locked"), get("l " + n + " " + a));
                        eq("refundable:" + sig, "refundable " + n + " of " + a, field(b, "Refundable"), get("r " + n + " " + a));
                    }
                }
                eq("supply:" + sig, "the supply of " + n, supply(n), get("s " + n));
            }
            eq("ratio:" + sig, "the fee ratio", (BigInteger) read(svc, "feeRatio"), ratio);
            if (k.chance(10)) {
                List<String> w = new ArrayList<>();
                w.add(name);
                w.addAll(coins);
                k.check(w.equals(List.of((Object[]) read(svc, "coinNames"))), "names:" + sig, Enc.show(read(svc, "coinNames")) + " in place of " + w);
                Object i = read(svc, "coinId", c);
                String x = c.equals(name) ? "0".repeat(64) : coins.contains(c) ? Crypto.hex(Crypto.hash("sha3-256", c.getBytes())) : null;
                k.check(x == null ? i == null : x.equals(i), "id", "the number of " + c + " is " + i + " in place of " + x);
            }
            if (k.chance(20)) {
                BigInteger s = BigInteger.valueOf(k.pick(sn.intValue() + 2));
                Tx t = pending.get(s);
                Object o = read(svc, "getTransaction", s);
                k.check((t == null) == (o == null), "pending", "transfer " + s + " is " + o);
                if (t != null) {
                    String text = String.valueOf(o);
                    k.check(text.contains("'" + t.from + "'") && text.contains("'" + t.to + "'"), "pending", "transfer " + s + " is " + o);
                }
            }
        }
    }

    static void coins(Mon.Case k, int steps) {
        Map<String, Node> ns = new LinkedHashMap<>();
        k.input("");
        for (int i = 0; i < NETS.length; i++) {
            ns.put(NETS[i], new Node(k, i));
        }
        List<Node> nodes = new ArrayList<>(ns.values());
        boolean forged = k.chance(30); // requests of a network that cheats
        for (Node n : nodes) {
            n.op("owner", n.owner, O, n.tok, () -> { }, "addOwner", n.svc);
            for (String o : NETS) {
                if (!o.equals(n.chain.net)) {
                    n.routes.add(o);
                }
            }
            for (String c : NAMES) {
                if (!c.equals(n.name) && k.chance(85)) {
                    register(n, n.owner, c);
                }
            }
            if (k.chance(40)) {
                ratio(k, n, n.owner);
            }
            for (Address a : n.users()) {
                if (k.chance(60)) {
                    n.op("approve", a, O, n.tok, () -> n.approved.add("" + a), "setApprovalForAll", n.svc, true);
                }
                if (k.chance(30)) {
                    // tokens the service does not know, or that have the name of the coin of this network
                    String c = k.of("FOO", n.name);
                    BigInteger x = BigInteger.valueOf(1 + k.pick(50000));
                    n.op("mint", n.owner, O, n.tok, () -> {
                        n.add("t " + c + " " + a, x);
                        n.add("s " + c, x);
                    }, "mint", a, id(c), x);
                }
            }
        }
        List<Msg> wire = new ArrayList<>();
        for (int i = 0; i < steps; i++) {
            Node n = k.any(nodes);
            n.broken = k.chance(3);
            n.mode = k.chance(8) ? k.any(n.dapps) : null;
            int x = k.pick(100);
            if (x < 15) {
                send(k, ns, n, 0);
            } else if (x < 27) {
                send(k, ns, n, 1);
            } else if (x < 40) {
                send(k, ns, n, 2);
            } else if (x < 66) {
                if (wire.isEmpty()) {
                    continue;
                }
                deliver(k, ns, wire.remove(k.pick(wire.size())), wire, true);
            } else if (x < 80) {
                reclaim(k, n);
            } else if (x < 88) {
                Address a = k.any(n.users());
                if (k.chance(60)) {
                    boolean on = k.chance(85);
                    n.op("approve", a, O, n.tok, () -> {
                        n.approved.remove("" + a);
                        if (on) {
                            n.approved.add("" + a);
                        }
                    }, "setApprovalForAll", n.svc, on);
                } else {
                    Address to = k.any(n.users()), by = k.chance(80) ? a : k.any(n.people);
                    String c = k.of(NAMES);
                    BigInteger v = amount(k, n.get("t " + c + " " + a));
                    n.op("token", by, O, n.tok, () -> {
                        n.need(by.equals(a) && v.signum() >= 0 && n.known(to));
                        n.token(a, to, c, v);
                    }, "transferFrom", a, to, id(c), v, null);
                }
            } else if (x < 92) {
                Address by = k.chance(50) ? n.owner : k.any(n.all());
                if (k.chance(25)) {
                    owner(k, n, n.svc, n.owners, by);
                } else if (k.chance(50)) {
                    ratio(k, n, by);
                } else {
                    register(n, by, k.of(NAMES));
                }
            } else {
                hostile(k, n, forged);
            }
            n.again = null;
            collect(nodes, wire);
        }
        // everything arrives
        for (Node n : nodes) {
            n.broken = false;
            n.mode = null;
        }
        for (int i = 0; !wire.isEmpty() && i < 10000; i++) {
            deliver(k, ns, wire.remove(0), wire, false);
            collect(nodes, wire);
        }
        for (Node n : nodes) {
            for (BigInteger s : n.pending.keySet()) {
                k.fail("unfinished", "transfer " + s + " of " + n.chain.net + " never ended");
            }
            BigInteger owed = O;
            for (Address a : n.all()) {
                for (String c : NAMES) {
                    Object b = n.read(n.svc, "balanceOf", a, c);
                    n.eq("locked at the end", "locked " + c + " of " + a, Node.field(b, "Locked"), O);
                    if (c.equals(n.name)) {
                        owed = owed.add(Node.field(b, "Refundable"));
                    }
                }
            }
            for (Node o : nodes) {
                if (o != n) {
                    owed = owed.add(o.supply(n.name));
                }
            }
            if (!forged) {
                k.check(owed.equals(n.chain.balance(n.svc)), "backing", n.chain.net + " keeps " + n.chain.balance(n.svc) + " " + n.name + " for " + owed
                        + " that it owes or that are abroad");
            }
        }
        k.count("ends with everything backed", forged ? 0 : 1);
    }

    static void collect(List<Node> nodes, List<Msg> wire) {
        for (Node n : nodes) {
            wire.addAll(n.sent);
            n.sent.clear();
        }
    }

    static BigInteger amount(Mon.Case k, BigInteger have) {
        switch (k.pick(8)) {
            case 0: return BigInteger.valueOf(k.of(-5, -1, 0, 1, 2, 3));
            case 1: return have;
            case 2: return have.add(BigInteger.ONE);
            case 3: return BigInteger.valueOf(k.of(999, 1000, 1001, 9999, 10000, 10001, 1999, 2000));
            default: return have.signum() > 0 ? BigInteger.valueOf(1 + k.pick((int) Math.min(have.longValue(), 50000))) : BigInteger.valueOf(k.pick(50000));
        }
    }

    static void register(Node n, Address by, String c) {
        n.op("register", by, O, n.svc, () -> {
            n.need(n.owners.contains("" + by) && !c.equals(n.name) && !n.coins.contains(c));
            n.coins.add(c);
        }, "register", c);
    }

    static void owner(Mon.Case k, Node n, Address at, TreeSet<String> owners, Address by) {
        Address o = k.any(n.users());
        boolean put = k.chance(60), may = owners.contains("" + by);
        boolean done = n.op("owners", by, O, at, () -> n.need(may && (put ? !owners.contains("" + o) : owners.contains("" + o) && !o.equals(n.owner))),
                put ? "addOwner" : "removeOwner", o);
        if (done && put) {
            owners.add("" + o);
        } else if (done) {
            owners.remove("" + o);
        }
        TreeSet<String> shown = new TreeSet<>();
        Address[] l = (Address[]) n.read(at, "getOwners");
        for (Address x : l) {
            shown.add("" + x);
        }
        k.check(shown.equals(owners) && l.length == owners.size(), "owners", Enc.show(l) + " in place of " + owners);
        Address one = k.any(n.all());
        k.check(n.read(at, "isOwner", one).equals(owners.contains("" + one)), "owners", one + " is shown as owner, or not, wrongly");
    }

    static void ratio(Mon.Case k, Node n, Address by) {
        BigInteger r = BigInteger.valueOf(k.of(-1, 0, 1, 2, 10, 100, 5000, 9999, 10000, 10001));
        n.op("ratio", by, O, n.svc, () -> {
            n.need(n.owners.contains("" + by) && r.signum() > 0 && r.compareTo(ALL) < 0);
            n.ratio = r;
        }, "setFeeRatio", r);
    }

    static void send(Mon.Case k, Map<String, Node> ns, Node n, int kind) {
        List<Address> rich = new ArrayList<>();
        for (Address a : n.users()) {
            for (String c : NAMES) {
                if (n.get("t " + c + " " + a).signum() > 0 && n.approved.contains("" + a)) {
                    rich.add(a);
                }
            }
        }
        Address from = kind > 0 && !rich.isEmpty() && k.chance(90) ? k.any(rich) : k.any(n.users());
        String net = k.chance(96) ? k.any(new ArrayList<>(n.routes)) : k.of("0x9.none", "", n.chain.net);
        Node d = ns.get(net);
        String acc = d == null ? "x" : k.chance(88) ? k.any(d.users()).toString() : k.of("0x1234", "cx01", "", d.svc.toString(), d.tok.toString(), d.chain.newAddress(true).toString());
        String to = (k.chance(97) ? "btp://" : k.of("", "://", "btp:/")) + net + "/" + acc;
        if (kind == 0) {
            BigInteger v = amount(k, BigInteger.valueOf(40000)).max(O);
            n.op("transferNativeCoin", from, v, n.svc, () -> {
                n.need(v.signum() > 0);
                n.mSend(from, to, List.of(n.name), List.of(v));
            }, "transferNativeCoin", to);
            return;
        }
        List<String> some = new ArrayList<>();
        for (String c : ALLNAMES) {
            if (n.get("t " + c + " " + from).signum() > 0) {
                some.add(c);
            }
        }
        if (kind == 1) {
            String c = k.chance(85) && !some.isEmpty() ? k.any(some) : k.of(NAMES[0], NAMES[1], NAMES[2], "FOO");
            BigInteger v = amount(k, n.get("t " + c + " " + from));
            n.op("transfer", from, O, n.svc, () -> {
                n.need(v.signum() > 0 && n.coins.contains(c) && n.approved.contains("" + from));
                n.token(from, n.svc, c, v);
                n.mSend(from, to, List.of(c), List.of(v));
            }, "transfer", c, v, to);
            return;
        }
        int len = k.pick(4);
        List<String> names = new ArrayList<>();
        List<BigInteger> values = new ArrayList<>();
        for (int i = 0; i < len; i++) {
            String c = k.chance(92) && !some.isEmpty() ? k.any(some) : k.of(NAMES[0], NAMES[1], NAMES[2], "FOO");
            names.add(c);
            values.add(amount(k, n.get("t " + c + " " + from).divide(BigInteger.TWO)));
        }
        if (k.chance(4)) {
            values.add(BigInteger.TEN);
        }
        BigInteger v = k.chance(50) ? O : amount(k, BigInteger.valueOf(40000)).max(O);
        n.op("transferBatch", from, v, n.svc, () -> {
            n.need(names.size() == values.size() && n.coins.containsAll(names));
            n.need(n.approved.contains("" + from)); // even for none
            for (int i = 0; i < names.size(); i++) {
                n.token(from, n.svc, names.get(i), values.get(i));
            }
            List<String> a = new ArrayList<>(names);
            List<BigInteger> b = new ArrayList<>(values);
            if (v.signum() > 0) {
                a.add(n.name);
                b.add(v);
            }
            n.mSend(from, to, a, b);
        }, "transferBatch", names.toArray(new String[0]), values.toArray(new BigInteger[0]), to);
    }

    static void deliver(Mon.Case k, Map<String, Node> ns, Msg m, List<Msg> wire, boolean faults) {
        Node d = ns.get(m.to);
        if (m.error != null) {
            d.op("error", d.bmc, O, d.svc, () -> d.mEnd(m.sn, false), "handleBTPError", m.from, SVC, m.sn, BigInteger.valueOf(k.of(0, 10, 12, 40, 43)), m.error);
            return;
        }
        Rlp.Reader r = new Rlp.Reader(m.payload);
        r.beginList();
        int type = r.readInt();
        byte[] body = r.readByteArray();
        Msg back = new Msg();
        back.from = m.to;
        back.to = m.from;
        back.sn = m.sn;
        back.error = k.of("", "Unknown", "no route");
        if (type == 0) {
            if (faults && k.chance(15)) {
                if (k.chance(30)) {
                    // refused by another implementation of the service
                    back.error = null;
                    back.payload = list(num(2), bytes(list(num(k.of(1, 1, 2, -1, 77)), k.chance(80) ? str("no") : bytes(null))));
                }
                wire.add(back);
                return;
            }
            Rlp.Reader q = new Rlp.Reader(body);
            q.beginList();
            q.readString();
            String to = q.readString();
            List<String> names = new ArrayList<>();
            List<BigInteger> amounts = new ArrayList<>();
            q.beginList();
            while (q.hasNext()) {
                q.beginList();
                names.add(q.readString());
                amounts.add(q.readBigInteger());
                q.end();
            }
            if (!d.op("request", d.bmc, O, d.svc, () -> d.mRequest(m.from, m.sn, to, names, amounts), "handleBTPMessage", m.from, SVC, m.sn, m.payload)) {
                wire.add(back);
            }
            return;
        }
        if (type != 2) {
            return;
        }
        Rlp.Reader q = new Rlp.Reader(body);
        q.beginList();
        boolean ok = q.readBigInteger().signum() == 0;
        d.op("response", d.bmc, O, d.svc, () -> d.mEnd(m.sn, ok), "handleBTPMessage", m.from, SVC, m.sn, m.payload);
        if (faults && k.chance(20)) {
            d.op("response again", d.bmc, O, d.svc, () -> { }, "handleBTPMessage", m.from, SVC, m.sn, m.payload);
        }
        if (faults && k.chance(10)) {
            d.op("error late", d.bmc, O, d.svc, () -> { }, "handleBTPError", m.from, SVC, m.sn, BigInteger.TEN, "late");
        }
    }

    static void reclaim(Mon.Case k, Node n) {
        List<Object[]> l = new ArrayList<>();
        for (Address a : n.users()) {
            for (String c : NAMES) {
                if (n.get("r " + c + " " + a).signum() > 0) {
                    l.add(new Object[] {a, c});
                }
            }
        }
        Object[] o = l.isEmpty() || k.chance(15) ? new Object[] {k.any(n.users()), k.of(NAMES[0], NAMES[1], NAMES[2], "FOO")} : k.any(l);
        Address a = (Address) o[0];
        String c = (String) o[1];
        BigInteger have = n.get("r " + c + " " + a), v = amount(k, have);
        if (n.dapps.contains(a) && k.chance(30)) {
            n.mode = a;
        }
        n.again = k.chance(50) && have.signum() > 0 ? new Object[] {c, have} : null;
        if (k.chance(40)) {
            v = have;
        }
        take(n, a, c, v);
        n.again = null;
    }

    static void take(Node n, Address a, String c, BigInteger v) {
        n.op("reclaim", a, O, n.svc, () -> {
            n.need(v.signum() > 0);
            n.add("r " + c + " " + a, v.negate());
            n.need(n.known(a));
            if (c.equals(n.name)) {
                n.pay(n.svc, a, v);
            } else {
                n.token(n.svc, a, c, v);
            }
        }, "reclaim", c, v);
    }

    static void hostile(Mon.Case k, Node n, boolean forged) {
        Address other = k.any(n.all());
        if (other.equals(n.bmc)) {
            other = n.owner;
        }
        Runnable no = () -> {
            throw new Refused();
        };
        String net = k.any(new ArrayList<>(n.routes));
        BigInteger sn = BigInteger.valueOf(1 + k.pick(6));
        byte[] ok = list(num(2), bytes(list(num(k.of(0, 1)), str("x"))));
        List<String> names = new ArrayList<>();
        List<BigInteger> amounts = new ArrayList<>();
        List<byte[]> assets = new ArrayList<>();
        for (int i = k.pick(4); i >= 0; i--) {
            names.add(k.of(NAMES[0], NAMES[1], NAMES[2], n.name, n.name, k.of("FOO", "")));
            amounts.add(BigInteger.valueOf(k.chance(80) ? 1 + k.pick(500) : k.of(0, -1, -1000)));
            assets.add(list(str(names.get(names.size() - 1)), num(amounts.get(amounts.size() - 1))));
        }
        String to = k.chance(80) ? k.any(n.users()).toString() : k.of("", "hx", n.svc.toString(), n.chain.newAddress(true).toString(), "0x12");
        byte[] req = list(num(0), bytes(list(str("0xabc"), str(to), list(assets))));
        switch (k.pick(8)) {
            case 0:
                n.op("caller", other, O, n.svc, no, "handleBTPMessage", net, SVC, sn, ok);
                break;
            case 1:
                n.op("caller", other, O, n.svc, no, "handleBTPMessage", net, SVC, sn, req);
                break;
            case 2:
                n.op("caller", other, O, n.svc, no, "handleBTPError", net, SVC, sn, BigInteger.ONE, "x");
                break;
            case 3: {
                int type = k.of(1, 4, 77);
                n.op("unknown type", n.bmc, O, n.svc, () -> {
                    n.need(!n.broken);
                    n.want.add("sent " + net + " " + sn + " unknown");
                }, "handleBTPMessage", net, SVC, sn, list(num(type), bytes(new byte[] {1})));
                break;
            }
            case 4:
                n.op("unknown answer", n.bmc, O, n.svc, () -> n.want.add("UnknownResponse " + Enc.show(new Object[] {net, sn})), "handleBTPMessage", net, SVC, sn,
                        list(num(3), bytes(new byte[0])));
                break;
            case 5: {
                BigInteger far = n.sn.add(BigInteger.valueOf(1 + k.pick(5)));
                n.op("unknown transfer", n.bmc, O, n.svc, () -> { }, "handleBTPMessage", net, SVC, far, ok);
                break;
            }
            case 6: {
                Address a = k.any(n.users());
                if (a.equals(n.owner)) {
                    break;
                }
                BigInteger i = id(k.of(NAMES)), v = BigInteger.valueOf(1 + k.pick(5));
                switch (k.pick(5)) {
                    case 0: n.op("mint", a, O, n.tok, no, "mint", a, i, v); break;
                    case 1: n.op("mint", a, O, n.tok, no, "mintBatch", a, new BigInteger[] {i}, new BigInteger[] {v}); break;
                    case 2: n.op("mint", a, O, n.tok, no, "burn", k.any(n.all()), i, v); break;
                    case 3: n.op("mint", a, O, n.tok, no, "burnBatch", k.any(n.all()), new BigInteger[] {i}, new BigInteger[] {v}); break;
                    default: n.op("mint", a, O, n.tok, no, "setTokenURI", i, "x");
                }
                break;
            }
            default:
                if (forged) {
                    n.op("forged", n.bmc, O, n.svc, () -> n.mRequest(net, sn, to, names, amounts), "handleBTPMessage", net, SVC, sn, req);
                    n.sent.clear();
                }
        }
    }

    // ---- the tokens alone

    static void tokens(Mon.Case k, int steps) {
        Node n = new Node(k, k.pick(3));
        k.input("");
        TreeSet<String> owners = new TreeSet<>(List.of("" + n.owner));
        for (int i = 0; i < steps; i++) {
            n.mode = k.chance(8) ? k.any(n.dapps) : null;
            Address by = k.chance(70) ? address(k.any(new ArrayList<>(owners))) : k.any(n.users()), a = k.chance(90) ? k.any(n.users()) : n.svc;
            boolean may = owners.contains("" + by);
            int len = k.pick(4);
            List<String> names = new ArrayList<>();
            BigInteger[] ids = new BigInteger[len], values = new BigInteger[len + (k.chance(5) ? 1 : 0)];
            for (int j = 0; j < len; j++) {
                names.add(k.of(NAMES));
                ids[j] = id(names.get(j));
            }
            for (int j = 0; j < values.length; j++) {
                values[j] = amount(k, j < len ? n.get("t " + names.get(j) + " " + a) : O);
            }
            String c = k.of(NAMES);
            BigInteger v = amount(k, n.get("t " + c + " " + a));
            switch (k.pick(6)) {
                case 0:
                    n.op("mint", by, O, n.tok, () -> {
                        n.need(may && v.signum() > 0 && (n.known(a) || a.equals(n.svc)));
                        n.add("t " + c + " " + a, v);
                        n.add("s " + c, v);
                    }, "mint", a, id(c), v);
                    break;
                case 1:
                    n.op("mintBatch", by, O, n.tok, () -> {
                        n.need(may && ids.length == values.length && (n.known(a) || a.equals(n.svc)));
                        for (int j = 0; j < ids.length; j++) {
                            n.need(values[j].signum() > 0);
                            n.add("t " + names.get(j) + " " + a, values[j]);
                            n.add("s " + names.get(j), values[j]);
                        }
                    }, "mintBatch", a, ids, values);
                    break;
                case 2:
                    n.op("burn", by, O, n.tok, () -> {
                        n.need(may && v.signum() > 0);
                        n.add("t " + c + " " + a, v.negate());
                        n.add("s " + c, v.negate());
                    }, "burn", a, id(c), v);
                    break;
                case 3:
                    n.op("burnBatch", by, O, n.tok, () -> {
                        n.need(may && ids.length == values.length);
                        for (int j = 0; j < ids.length; j++) {
                            n.need(values[j].signum() > 0);
                            n.add("t " + names.get(j) + " " + a, values[j].negate());
                            n.add("s " + names.get(j), values[j].negate());
                        }
                    }, "burnBatch", a, ids, values);
                    break;
                case 4: {
                    owner(k, n, n.tok, owners, by);
                    break;
                }
                default: {
                    String uri = k.of("", "http://x", "y");
                    boolean done = n.op("uri", by, O, n.tok, () -> n.need(may && !uri.isEmpty()), "setTokenURI", id(c), uri);
                    k.check(!done || uri.equals(n.read(n.tok, "tokenURI", id(c))), "uri", "not kept");
                }
            }
        }
    }
}
