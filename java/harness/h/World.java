package h;

import foundation.icon.btp.bmc.BTPMessageCenter__Rec;
import foundation.icon.btp.lib.BMCStatus;
import foundation.icon.btp.lib.BMVStatus;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Base64;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.function.Function;
import score.Address;
import score.RevertedException;
import score.UserRevertedException;
import vm.Chain;
import vm.Crypto;

/** Chains with a BMC each, watched against the reference operation by operation. */
final class World {
    static final Address CHAIN_SCORE = Address.fromString("cx0000000000000000000000000000000000000000");
    static final BigInteger RICH = BigInteger.TEN.pow(15);
    final Mon.Case k;

    World(Mon.Case k) { this.k = k; }

    /** One chain. */
    final class Node {
        final Chain chain;
        final Address owner;
        final Address bmc;
        final Model model;
        final Set<Address> people = new LinkedHashSet<>();
        final Set<String> nets = new LinkedHashSet<>();
        final Map<String, Bmv> bmvs = new LinkedHashMap<>();
        final Map<String, Address> bshs = new LinkedHashMap<>();
        final Set<String> fragsEver = new TreeSet<>();
        int errorHandler = -2;
        /** What left for each neighbour, by its address. */
        final Map<String, List<byte[]>> out = new TreeMap<>();

        Node(String net) {
            chain = new Chain(net);
            owner = person();
            bmc = chain.deploy(owner, () -> new BTPMessageCenter__Rec(net));
            model = new Model(net, bmc, owner);
            people.add(bmc);
            nets.add(net);
            chain.registerAt(CHAIN_SCORE, (Chain.Native) (m, p) -> {
                long id = ((BigInteger) p[0]).longValue();
                if (!m.equals("sendBTPMessage") || model.brokenNetworks.contains(id)) {
                    throw new Chain.Revert(3, "no such network");
                }
                Chain.event("network", id, p[1]);
                return null;
            });
        }

        Address person() {
            Address a = chain.newAddress(false);
            chain.mint(a, RICH);
            people.add(a);
            return a;
        }

        Address bmv(String net) {
            Bmv b = new Bmv(this);
            b.addr = chain.register(owner, b);
            bmvs.put(net, b);
            nets.add(net);
            return b.addr;
        }

        Address bsh(String svc) {
            Address a = chain.register(owner, new Bsh(this));
            chain.mint(a, RICH);
            bshs.put(svc, a);
            model.contracts.add(a);
            return a;
        }

        Object view(String method, Object... p) {
            Object r = chain.tx(owner, BigInteger.ZERO, bmc, method, p);
            return r;
        }
    }

    /** A verifier that answers what the harness tells it. */
    final class Bmv implements Chain.Native {
        final Node node;
        Address addr;
        int code = -2;
        List<byte[]> answer = new ArrayList<>();
        final List<Object[]> calls = new ArrayList<>();

        Bmv(Node n) { node = n; }

        public Object invoke(String m, Object[] p) {
            if (m.equals("getStatus")) {
                return new BMVStatus();
            }
            calls.add(p);
            if (code == Model.ANY) {
                throw new IllegalStateException("broken verifier");
            }
            if (code != -2) {
                throw new Chain.Revert(code, "refused");
            }
            return answer.toArray(new byte[0][]);
        }
    }

    /** A service that does what the message tells it. */
    final class Bsh implements Chain.Native {
        final Node node;

        Bsh(Node n) { node = n; }

        public Object invoke(String m, Object[] p) {
            Address me = Chain.frame().self;
            if (!Chain.frame().caller.equals(node.bmc)) {
                return null;
            }
            if (m.equals("handleBTPError")) {
                Chain.event("bsh", "error " + me + " " + p[0] + " " + p[1] + " " + p[2] + " " + p[3]);
                if (node.errorHandler >= 0) {
                    throw new Chain.Revert(node.errorHandler, "refused");
                }
                if (node.errorHandler == -1) {
                    throw new IllegalStateException("broken service");
                }
                return null;
            }
            String src = (String) p[0], svc = (String) p[1];
            BigInteger sn = (BigInteger) p[2];
            byte[] payload = (byte[]) p[3];
            Chain.event("bsh", "message " + me + " " + src + " " + svc + " " + sn + " " + Crypto.hex(payload));
            for (String[] x : Model.script(payload)) {
                try {
                    switch (x[0]) {
                        case "rev":
                            throw new Chain.Revert(Integer.parseInt(x[1]), "refused");
                        case "fail":
                            throw new IllegalStateException("broken service");
                        case "reply":
                        case "tryreply":
                            node.chain.call(new BigInteger(x[1]), node.bmc, "sendMessage", src, svc, sn.negate(), x[2].getBytes());
                            break;
                        case "send":
                        case "trysend":
                            node.chain.call(new BigInteger(x[3]), node.bmc, "sendMessage", x[1], svc, new BigInteger(x[2]), x[4].getBytes());
                            break;
                        default:
                    }
                } catch (RevertedException e) {
                    if (!x[0].startsWith("try")) {
                        throw e;
                    }
                }
            }
            return null;
        }
    }

    private final List<String[]> wrong = new ArrayList<>();

    private void wrong(String sig, String detail) { wrong.add(new String[] {sig, detail}); }

    private void same(String sig, Object want, Object got) {
        if (!want.equals(got)) {
            wrong(sig, "expected " + want + "\nobserved " + got);
        }
    }

    void report() {
        if (wrong.isEmpty()) {
            return;
        }
        List<String[]> w = new ArrayList<>(wrong);
        wrong.clear();
        for (String[] x : w) {
            if (k.relevant(x[0])) {
                k.fail(x[0], x[1]);
            }
        }
        k.fail(w.get(0)[0], w.get(0)[1]);
    }

    static String show(Object o) { return Enc.show(o); }

    static String area(String method) {
        switch (method) {
            case "sendMessage":
            case "dropMessage":
                return "X01,X02,X03";
            case "handleRelayMessage":
            case "handleFragment":
                return "X01,X03";
            case "claimReward":
                return "X02";
            case "setFeeTable":
            case "setFeeHandler":
                return "X02,X03";
            default:
                return "X03";
        }
    }

    /** Runs one operation on the contract and on the reference and compares all that can be seen. */
    boolean op(Node n, Address from, BigInteger value, String method, Object[] params, Function<Model, Object> ref) {
        k.add("\n" + n.chain.net + " " + from + (value.signum() > 0 ? " +" + value : "") + " " + method + Mon.cut(show(params), 300));
        n.model.linkOrder = Arrays.asList((String[]) n.view("getLinks"));
        n.model.seenRoutes = new TreeMap<>(strings(n.view("getRoutes")));
        n.model.errorHandler = n.errorHandler;
        n.model.clearOutput();
        Model before = n.model.copy();
        Object wantRet = null;
        int want = -2;
        try {
            wantRet = ref.apply(n.model);
        } catch (Model.Fail e) {
            want = e.code;
            n.model.take(before);
        }
        Map<String, BigInteger> bal = new TreeMap<>();
        for (Address a : n.people) {
            bal.put(a.toString(), n.chain.balance(a));
        }
        n.chain.takeEvents();
        int got = -2;
        Object ret = null;
        String why = "";
        try {
            n.chain.signer = k.chance(25) ? k.any(new ArrayList<>(n.people)) : null;
            ret = n.chain.tx(from, value, n.bmc, method, params);
        } catch (UserRevertedException e) {
            got = e.getCode();
            why = String.valueOf(e.getMessage());
        } catch (RevertedException e) {
            got = Model.ANY;
            why = String.valueOf(e.getMessage());
        }
        String ar = area(method);
        k.count("op:" + method + (want == -2 ? "" : ":refused"), 1);
        k.seen(method, want, n.model.sends.size(), n.model.dropped.size(), n.model.bsh.size(), n.model.links.size(), n.model.btpEvents.toString());
        if ((want == -2) != (got == -2)) {
            wrong(ar + ":outcome:" + method, (want == -2 ? "should succeed but failed with " + got + " " + why
                    : "should fail with " + want + " but " + (got == -2 ? "succeeded" : "failed with " + got)));
        } else if (want >= 0 && want != got) {
            wrong(ar + ":code:" + method, "should fail with code " + want + " but failed with " + got + " " + why);
        }
        if (want == -2 && got == -2 && wantRet != null && !wantRet.equals(ret)) {
            wrong("X01:return:" + method, "should return " + wantRet + " but returned " + ret);
        }
        outputs(n, method);
        for (Map.Entry<String, BigInteger> e : n.model.paid.entrySet()) {
            BigInteger had = bal.get(e.getKey());
            if (had != null) {
                BigInteger w = had.add(e.getValue()).subtract(e.getKey().equals(from.toString()) ? value : BigInteger.ZERO);
                same("X02:payout", w, n.chain.balance(Address.fromString(e.getKey())));
            }
        }
        getters(n);
        report();
        return want == -2;
    }

    private static Map<String, String> strings(Object m) {
        Map<String, String> r = new TreeMap<>();
        for (Map.Entry<?, ?> e : ((Map<?, ?>) m).entrySet()) {
            r.put(e.getKey().toString(), e.getValue().toString());
        }
        return r;
    }

    static List<String> sorted(List<String> l) {
        List<String> r = new ArrayList<>(l);
        Collections.sort(r);
        return r;
    }

    private void outputs(Node n, String method) {
        Model m = n.model;
        String x = method.matches("addLink|removeLink|addBTPLink") ? "X01,X03" : "X01";
        Map<String, List<String>> wantSend = new TreeMap<>(), gotSend = new TreeMap<>(), wantFee = new TreeMap<>(), gotFee = new TreeMap<>();
        for (Model.Send s : m.sends) {
            wantSend.computeIfAbsent(s.next, q -> new ArrayList<>()).add(s.text());
            wantFee.computeIfAbsent(s.next, q -> new ArrayList<>()).add(s.msg.fees());
        }
        List<String> events = new ArrayList<>(), dropped = new ArrayList<>(), claims = new ArrayList<>(), results = new ArrayList<>(), bsh = new ArrayList<>();
        for (Chain.Event e : n.chain.takeEvents()) {
            Object[] a = e.args;
            switch (e.name) {
                case "Message":
                    sent(n, (String) a[0], "seq" + a[1], (byte[]) a[2], gotSend, gotFee);
                    break;
                case "network": {
                    String next = "?";
                    for (Map.Entry<String, Long> b : m.btpNet.entrySet()) {
                        if (b.getValue().equals(a[0])) {
                            next = b.getKey();
                        }
                    }
                    sent(n, next, "net" + a[0], (byte[]) a[1], gotSend, gotFee);
                    break;
                }
                case "BTPEvent":
                    events.add(a[0] + " " + a[1] + " " + a[2] + " " + a[3]);
                    break;
                case "MessageDropped": {
                    String core;
                    try {
                        core = Msg.of((byte[]) a[2]).core();
                    } catch (RuntimeException t) {
                        core = "unreadable";
                    }
                    dropped.add(a[0] + " " + a[1] + " " + core + " code" + a[3]);
                    break;
                }
                case "ClaimReward":
                    claims.add(a[0] + " " + a[1] + " " + a[2] + " " + a[3] + " " + a[4]);
                    break;
                case "ClaimRewardResult":
                    results.add(a[0] + " " + a[1] + " " + a[2] + " " + a[3]);
                    break;
                case "bsh":
                    bsh.add((String) a[0]);
                    break;
                default:
                    wrong("X01:event:" + e.name, "unknown event");
            }
        }
        k.count("messages passed on", m.sends.size());
        k.count("messages given to services", m.bsh.size());
        k.count("messages dropped", m.dropped.size());
        boolean spread = x.contains("X03");
        if (spread) {
            // each link is told once; which of them comes first does not matter
            same(x + ":numbers:" + method, numbers(wantSend), numbers(gotSend));
        }
        same(x + ":sent:" + method, spread ? plain(wantSend.toString()) : wantSend.toString(), spread ? plain(gotSend.toString()) : gotSend.toString());
        same("X02:fees-sent:" + method, wantFee, gotFee);
        if (spread) {
            same(x + ":btp-events:" + method, sorted(without(m.btpEvents)), sorted(without(events)));
        } else {
            same(x + ":btp-events:" + method, sorted(m.btpEvents), sorted(events));
        }
        same("X01:dropped:" + method, m.dropped, dropped);
        same("X02:claims:" + method, m.claims, claims);
        same("X02:claim-results:" + method, m.results, results);
        same("X01:services:" + method, m.bsh, bsh);
    }

    private static String plain(String s) { return s.replaceAll("nsn[0-9]+", ""); }

    private static List<String> without(List<String> l) {
        List<String> r = new ArrayList<>();
        for (String x : l) {
            r.add(x.replaceFirst(" [0-9]+ ", " "));
        }
        return r;
    }

    private static List<String> numbers(Map<String, List<String>> s) {
        List<String> r = new ArrayList<>();
        for (List<String> l : s.values()) {
            for (String x : l) {
                r.add(x.replaceAll(".* nsn([0-9]+) .*", "$1"));
            }
        }
        return sorted(r);
    }

    private void sent(Node n, String next, String at, byte[] b, Map<String, List<String>> gotSend, Map<String, List<String>> gotFee) {
        String core, fee;
        try {
            Msg g = Msg.of(b);
            core = g.core();
            fee = g.fees();
        } catch (RuntimeException t) {
            core = "unreadable " + Crypto.hex(b);
            fee = "unreadable";
        }
        gotSend.computeIfAbsent(next, q -> new ArrayList<>()).add(next + "#" + at + " " + core);
        gotFee.computeIfAbsent(next, q -> new ArrayList<>()).add(fee);
        n.out.computeIfAbsent(next, q -> new ArrayList<>()).add(b);
    }

    private static Set<String> set(Object[] a) {
        Set<String> s = new TreeSet<>();
        for (Object o : a) {
            if (!s.add(String.valueOf(o))) {
                s.add(o + " twice");
            }
        }
        return s;
    }

    private Object attempt(Node n, String method, Object... p) {
        try {
            return n.view(method, p);
        } catch (UserRevertedException e) {
            return "code" + e.getCode();
        } catch (RevertedException e) {
            return "failed " + e.getMessage();
        }
    }

    /** All that can be asked of the contract. */
    private void getters(Node n) {
        Model m = n.model;
        Set<String> owners = new TreeSet<>(m.owners);
        owners.add(n.owner.toString());
        same("X03:owners", owners, set((Object[]) n.view("getOwners")));
        for (Address a : n.people) {
            same("X03:is-owner", m.isOwner(a), n.view("isOwner", a));
        }
        Map<String, String> v = new TreeMap<>();
        m.verifiers.forEach((a, b) -> v.put(a, b.toString()));
        same("X03:verifiers", v, strings(n.view("getVerifiers")));
        Map<String, String> s = new TreeMap<>();
        m.services.forEach((a, b) -> s.put(a, b.toString()));
        same("X03:services", s, strings(n.view("getServices")));
        Set<String> l = new TreeSet<>();
        m.links.values().forEach(x -> l.add(x.addr));
        same("X03:links", l, set((Object[]) n.view("getLinks")));
        Map<String, String> got = strings(n.view("getRoutes"));
        Map<String, String> routes = new TreeMap<>();
        for (Model.Link x : m.links.values()) {
            for (String a : x.reach) {
                String d = Model.netOnly(a);
                List<Model.Link> all = m.reaching(d);
                String g = got.get(d);
                String pick = Model.netOf(all.get(0).addr);
                for (Model.Link y : all) {
                    if (Model.netOf(y.addr).equals(g)) {
                        pick = g;
                    }
                }
                routes.put(d, pick);
            }
        }
        routes.putAll(m.routes);
        same("X01,X03:routes", routes, got);
        for (Model.Link x : m.links.values()) {
            if (m.verifiers.containsKey(Model.netOf(x.addr))) {
                Object st = attempt(n, "getStatus", x.addr);
                if (st instanceof BMCStatus) {
                    BMCStatus b = (BMCStatus) st;
                    same("X01:status", "rx" + x.rx + " tx" + x.tx, "rx" + b.getRx_seq() + " tx" + b.getTx_seq());
                } else {
                    wrong("X01:status", "status of " + x.addr + ": " + st);
                }
            }
            Object r = attempt(n, "getRelays", x.addr);
            same("X03:relays", m.relays.getOrDefault(x.addr, new TreeSet<>()), r instanceof Object[] ? set((Object[]) r) : r);
            same("X03:network-id", m.btpNet.getOrDefault(x.addr, 0L), attempt(n, "getBTPLinkNetworkId", x.addr));
            Object off = attempt(n, "getBTPLinkOffset", x.addr);
            same("X01,X03:network-offset", m.btpNet.containsKey(x.addr) ? (Object) m.btpOff.get(m.btpNet.get(x.addr)) : "code10", off);
        }
        for (String d : n.nets) {
            Object f = attempt(n, "getFeeTable", (Object) new String[] {d});
            Object fee = attempt(n, "getFee", d, true), fee0 = attempt(n, "getFee", d, false);
            Object w;
            Object wf, wf0;
            try {
                m.way(d);
                w = m.feeList(d, true).toString();
                wf = Msg.sum(m.feeList(d, true));
                wf0 = Msg.sum(m.feeList(d, false));
            } catch (Model.Fail e) {
                w = "code" + e.code;
                wf = w;
                wf0 = w;
            }
            same(w.toString().startsWith("code") || !(f instanceof BigInteger[][]) ? "X01,X02:fee-table" : "X02:fee-table", w, f instanceof BigInteger[][] ? show(((BigInteger[][]) f)[0]) : f);
            same("X02:fee", wf, fee);
            same("X02:fee", wf0, fee0);
            for (Address a : n.people) {
                same("X02:reward", "of " + a + " in " + d + ": " + m.rewardOf(a.toString(), d), "of " + a + " in " + d + ": " + n.view("getReward", d, a));
            }
        }
        same("X02,X03:fee-handler", String.valueOf(m.feeHandler), String.valueOf(n.view("getFeeHandler")));
        same("X01:network-sn", m.nsn, n.view("getNetworkSn"));
        same("X02:balance", m.balance, n.chain.balance(n.bmc));
        same("X03:address", m.btp + " " + m.net, n.view("getBtpAddress") + " " + n.view("getNetworkAddress"));
    }

    // ---- operations

    boolean relay(Node n, Address from, String prev, byte[] data, int code, List<byte[]> msgs) {
        Bmv b = prepare(n, prev, code, msgs);
        Model.Link l = n.model.links.get(Model.netOnly(prev));
        long rx = l == null ? -1 : l.rx;
        for (byte[] x : msgs) {
            String t;
            try {
                t = Msg.of(x).toString();
            } catch (RuntimeException e) {
                t = "junk " + Crypto.hex(x);
            }
            k.add("\n    message " + Mon.cut(t, 300));
        }
        boolean ok = op(n, from, BigInteger.ZERO, "handleRelayMessage", new Object[] {prev, Base64.getUrlEncoder().encodeToString(data)}, m -> {
            m.handleRelayMessage(from, prev, code, msgs);
            return null;
        });
        if (ok) {
            verified(n, b, prev, rx, data);
        }
        return ok;
    }

    private Bmv prepare(Node n, String prev, int code, List<byte[]> msgs) {
        for (Bmv b : n.bmvs.values()) {
            b.calls.clear();
            b.code = code;
            b.answer = msgs;
        }
        Address a = n.model.verifiers.get(Model.netOnly(prev));
        for (Bmv b : n.bmvs.values()) {
            if (b.addr.equals(a)) {
                return b;
            }
        }
        return null;
    }

    private void verified(Node n, Bmv b, String prev, long rx, byte[] data) {
        int calls = 0;
        for (Bmv x : n.bmvs.values()) {
            calls += x.calls.size();
        }
        if (b == null || b.calls.size() != 1 || calls != 1) {
            k.fail("X01:verifier", "the verifier of " + prev + " was asked " + (b == null ? 0 : b.calls.size()) + " times, all of them " + calls + " times");
        }
        Object[] p = b.calls.get(0);
        String want = n.model.btp + " " + prev + " " + rx + " " + Crypto.hex(data);
        String got = p[0] + " " + p[1] + " " + p[2] + " " + Crypto.hex((byte[]) p[3]);
        k.check(want.equals(got), "X01:verifier", "the verifier was to be asked " + want + "\nand was asked " + got);
    }

    boolean fragment(Node n, Address from, String prev, byte[] part, int idx, int code, List<byte[]> msgs) {
        Bmv b = prepare(n, prev, code, msgs);
        Model.Link l = n.model.links.get(Model.netOnly(prev));
        long rx = l == null ? -1 : l.rx;
        byte[][] whole = new byte[1][];
        n.fragsEver.add(prev + "|" + from);
        boolean ok = op(n, from, BigInteger.ZERO, "handleFragment", new Object[] {prev, Base64.getUrlEncoder().encodeToString(part), idx}, m -> {
            byte[] all = m.handleFragment(from, prev, part, idx);
            whole[0] = all;
            if (all != null) {
                m.handleRelayMessage(from, prev, code, msgs);
            }
            return null;
        });
        if (ok && whole[0] != null) {
            verified(n, b, prev, rx, whole[0]);
        } else if (ok) {
            for (Bmv x : n.bmvs.values()) {
                k.check(x.calls.isEmpty(), "X01:verifier", "a verifier was asked before the last piece came");
            }
        }
        return ok;
    }

    boolean send(Node n, Address from, BigInteger value, String to, String svc, BigInteger sn, byte[] p) {
        return op(n, from, value, "sendMessage", new Object[] {to, svc, sn, p}, m -> m.sendMessage(from, value, to, svc, sn, p));
    }

    boolean claim(Node n, Address from, BigInteger value, String net, String to) {
        return op(n, from, value, "claimReward", new Object[] {net, to}, m -> {
            m.claimReward(from, value, net, to);
            return null;
        });
    }

    interface Ref {
        void run(Model m);
    }

    boolean admin(Node n, Address from, String method, Ref r, Object... p) {
        return op(n, from, BigInteger.ZERO, method, p, m -> {
            r.run(m);
            return null;
        });
    }
}
