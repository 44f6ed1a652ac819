package h;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import score.Address;

/** The message centre: X01 messages, X02 fees, X03 who may do what. */
public final class X {
    static final String[] NETS = {"0x1.icon", "0x2.bsc", "0x3.eth", "0x4.near", "0x5.hmny", "0x2.bscx"};

    public static void run(Mon m) {
        m.relevant = s -> s.indexOf(':') >= 0 && s.substring(0, s.indexOf(':')).contains(m.prop);
        boolean x3 = m.prop.equals("X03");
        m.group("one", m.n(x3 ? 90 : 160, 2500), k -> one(k, x3 ? 25 : 55));
        m.group("net", m.n(x3 ? 15 : 70, 1200), X::net);
        m.group("registry", m.n(x3 ? 60 : 8, 800), X::registry);
    }

    static BigInteger big(long v) { return BigInteger.valueOf(v); }

    // ------------------------------------------------------------------ one centre, anything can come

    static final class One {
        Mon.Case k;
        World w;
        World.Node n;
        List<Address> bosses = new ArrayList<>();
        List<Address> folks = new ArrayList<>();
        List<Address> relays = new ArrayList<>();
        List<String> svcs = Arrays.asList("alpha", "beta", "gamma", "dead");
        int netId = 1;

        String addr(String net, boolean other) { return "btp://" + net + "/0x" + (other ? "bb" : "aa") + net.charAt(2); }

        String addr(String net) { return addr(net, k.chance(4)); }

        String far() { return NETS[1 + k.pick(NETS.length - 1)]; }

        Address boss() { return k.chance(85) ? n.owner : k.chance(60) ? k.any(bosses) : k.any(folks); }

        Address svcAddr(String s) { return n.bshs.getOrDefault(s, folks.get(0)); }

        String linked() {
            List<String> l = new ArrayList<>();
            n.model.links.values().forEach(x -> l.add(x.addr));
            return l.isEmpty() || k.chance(6) ? addr(far()) : k.any(l);
        }
    }

    static One start(Mon.Case k) {
        One o = new One();
        o.k = k;
        o.w = new World(k);
        o.n = o.w.new Node(NETS[0]);
        for (int i = 0; i < 2; i++) {
            o.bosses.add(o.n.person());
        }
        for (int i = 0; i < 3; i++) {
            o.relays.add(o.n.person());
        }
        for (int i = 0; i < 2; i++) {
            o.folks.add(o.n.person());
        }
        for (int i = 1; i < NETS.length; i++) {
            o.n.bmv(NETS[i]);
        }
        for (String s : o.svcs) {
            if (!s.equals("dead")) {
                o.n.bsh(s);
            }
        }
        o.n.chain.mint(o.n.bmc, big(1000));
        o.n.model.balance = big(1000);
        return o;
    }

    static void one(Mon.Case k, int ops) {
        One o = start(k);
        World w = o.w;
        World.Node n = o.n;
        // something to begin with
        int have = 1 + k.pick(3);
        for (int i = 1; i <= have; i++) {
            String net = NETS[i], a = o.addr(net, false);
            w.admin(n, n.owner, "addVerifier", m -> m.addVerifier(n.owner, net, n.bmvs.get(net).addr), net, n.bmvs.get(net).addr);
            if (k.chance(35)) {
                long id = o.netId++;
                w.admin(n, n.owner, "addBTPLink", m -> m.addBTPLink(n.owner, a, id), a, id);
            } else {
                w.admin(n, n.owner, "addLink", m -> m.addLink(n.owner, a), a);
            }
            for (int j = 0; j <= k.pick(3); j++) {
                Address r = o.relays.get(j);
                w.admin(n, n.owner, "addRelay", m -> m.addRelay(n.owner, a, r), a, r);
            }
        }
        for (String s : o.svcs) {
            if (k.chance(75)) {
                Address a = o.svcAddr(s);
                w.admin(n, n.owner, "addService", m -> m.addService(n.owner, s, a), s, a);
            }
        }
        for (int i = 0; i < ops; i++) {
            step(o);
        }
    }

    static void step(One o) {
        Mon.Case k = o.k;
        World w = o.w;
        World.Node n = o.n;
        int x = k.pick(100);
        Address c = o.boss();
        if (x < 34) {
            String prev = o.linked();
            Address r = k.chance(93) ? k.any(o.relays) : k.any(o.folks);
            int code = k.chance(93) ? -2 : k.chance(40) ? Model.ANY : k.of(0, 25, 26, 29, 33, 40, 3);
            List<byte[]> ms = new ArrayList<>();
            for (int j = k.pick(5); j > 0; j--) {
                ms.add(k.chance(98) ? message(o, prev).bytes() : new byte[] {(byte) 0xc1});
            }
            byte[] data = new byte[k.pick(60)];
            k.r.nextBytes(data);
            if (k.chance(70)) {
                w.relay(n, r, prev, data, code, ms);
            } else {
                pieces(o, r, prev, data, code, ms);
            }
        } else if (x < 48) {
            String svc = k.any(o.svcs);
            Address from = k.chance(90) ? o.svcAddr(svc) : k.any(o.folks);
            String to = k.chance(90) ? o.far() : k.of(NETS[0], "nowhere");
            BigInteger sn = big(k.of(0, 1, 1, 2, 3, 4, 7, -1, -2, -3));
            List<String> held = new ArrayList<>(n.model.resp.keySet());
            if (!held.isEmpty() && k.chance(45)) {
                String[] h = k.any(held).split("\\|");
                if (!h[1].equals("bmc")) {
                    to = h[0];
                    svc = h[1];
                    from = k.chance(94) ? o.svcAddr(svc) : k.any(o.folks);
                    sn = new BigInteger(h[2]).negate();
                }
            }
            BigInteger need = BigInteger.ZERO;
            if (sn.signum() >= 0) {
                need = Msg.sum(n.model.feeList(to, sn.signum() > 0));
            }
            BigInteger v = k.chance(15) ? need.subtract(BigInteger.ONE).max(BigInteger.ZERO) : k.chance(70) ? need : need.add(big(k.pick(9)));
            w.send(n, from, v, to, svc, sn, ("p" + k.pick(1000)).getBytes());
        } else if (x < 54) {
            int cnt = 1 + k.pick(2);
            String[] dst = new String[cnt];
            BigInteger[][] val = new BigInteger[k.chance(97) ? cnt : cnt + 1][];
            for (int j = 0; j < val.length; j++) {
                if (j < cnt) {
                    dst[j] = o.far();
                }
                int len = k.chance(12) ? 0 : k.chance(5) ? 3 : 2 * (1 + k.pick(3));
                if (j < cnt && n.model.links.containsKey(dst[j]) && k.chance(60)) {
                    len = 2;
                }
                val[j] = new BigInteger[len];
                for (int q = 0; q < len; q++) {
                    val[j][q] = big(k.chance(2) ? -1 : k.pick(40));
                }
            }
            w.admin(n, c, "setFeeTable", m -> m.setFeeTable(c, dst, val), dst, val);
        } else if (x < 60) {
            List<String> rs = new ArrayList<>(n.model.rewards.keySet());
            Address from = k.any(o.relays);
            String net = k.chance(50) ? NETS[0] : o.far();
            if (!rs.isEmpty() && k.chance(85)) {
                String[] h = k.any(rs).split("\\|");
                net = h[1];
                from = Address.fromString(h[0]);
                if (from.equals(n.bmc)) {
                    from = n.model.feeHandler == null ? n.owner : n.model.feeHandler;
                }
            }
            BigInteger v = net.equals(NETS[0]) ? BigInteger.ZERO : Msg.sum(n.model.feeList(net, true)).add(big(k.chance(20) ? k.pick(5) : 0));
            if (k.chance(5)) {
                v = v.subtract(BigInteger.ONE).max(BigInteger.ZERO);
            }
            String to = k.chance(93) ? k.any(o.folks).toString() : "0xabc";
            w.claim(n, from, v, net, to);
        } else if (x < 66) {
            drop(o, c);
        } else if (x < 70) {
            Address a = k.any(k.chance(50) ? o.bosses : o.folks);
            w.admin(n, c, "setFeeHandler", m -> m.setFeeHandler(c, a), a);
        } else if (x < 73) {
            n.errorHandler = k.of(-2, -2, -2, -1, 0, 5, 6, 11);
        } else if (x < 77) {
            if (n.model.brokenNetworks.isEmpty()) {
                if (o.netId > 1) {
                    n.model.brokenNetworks.add((long) (1 + k.pick(o.netId - 1)));
                }
            } else {
                n.model.brokenNetworks.clear();
            }
        } else {
            registryStep(o, c);
        }
    }

    static void drop(One o, Address c) {
        Mon.Case k = o.k;
        World.Node n = o.n;
        String src = k.chance(60) ? Model.netOnly(o.linked()) : o.far();
        BigInteger seq = big(1 + k.pick(5));
        try {
            seq = big(n.model.way(src).rx + 1 + (k.chance(10) ? k.of(-1, 1) : 0));
        } catch (Model.Fail e) {
            // refused anyway
        }
        String svc = k.chance(92) ? k.any(o.svcs) : "bmc";
        int[] q = k.any(Arrays.asList(new int[] {0, 1}, new int[] {1, 1}, new int[] {2, 5}, new int[] {-1, -1}, new int[] {0, -3}, new int[] {1, 0}, new int[] {1, -1},
                new int[] {-1, 2}));
        String feeNet = k.chance(25) ? "" : k.chance(50) ? src : k.of(NETS);
        BigInteger[] fee = new BigInteger[k.pick(5)];
        for (int j = 0; j < fee.length; j++) {
            fee[j] = big(k.pick(30));
        }
        BigInteger fseq = seq;
        o.w.admin(n, c, "dropMessage", m -> m.dropMessage(c, src, fseq, svc, big(q[0]), big(q[1]), feeNet, fee), src, seq, svc, big(q[0]), big(q[1]), feeNet, fee);
    }

    static void pieces(One o, Address r, String prev, byte[] data, int code, List<byte[]> ms) {
        Mon.Case k = o.k;
        World.Node n = o.n;
        if (k.chance(8) && !n.fragsEver.contains(prev + "|" + r)) {
            o.w.fragment(n, r, prev, data, k.pick(3), code, ms);
            return;
        }
        int cnt = 2 + k.pick(4);
        int at = 0;
        for (int i = 0; i < cnt; i++) {
            int end = i == cnt - 1 ? data.length : Math.min(data.length, at + k.pick(25));
            byte[] part = Arrays.copyOfRange(data, at, end);
            at = end;
            int idx = i == 0 ? 1 - cnt : cnt - 1 - i;
            if (i > 0 && k.chance(4)) {
                // out of order
                o.w.fragment(n, r, prev, part, idx > 0 && k.chance(50) ? k.pick(idx) : idx + 1 + k.pick(2), code, ms);
            }
            if (i > 0 && k.chance(3)) {
                // given up
                return;
            }
            if (k.chance(10)) {
                // and pieces of another one for another link
                String p2 = o.linked();
                if (!p2.equals(prev)) {
                    o.w.fragment(n, r, p2, new byte[] {7, 8}, -1 - k.pick(3), code, ms);
                }
            }
            if (k.chance(10)) {
                // someone else has pieces of another one
                Address r2 = k.any(o.relays);
                if (!r2.equals(r)) {
                    o.w.fragment(n, r2, prev, new byte[] {1, 2, 3}, -2, code, ms);
                }
            }
            if (!o.w.fragment(n, r, prev, part, idx, code, ms)) {
                return;
            }
        }
    }

    /** A message that may come over a link. */
    static Msg message(One o, String prev) {
        Mon.Case k = o.k;
        World.Node n = o.n;
        String from = Model.netOnly(prev);
        Msg m = new Msg();
        m.src = k.chance(75) ? from : o.far();
        m.dst = k.chance(58) ? NETS[0] : k.chance(85) ? o.far() : "nowhere";
        m.svc = k.chance(92) ? k.any(o.svcs) : "nosuch";
        int t = k.pick(10);
        if (t < 3) {
            m.sn = BigInteger.ZERO;
            m.nsn = big(k.chance(60) ? 1 + k.pick(50) : -1 - k.pick(50));
        } else if (t < 8) {
            m.sn = big(1 + k.pick(5));
            m.nsn = big(1 + k.pick(50));
        } else {
            m.sn = big(-1 - k.pick(5));
            m.nsn = big(-1 - k.pick(50));
        }
        if (k.chance(85)) {
            List<BigInteger> f = new ArrayList<>();
            for (int j = k.pick(6); j > 0; j--) {
                f.add(big(k.chance(15) ? 0 : k.pick(50)));
            }
            m.fee(k.chance(60) ? m.src : k.of(NETS), f);
        }
        if (m.sn.signum() < 0) {
            m.payload = k.chance(92) ? Msg.errorBytes(k.pick(6), "e") : new byte[] {1, 2};
        } else {
            m.payload = script(o);
        }
        if (k.chance(28)) {
            m.svc = "bmc";
            if (m.dst.equals(NETS[0])) {
                internal(o, m);
            }
        }
        return m;
    }

    static byte[] script(One o) {
        Mon.Case k = o.k;
        switch (k.pick(10)) {
            case 0:
                return ("!rev:" + k.of(0, 1, 5, 6, 11, 12, 16, 21, 40, 1000)).getBytes();
            case 1:
                return "!fail".getBytes();
            case 2:
                return ("!reply:" + k.pick(9) + ":r" + k.pick(100)).getBytes();
            case 3:
                return ("!reply:0:r1;" + k.of("fail", "rev:6", "rev:11", "rev:3")).getBytes();
            case 4:
                return ("!trysend:" + k.of(NETS) + ":" + k.pick(3) + ":" + k.pick(200) + ":s").getBytes();
            case 5:
                return ("!tryreply:1:r;tryreply:1:again;trysend:" + o.far() + ":0:500:s").getBytes();
            case 6:
                return ("!send:" + o.far() + ":0:" + k.pick(60) + ":s").getBytes();
            default:
                byte[] b = new byte[k.pick(30)];
                k.r.nextBytes(b);
                if (b.length > 0 && b[0] == '!') {
                    b[0] = 0;
                }
                return b;
        }
    }

    static void internal(One o, Msg m) {
        Mon.Case k = o.k;
        World.Node n = o.n;
        if (m.sn.signum() < 0) {
            // the failure of a claim
            for (Map.Entry<BigInteger, Model.Req> e : n.model.requests.entrySet()) {
                if (k.chance(60)) {
                    m.src = e.getValue().dst;
                    m.nsn = e.getKey().negate();
                    m.sn = m.nsn;
                    return;
                }
            }
            return;
        }
        int t = k.pick(12);
        if (t < 4) {
            m.nsn = big(1 + k.pick(40));
            m.sn = m.nsn;
            m.payload = Msg.claim(big(k.pick(60)), k.chance(88) ? k.any(k.chance(50) ? o.folks : o.relays).toString() : "0x12");
        } else if (t < 6) {
            m.sn = BigInteger.ZERO;
            m.nsn = big(-1 - k.pick(20));
            m.payload = Msg.response(k.pick(3));
            for (Map.Entry<BigInteger, Model.Req> e : n.model.requests.entrySet()) {
                if (k.chance(60)) {
                    m.src = e.getValue().dst;
                    m.nsn = e.getKey().negate();
                    m.payload = Msg.response(k.chance(70) ? 0 : 1 + k.pick(4));
                    return;
                }
            }
        } else if (t < 11) {
            m.sn = BigInteger.ZERO;
            m.nsn = big(1 + k.pick(50));
            String a = o.addr(o.far(), false);
            Model.Link from = n.model.links.get(m.src);
            if (from != null && !from.reach.isEmpty() && k.chance(60)) {
                // one that is known already
                a = k.any(new ArrayList<>(from.reach));
            }
            if (t < 8) {
                m.payload = Msg.link("Link", a);
            } else if (t < 10) {
                m.payload = Msg.link("Unlink", a);
            } else {
                List<String> l = new ArrayList<>();
                for (int i = k.pick(3); i > 0; i--) {
                    l.add(o.addr(o.far(), false));
                }
                m.payload = Msg.init(l);
            }
        } else {
            m.payload = k.of(Msg.bmc("Nothing", new byte[] {1}), new byte[] {1, 2, 3});
        }
    }

    // ------------------------------------------------------------------ registries

    static void registryStep(One o, Address c) {
        Mon.Case k = o.k;
        World w = o.w;
        World.Node n = o.n;
        String net = k.chance(90) ? o.far() : NETS[0];
        switch (k.pick(18)) {
            case 0:
            case 1: {
                Address a = n.bmvs.getOrDefault(net, n.bmvs.get(NETS[1])).addr;
                w.admin(n, c, "addVerifier", m -> m.addVerifier(c, net, a), net, a);
                break;
            }
            case 2:
                w.admin(n, c, "removeVerifier", m -> m.removeVerifier(c, net), net);
                break;
            case 3: {
                String s = k.chance(85) ? k.any(o.svcs) : k.of("bmc", "a-b", "a b", "x.y", "Zz9");
                Address a = k.chance(90) ? o.svcAddr(s) : o.n.bshs.get("alpha");
                w.admin(n, c, "addService", m -> m.addService(c, s, a), s, a);
                break;
            }
            case 4: {
                String s = k.chance(90) ? k.any(o.svcs) : k.of("bmc", "Zz9");
                w.admin(n, c, "removeService", m -> m.removeService(c, s), s);
                break;
            }
            case 5:
            case 6: {
                String a = k.chance(95) ? o.addr(net) : k.of("", "btp://x", "0x2.bsc", "btp:///a", "://n/a");
                w.admin(n, c, "addLink", m -> m.addLink(c, a), a);
                break;
            }
            case 7: {
                String a = o.linked();
                n.model.frags.keySet().removeIf(q -> q.startsWith(a + "|"));
                w.admin(n, c, "removeLink", m -> m.removeLink(c, a), a);
                break;
            }
            case 8:
            case 9: {
                String via = k.chance(70) ? Model.netOnly(o.linked()) : o.far();
                w.admin(n, c, "addRoute", m -> m.addRoute(c, net, via), net, via);
                break;
            }
            case 10: {
                String d = n.model.routes.isEmpty() || k.chance(20) ? net : k.any(new ArrayList<>(n.model.routes.keySet()));
                w.admin(n, c, "removeRoute", m -> m.removeRoute(c, d), d);
                break;
            }
            case 11:
            case 12: {
                String a = o.linked();
                Address r = k.any(o.relays);
                w.admin(n, c, "addRelay", m -> m.addRelay(c, a, r), a, r);
                break;
            }
            case 13: {
                String a = o.linked();
                Address r = k.any(o.relays);
                w.admin(n, c, "removeRelay", m -> m.removeRelay(c, a, r), a, r);
                break;
            }
            case 14: {
                Address a = k.chance(90) ? k.any(o.bosses) : n.owner;
                w.admin(n, c, "addOwner", m -> m.addOwner(c, a), a);
                break;
            }
            case 15: {
                Address a = k.chance(90) ? k.any(o.bosses) : n.owner;
                w.admin(n, c, "removeOwner", m -> m.removeOwner(c, a), a);
                break;
            }
            case 16: {
                String a = o.addr(net);
                long id = k.chance(80) ? o.netId : k.pick(4);
                if (w.admin(n, c, "addBTPLink", m -> m.addBTPLink(c, a, id), a, id)) {
                    o.netId = Math.max(o.netId, (int) id + 1);
                }
                break;
            }
            default: {
                String a = o.linked();
                if (n.model.btpNet.containsKey(a)) {
                    break;
                }
                long id = k.chance(80) ? o.netId : k.pick(4);
                if (w.admin(n, c, "setBTPLinkNetworkId", m -> m.setBTPLinkNetworkId(c, a, id), a, id)) {
                    o.netId = Math.max(o.netId, (int) id + 1);
                }
            }
        }
    }

    static void registry(Mon.Case k) {
        One o = start(k);
        while (o.relays.size() < 7) {
            o.relays.add(o.n.person());
        }
        while (o.bosses.size() < 5) {
            o.bosses.add(o.n.person());
        }
        int w = k.pick(3);
        for (int i = 0; i < 70; i++) {
            Address c = o.boss();
            World.Node n = o.n;
            if (w == 1 && k.chance(55)) {
                // relays of one link
                String a = o.linked();
                Address r = k.any(o.relays);
                if (k.chance(60)) {
                    o.w.admin(n, c, "addRelay", m -> m.addRelay(c, a, r), a, r);
                } else if (k.chance(85)) {
                    o.w.admin(n, c, "removeRelay", m -> m.removeRelay(c, a, r), a, r);
                } else {
                    o.w.admin(n, c, "removeLink", m -> m.removeLink(c, a), a);
                }
            } else if (w == 2 && k.chance(50)) {
                Address a = k.any(o.bosses);
                if (k.chance(60)) {
                    o.w.admin(n, c, "addOwner", m -> m.addOwner(c, a), a);
                } else {
                    o.w.admin(n, c, "removeOwner", m -> m.removeOwner(c, a), a);
                }
            } else {
                registryStep(o, c);
            }
        }
    }

    // ------------------------------------------------------------------ several honest centres

    static void net(Mon.Case k) {
        World w = new World(k);
        int cnt = 2 + k.pick(3);
        List<World.Node> nodes = new ArrayList<>();
        Map<String, World.Node> byNet = new TreeMap<>();
        for (int i = 0; i < cnt; i++) {
            World.Node n = w.new Node(NETS[i]);
            nodes.add(n);
            byNet.put(NETS[i], n);
        }
        // everyone is a possible receiver everywhere
        List<Address> folks = new ArrayList<>();
        for (World.Node n : nodes) {
            for (int i = 0; i < 2; i++) {
                folks.add(n.person());
            }
        }
        Map<String, Address> relayOf = new TreeMap<>();
        String[] svcs = {"alpha", "beta"};
        for (World.Node n : nodes) {
            for (String s : svcs) {
                Address a = n.bsh(s);
                if (k.chance(85)) {
                    w.admin(n, n.owner, "addService", m -> m.addService(n.owner, s, a), s, a);
                }
            }
        }
        boolean ring = cnt > 2 && k.chance(30);
        int id = 1;
        for (int i = 0; i < cnt; i++) {
            int j = i + 1;
            if (j == cnt) {
                if (!ring) {
                    break;
                }
                j = 0;
            }
            for (World.Node[] p : new World.Node[][] {{nodes.get(i), nodes.get(j)}, {nodes.get(j), nodes.get(i)}}) {
                World.Node a = p[0], b = p[1];
                Address v = a.bmv(b.chain.net);
                String net = b.chain.net, addr = b.model.btp;
                w.admin(a, a.owner, "addVerifier", m -> m.addVerifier(a.owner, net, v), net, v);
                if (k.chance(40)) {
                    long nid = id++;
                    w.admin(a, a.owner, "addBTPLink", m -> m.addBTPLink(a.owner, addr, nid), addr, nid);
                } else {
                    w.admin(a, a.owner, "addLink", m -> m.addLink(a.owner, addr), addr);
                }
                Address r = a.person();
                relayOf.put(a.chain.net + addr, r);
                w.admin(a, a.owner, "addRelay", m -> m.addRelay(a.owner, addr, r), addr, r);
            }
        }
        for (World.Node n : nodes) {
            for (World.Node q : nodes) {
                n.nets.add(q.chain.net);
                n.people.addAll(q.people);
            }
            Address fh = n.person();
            w.admin(n, n.owner, "setFeeHandler", m -> m.setFeeHandler(n.owner, fh), fh);
        }
        for (World.Node n : nodes) {
            for (World.Node q : nodes) {
                q.people.addAll(n.people);
            }
        }
        Map<String, Integer> taken = new TreeMap<>();
        BigInteger[] lost = new BigInteger[cnt];
        Arrays.fill(lost, BigInteger.ZERO);
        for (int i = 0; i < 4 * cnt; i++) {
            deliver(k, w, nodes, relayOf, taken);
        }
        // fees for every pair, by the number of links in between
        for (World.Node n : nodes) {
            for (World.Node d : nodes) {
                if (n == d || k.chance(20)) {
                    continue;
                }
                int hops = Math.abs(nodes.indexOf(n) - nodes.indexOf(d));
                if (ring) {
                    hops = Math.min(hops, cnt - hops);
                }
                int len = 2 * Math.max(1, hops + (k.chance(20) ? k.of(-1, 1) : 0));
                BigInteger[] f = new BigInteger[len];
                for (int i = 0; i < len; i++) {
                    f[i] = big(k.pick(50));
                }
                String[] dst = {d.chain.net};
                BigInteger[][] val = {f};
                w.admin(n, n.owner, "setFeeTable", m -> m.setFeeTable(n.owner, dst, val), dst, val);
            }
        }
        for (int i = 0; i < 60; i++) {
            World.Node n = k.any(nodes);
            int x = k.pick(100);
            if (x < 40) {
                deliver(k, w, nodes, relayOf, taken);
            } else if (x < 65) {
                String svc = k.of(svcs);
                String to = k.any(nodes).chain.net;
                BigInteger sn = big(k.pick(6));
                BigInteger need = Msg.sum(n.model.feeList(to, sn.signum() > 0));
                w.send(n, n.bshs.get(svc), need.add(big(k.chance(30) ? k.pick(20) : 0)), to, svc, sn, payload(k, nodes));
            } else if (x < 75) {
                // an answer to something that waits
                for (String h : new ArrayList<>(n.model.resp.keySet())) {
                    String[] q = h.split("\\|");
                    if (!q[1].equals("bmc") && k.chance(50)) {
                        w.send(n, n.bshs.get(q[1]), big(k.pick(3)), q[0], q[1], new BigInteger(q[2]).negate(), "late".getBytes());
                        break;
                    }
                }
            } else if (x < 90) {
                List<String> rs = new ArrayList<>(n.model.rewards.keySet());
                if (!rs.isEmpty()) {
                    String[] q = k.any(rs).split("\\|");
                    Address from = Address.fromString(q[0]);
                    if (from.equals(n.bmc)) {
                        from = n.model.feeHandler;
                    }
                    BigInteger v = q[1].equals(n.chain.net) ? BigInteger.ZERO : Msg.sum(n.model.feeList(q[1], true));
                    if (n.chain.balance(from).compareTo(v) < 0) {
                        n.chain.mint(from, RICH);
                    }
                    w.claim(n, from, v, q[1], k.chance(90) ? k.any(folks).toString() : "nobody");
                }
            } else if (x < 94) {
                n.errorHandler = k.of(-2, -2, -1, 7);
            } else if (x < 97) {
                dropNext(k, w, nodes, taken);
            } else {
                if (n.model.brokenNetworks.isEmpty()) {
                    n.model.brokenNetworks.add((long) (1 + k.pick(id)));
                } else {
                    n.model.brokenNetworks.clear();
                }
            }
            conserved(k, nodes, taken, lost);
        }
        for (World.Node n : nodes) {
            n.model.brokenNetworks.clear();
        }
        // in the end all of it arrives
        for (int i = 0; i < 60; i++) {
            if (!deliver(k, w, nodes, relayOf, taken)) {
                break;
            }
            conserved(k, nodes, taken, lost);
        }
        k.count("nets run to the end", 1);
    }

    static final BigInteger RICH = World.RICH;

    static byte[] payload(Mon.Case k, List<World.Node> nodes) {
        switch (k.pick(8)) {
            case 0:
                return "!fail".getBytes();
            case 1:
                return ("!rev:" + k.of(1, 6, 11)).getBytes();
            case 2:
            case 3:
                return ("!reply:" + k.pick(4) + ":ok").getBytes();
            case 4:
                return ("!trysend:" + k.any(nodes).chain.net + ":0:300:on").getBytes();
            default:
                return ("d" + k.pick(1000)).getBytes();
        }
    }

    /** What left a centre for another one and was not taken yet. */
    static List<byte[]> waiting(World.Node from, World.Node to, Map<String, Integer> taken) {
        List<byte[]> l = from.out.getOrDefault(to.model.btp, new ArrayList<>());
        return l.subList(taken.getOrDefault(from.chain.net + to.chain.net, 0), l.size());
    }

    static boolean deliver(Mon.Case k, World w, List<World.Node> nodes, Map<String, Address> relayOf, Map<String, Integer> taken) {
        List<World.Node[]> p = new ArrayList<>();
        for (World.Node a : nodes) {
            for (World.Node b : nodes) {
                if (a != b && !waiting(a, b, taken).isEmpty()) {
                    p.add(new World.Node[] {a, b});
                }
            }
        }
        if (p.isEmpty()) {
            return false;
        }
        World.Node[] q = k.any(p);
        List<byte[]> all = waiting(q[0], q[1], taken);
        List<byte[]> ms = new ArrayList<>(all.subList(0, 1 + k.pick(all.size())));
        byte[] data = new byte[10 + k.pick(30)];
        k.r.nextBytes(data);
        Address r = relayOf.get(q[1].chain.net + q[0].model.btp);
        boolean ok;
        if (k.chance(80)) {
            ok = w.relay(q[1], r, q[0].model.btp, data, -2, ms);
        } else {
            ok = w.fragment(q[1], r, q[0].model.btp, Arrays.copyOf(data, 4), -1, -2, ms)
                    && w.fragment(q[1], r, q[0].model.btp, Arrays.copyOfRange(data, 4, data.length), 0, -2, ms);
        }
        if (ok) {
            taken.merge(q[0].chain.net + q[1].chain.net, ms.size(), Integer::sum);
        }
        return true;
    }

    /** The owner gives up on the next message of a link. */
    static void dropNext(Mon.Case k, World w, List<World.Node> nodes, Map<String, Integer> taken) {
        for (World.Node a : nodes) {
            for (World.Node b : nodes) {
                if (a == b || waiting(a, b, taken).isEmpty()) {
                    continue;
                }
                Msg m = Msg.of(waiting(a, b, taken).get(0));
                Model.Link l = b.model.links.get(a.chain.net);
                if (m.svc.equals("bmc") || l == null || !m.src.equals(a.chain.net) || !b.model.services.containsKey(m.svc)) {
                    continue;
                }
                BigInteger[] f = m.fee == null ? new BigInteger[0] : m.fee.toArray(new BigInteger[0]);
                String fn = m.feeNet == null ? "" : m.feeNet;
                if (w.admin(b, b.owner, "dropMessage", x -> x.dropMessage(b.owner, m.src, big(l.rx + 1), m.svc, m.sn, m.nsn, fn, f), m.src, big(l.rx + 1), m.svc, m.sn,
                        m.nsn, fn, f)) {
                    taken.merge(a.chain.net + b.chain.net, 1, Integer::sum);
                    k.count("messages given up by an owner", 1);
                }
                return;
            }
        }
    }

    /** Every coin a centre holds belongs to someone, and to no one twice. */
    static void conserved(Mon.Case k, List<World.Node> nodes, Map<String, Integer> taken, BigInteger[] lost) {
        for (World.Node a : nodes) {
            String net = a.chain.net;
            BigInteger rewards = BigInteger.ZERO, flying = BigInteger.ZERO, held = BigInteger.ZERO, claims = BigInteger.ZERO;
            for (World.Node n : nodes) {
                for (Address p : n.people) {
                    rewards = rewards.add((BigInteger) n.view("getReward", net, p));
                }
                for (Model.Resp r : n.model.resp.values()) {
                    if (net.equals(r.net)) {
                        held = held.add(Msg.sum(r.fee));
                    }
                }
                for (World.Node t : nodes) {
                    if (t == n) {
                        continue;
                    }
                    for (byte[] b : waiting(n, t, taken)) {
                        Msg m = Msg.of(b);
                        if (net.equals(m.feeNet)) {
                            flying = flying.add(Msg.sum(m.fee));
                        }
                        if (!m.svc.equals("bmc")) {
                            continue;
                        }
                        Model.Req q = null;
                        for (World.Node c : nodes) {
                            if (m.sn.signum() > 0 && m.src.equals(c.chain.net)) {
                                q = c.model.requests.get(m.nsn);
                            } else if (m.sn.signum() < 0 && m.dst.equals(c.chain.net)) {
                                q = c.model.requests.get(m.nsn.negate());
                            }
                        }
                        if (q != null && q.dst.equals(net)) {
                            claims = claims.add(q.amount);
                        }
                    }
                }
            }
            for (String d : a.model.dropped) {
                k.count("dropped in a net", 1);
            }
            BigInteger owed = rewards.add(flying).add(held).add(claims).add(a.model.given);
            BigInteger has = a.chain.balance(a.bmc);
            int i = nodes.indexOf(a);
            // a claim whose messages were dropped stays with the centre
            BigInteger gone = has.subtract(owed);
            if (gone.compareTo(lost[i]) != 0) {
                boolean claimDropped = false;
                for (World.Node n : nodes) {
                    for (String d : n.model.dropped) {
                        claimDropped |= d.contains("/bmc ");
                    }
                }
                if (claimDropped && gone.compareTo(lost[i]) > 0) {
                    lost[i] = gone;
                } else {
                    k.fail("X02:conservation", net + " holds " + has + " but owes " + owed + ": rewards " + rewards + ", fees under way " + flying
                            + ", fees of waiting responses " + held + ", claims under way " + claims + ", lost before " + lost[i]);
                }
            }
        }
        k.count("conservation checks", 1);
    }
}
