package h;

import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import score.Address;
import vm.Crypto;
import vm.Rlp;

/** What a BMC has to do, said a second time: the reference the real one is compared with. */
final class Model {
    static final int UNKNOWN = 10, UNAUTH = 11, SN = 12, HAS_BMV = 13, NO_BMV = 14, HAS_BSH = 15, NO_BSH = 16, HAS_LINK = 17, NO_LINK = 18,
            HAS_BMR = 19, NO_BMR = 20, UNREACHABLE = 21, DROP = 22;
    static final int ANY = -1;

    static final class Fail extends RuntimeException {
        final int code;

        Fail(int code) {
            super("code " + code, null, false, false);
            this.code = code;
        }
    }

    static final class Link {
        String addr;
        long rx;
        long tx;
        Set<String> reach = new LinkedHashSet<>();

        Link copy() {
            Link l = new Link();
            l.addr = addr;
            l.rx = rx;
            l.tx = tx;
            l.reach = new LinkedHashSet<>(reach);
            return l;
        }
    }

    static final class Resp {
        BigInteger nsn;
        String net;
        List<BigInteger> fee;
    }

    static final class Req {
        String dst;
        BigInteger amount;
        String receiver;
        Address caller;
    }

    static final class Frag {
        int next;
        byte[] sofar;
        boolean done;
    }

    /** One message handed to a link. */
    static final class Send {
        String next;
        long seq;
        long network;
        Msg msg;

        String text() { return next + "#" + (network > 0 ? "net" + network : "seq" + seq) + " " + msg.core(); }
    }

    final String net;
    final Address self;
    final Address scoreOwner;
    final String btp;

    // state
    Set<String> owners = new TreeSet<>();
    Map<String, Address> verifiers = new TreeMap<>();
    Map<String, Address> services = new TreeMap<>();
    Map<String, Link> links = new TreeMap<>();
    Map<String, String> routes = new TreeMap<>();
    Map<String, Set<String>> relays = new TreeMap<>();
    Map<String, Long> btpNet = new TreeMap<>();
    Map<Long, Long> btpOff = new TreeMap<>();
    BigInteger nsn = BigInteger.ZERO;
    Map<String, List<BigInteger>> fees = new TreeMap<>();
    Map<String, Resp> resp = new TreeMap<>();
    Map<String, BigInteger> rewards = new TreeMap<>();
    Address feeHandler;
    Map<BigInteger, Req> requests = new TreeMap<>();
    Map<String, Frag> frags = new TreeMap<>();
    BigInteger balance = BigInteger.ZERO;
    BigInteger given = BigInteger.ZERO;

    // what one operation puts out
    List<Send> sends = new ArrayList<>();
    List<String> btpEvents = new ArrayList<>();
    List<String> dropped = new ArrayList<>();
    List<String> claims = new ArrayList<>();
    List<String> results = new ArrayList<>();
    List<String> bsh = new ArrayList<>();
    Map<String, BigInteger> paid = new TreeMap<>();
    BigInteger spent = BigInteger.ZERO;

    // the surroundings, which the harness sets
    Set<Long> brokenNetworks = new TreeSet<>();
    Set<Address> contracts = new LinkedHashSet<>();
    int errorHandler = -2;
    List<String> linkOrder = new ArrayList<>();
    Map<String, String> seenRoutes = new TreeMap<>();

    Model(String net, Address self, Address scoreOwner) {
        this.net = net;
        this.self = self;
        this.scoreOwner = scoreOwner;
        btp = "btp://" + net + "/" + self;
    }

    Model copy() {
        Model m = new Model(net, self, scoreOwner);
        m.take(this);
        return m;
    }

    void take(Model o) {
        owners = new TreeSet<>(o.owners);
        verifiers = new TreeMap<>(o.verifiers);
        services = new TreeMap<>(o.services);
        links = new TreeMap<>();
        o.links.forEach((k, v) -> links.put(k, v.copy()));
        routes = new TreeMap<>(o.routes);
        relays = new TreeMap<>();
        o.relays.forEach((k, v) -> relays.put(k, new TreeSet<>(v)));
        btpNet = new TreeMap<>(o.btpNet);
        btpOff = new TreeMap<>(o.btpOff);
        nsn = o.nsn;
        fees = new TreeMap<>(o.fees);
        resp = new TreeMap<>(o.resp);
        rewards = new TreeMap<>(o.rewards);
        feeHandler = o.feeHandler;
        requests = new TreeMap<>(o.requests);
        frags = new TreeMap<>(o.frags);
        balance = o.balance;
        given = o.given;
        sends = new ArrayList<>(o.sends);
        btpEvents = new ArrayList<>(o.btpEvents);
        dropped = new ArrayList<>(o.dropped);
        claims = new ArrayList<>(o.claims);
        results = new ArrayList<>(o.results);
        bsh = new ArrayList<>(o.bsh);
        paid = new TreeMap<>(o.paid);
        spent = o.spent;
        brokenNetworks = o.brokenNetworks;
        contracts = o.contracts;
        errorHandler = o.errorHandler;
        linkOrder = o.linkOrder;
        seenRoutes = o.seenRoutes;
    }

    void clearOutput() {
        sends.clear();
        btpEvents.clear();
        dropped.clear();
        claims.clear();
        results.clear();
        bsh.clear();
        paid.clear();
        spent = BigInteger.ZERO;
    }

    // ---- addresses

    static String netOf(String s) {
        int i = s.indexOf("://");
        if (i <= 0) {
            throw new Fail(0);
        }
        String t = s.substring(i + 3);
        int j = t.indexOf('/');
        if (j <= 0 || j + 1 >= t.length()) {
            throw new Fail(0);
        }
        return t.substring(0, j);
    }

    static String netOnly(String s) {
        int i = s.indexOf("://");
        String t = i >= 0 ? s.substring(i + 3) : s;
        int j = t.indexOf('/');
        return j >= 0 ? t.substring(0, j) : "";
    }

    boolean isOwner(Address a) { return scoreOwner.equals(a) || owners.contains(a.toString()); }

    private void owner(Address caller) {
        if (!isOwner(caller)) {
            throw new Fail(UNAUTH);
        }
    }

    private Link linkAt(String addr) {
        Link l = links.get(netOf(addr));
        if (l == null || !l.addr.equals(addr)) {
            throw new Fail(NO_LINK);
        }
        return l;
    }

    // ---- registries

    void addVerifier(Address c, String n, Address a) {
        owner(c);
        if (n.equals(net)) {
            throw new Fail(UNKNOWN);
        }
        if (verifiers.containsKey(n)) {
            throw new Fail(HAS_BMV);
        }
        verifiers.put(n, a);
    }

    void removeVerifier(Address c, String n) {
        owner(c);
        if (verifiers.remove(n) == null) {
            throw new Fail(NO_BMV);
        }
    }

    void addService(Address c, String s, Address a) {
        owner(c);
        for (char x : s.toCharArray()) {
            if (!Character.isLetterOrDigit(x)) {
                throw new Fail(UNKNOWN);
            }
        }
        if (s.equals("bmc") || services.containsKey(s)) {
            throw new Fail(HAS_BSH);
        }
        services.put(s, a);
    }

    void removeService(Address c, String s) {
        owner(c);
        if (services.remove(s) == null) {
            throw new Fail(NO_BSH);
        }
    }

    void addLink(Address c, String addr) {
        owner(c);
        String n = netOf(addr);
        if (!verifiers.containsKey(n)) {
            throw new Fail(NO_BMV);
        }
        if (links.containsKey(n)) {
            throw new Fail(HAS_LINK);
        }
        List<String> prev = spread(Msg.link("Link", addr));
        Link l = new Link();
        l.addr = addr;
        links.put(n, l);
        sendInternal(l, Msg.init(prev));
    }

    void removeLink(Address c, String addr) {
        owner(c);
        Link l = linkAt(addr);
        String n = netOf(addr);
        if (routes.containsValue(n)) {
            throw new Fail(UNKNOWN);
        }
        links.remove(n);
        relays.remove(addr);
        Long id = btpNet.remove(addr);
        if (id != null) {
            btpOff.remove(id);
        }
        fees.remove(n);
        spread(Msg.link("Unlink", l.addr));
    }

    private List<String> spread(byte[] payload) {
        List<String> to = new ArrayList<>();
        for (String a : linkOrder) {
            Link l = links.get(netOf(a));
            if (l != null && l.addr.equals(a)) {
                to.add(a);
                sendInternal(l, payload);
            }
        }
        return to;
    }

    private void sendInternal(Link l, byte[] payload) {
        nsn = nsn.add(BigInteger.ONE);
        Msg m = new Msg(net, netOf(l.addr), "bmc", BigInteger.ZERO, payload, nsn);
        send(l, m);
        event(m, l.addr, "SEND");
    }

    void addRoute(Address c, String dst, String via) {
        owner(c);
        if (dst.equals(via) || routes.containsKey(dst)) {
            throw new Fail(UNKNOWN);
        }
        if (!links.containsKey(via)) {
            throw new Fail(NO_LINK);
        }
        routes.put(dst, via);
    }

    void removeRoute(Address c, String dst) {
        owner(c);
        if (routes.remove(dst) == null) {
            throw new Fail(UNKNOWN);
        }
        fees.remove(dst);
    }

    void addRelay(Address c, String addr, Address a) {
        owner(c);
        linkAt(addr);
        if (!relays.computeIfAbsent(addr, k -> new TreeSet<>()).add(a.toString())) {
            throw new Fail(HAS_BMR);
        }
    }

    void removeRelay(Address c, String addr, Address a) {
        owner(c);
        linkAt(addr);
        if (!relays.computeIfAbsent(addr, k -> new TreeSet<>()).remove(a.toString())) {
            throw new Fail(NO_BMR);
        }
    }

    void addOwner(Address c, Address a) {
        owner(c);
        if (scoreOwner.equals(a) || !owners.add(a.toString())) {
            throw new Fail(UNKNOWN);
        }
    }

    void removeOwner(Address c, Address a) {
        owner(c);
        if (scoreOwner.equals(a) || !owners.remove(a.toString())) {
            throw new Fail(UNKNOWN);
        }
    }

    void setFeeHandler(Address c, Address a) {
        owner(c);
        feeHandler = a;
    }

    void addBTPLink(Address c, String addr, long id) {
        owner(c);
        setNetwork(addr, id, 0);
        addLink(c, addr);
    }

    void setBTPLinkNetworkId(Address c, String addr, long id) {
        owner(c);
        setNetwork(addr, id, linkAt(addr).tx);
    }

    private void setNetwork(String addr, long id, long off) {
        if (id < 1 || btpOff.containsKey(id)) {
            throw new Fail(UNKNOWN);
        }
        btpNet.put(addr, id);
        btpOff.put(id, off);
    }

    // ---- ways

    Link way(String dst) {
        Link l = links.get(dst);
        if (l != null) {
            return l;
        }
        String via = routes.get(dst);
        if (via != null) {
            l = links.get(via);
            if (l == null) {
                throw new Fail(NO_LINK);
            }
            return l;
        }
        List<Link> all = reaching(dst);
        if (all.isEmpty()) {
            throw new Fail(UNREACHABLE);
        }
        if (all.size() > 1) {
            // any of them will do: what it tells itself decides
            for (Link x : all) {
                if (netOf(x.addr).equals(seenRoutes.get(dst))) {
                    return x;
                }
            }
        }
        return all.get(0);
    }

    List<Link> reaching(String dst) {
        List<Link> all = new ArrayList<>();
        for (Link x : links.values()) {
            for (String a : x.reach) {
                if (netOnly(a).equals(dst)) {
                    all.add(x);
                    break;
                }
            }
        }
        return all;
    }

    // ---- fees

    void setFeeTable(Address c, String[] dst, BigInteger[][] values) {
        owner(c);
        if (dst.length != values.length) {
            throw new Fail(UNKNOWN);
        }
        for (int i = 0; i < dst.length; i++) {
            if (values[i].length == 0) {
                fees.remove(dst[i]);
                continue;
            }
            if (values[i].length % 2 != 0) {
                throw new Fail(UNKNOWN);
            }
            for (BigInteger v : values[i]) {
                if (v.signum() < 0) {
                    throw new Fail(UNKNOWN);
                }
            }
            if (values[i].length == 2) {
                if (!links.containsKey(dst[i])) {
                    throw new Fail(NO_LINK);
                }
            } else {
                way(dst[i]);
            }
            fees.put(dst[i], Msg.list(values[i]));
        }
    }

    List<BigInteger> feeList(String dst, boolean back) {
        List<BigInteger> l = fees.get(dst);
        if (l == null) {
            return new ArrayList<>();
        }
        return new ArrayList<>(back ? l : l.subList(0, l.size() / 2));
    }

    private void reward(String addr, String n, BigInteger v) {
        if (v.signum() > 0) {
            rewards.merge(addr + "|" + n, v, BigInteger::add);
        }
    }

    private void collect(Msg m) {
        if (m.feeNet != null) {
            reward(self.toString(), m.feeNet, Msg.sum(m.fee));
        }
    }

    BigInteger rewardOf(String addr, String n) { return rewards.getOrDefault(addr + "|" + n, BigInteger.ZERO); }

    void claimReward(Address c, BigInteger value, String n, String receiver) {
        balance = balance.add(value);
        Address who = c.equals(feeHandler) ? self : c;
        BigInteger v = rewardOf(who.toString(), n);
        if (v.signum() <= 0) {
            throw new Fail(UNKNOWN);
        }
        rewards.remove(who + "|" + n);
        if (n.equals(net)) {
            try {
                Address.fromString(receiver);
            } catch (IllegalArgumentException e) {
                throw new Fail(UNKNOWN);
            }
            given = given.add(value);
            balance = balance.subtract(v);
            if (balance.signum() < 0) {
                throw new Fail(ANY);
            }
            paid.merge(receiver, v, BigInteger::add);
            claims.add(who + " " + n + " " + receiver + " " + v + " 0");
        } else {
            Msg m = request(value, n, "bmc", null, Msg.claim(v, receiver));
            Req q = new Req();
            q.dst = n;
            q.amount = v;
            q.receiver = receiver;
            q.caller = who;
            requests.put(m.nsn, q);
            claims.add(who + " " + n + " " + receiver + " " + v + " " + m.nsn);
        }
    }

    // ---- sending

    private void send(Link l, Msg m) {
        l.tx++;
        Send s = new Send();
        s.next = l.addr;
        s.seq = l.tx;
        Long id = btpNet.get(l.addr);
        if (id != null) {
            if (brokenNetworks.contains(id)) {
                l.tx--;
                throw new Fail(UNKNOWN);
            }
            s.network = id;
        }
        s.msg = m.copy();
        sends.add(s);
    }

    private void event(Msg m, String next, String e) {
        btpEvents.add((m.nsn.signum() < 0 ? m.dst + " " + m.nsn.negate() : m.src + " " + m.nsn) + " " + next + " " + e);
    }

    private void drop(String prev, long seq, Msg m, int code) {
        event(m, "", "DROP");
        dropped.add(prev + " " + seq + " " + m.core() + " code" + code);
    }

    private Msg request(BigInteger value, String to, String svc, BigInteger sn, byte[] payload) {
        Link l = way(to);
        nsn = nsn.add(BigInteger.ONE);
        if (sn == null) {
            sn = nsn;
        }
        List<BigInteger> f = feeList(to, sn.signum() > 0);
        BigInteger over = value.subtract(Msg.sum(f));
        if (over.signum() < 0) {
            throw new Fail(UNKNOWN);
        }
        reward(self.toString(), net, over);
        Msg m = new Msg(net, to, svc, sn, payload, nsn).fee(net, f);
        send(l, m);
        event(m, l.addr, "SEND");
        return m;
    }

    private Msg reply(BigInteger value, String to, String svc, BigInteger sn, byte[] payload) {
        Link l = way(to);
        Resp r = resp.remove(to + "|" + svc + "|" + sn);
        if (r == null) {
            throw new Fail(UNKNOWN);
        }
        reward(self.toString(), net, value);
        Msg m = new Msg(net, to, svc, BigInteger.ZERO, payload, r.nsn.negate()).fee(r.net, r.fee);
        send(l, m);
        event(m, l.addr, "REPLY");
        return m;
    }

    BigInteger sendMessage(Address c, BigInteger value, String to, String svc, BigInteger sn, byte[] payload) {
        balance = balance.add(value);
        Address a = services.get(svc);
        if (a == null) {
            throw new Fail(NO_BSH);
        }
        if (!a.equals(c)) {
            throw new Fail(UNAUTH);
        }
        return sn.signum() < 0 ? reply(value, to, svc, sn.negate(), payload).nsn : request(value, to, svc, sn, payload).nsn;
    }

    private void sendError(Link prev, Msg m, int code, boolean bshFault) {
        Msg f = m.copy();
        if (m.feeNet != null && !m.fee.isEmpty()) {
            int hop = feeList(m.src, false).size();
            if (hop > 0 && m.fee.size() > hop) {
                // the way back is paid first
                List<BigInteger> l = new ArrayList<>(m.fee.subList(m.fee.size() - hop, m.fee.size()));
                l.addAll(m.fee.subList(0, m.fee.size() - hop));
                f.fee = l;
            }
        }
        long rc = bshFault ? 4 : code == UNREACHABLE ? 2 : code == NO_BSH ? 3 : 1;
        Msg e = new Msg(net, m.src, m.svc, m.sn.negate(), Msg.errorBytes(rc, ""), m.nsn.negate()).fee(f.feeNet, f.fee);
        send(prev, e);
        event(m, prev.addr, "ERROR");
    }

    // ---- receiving

    /** Fails like the verifier, or takes the messages it returned. */
    void handleRelayMessage(Address c, String prev, int verifierCode, List<byte[]> msgs) {
        Link l = linkAt(prev);
        if (!verifiers.containsKey(netOf(prev))) {
            throw new Fail(NO_BMV);
        }
        if (verifierCode != -2) {
            throw new Fail(verifierCode == ANY ? 0 : verifierCode);
        }
        if (!relays.getOrDefault(prev, new TreeSet<>()).contains(c.toString())) {
            throw new Fail(UNAUTH);
        }
        long seq = l.rx;
        l.rx += msgs.size();
        for (byte[] b : msgs) {
            seq++;
            Msg m;
            try {
                m = Msg.of(b);
            } catch (RuntimeException e) {
                throw new Fail(UNKNOWN);
            }
            if (m.feeNet != null && !m.fee.isEmpty()) {
                reward(c.toString(), m.feeNet, m.fee.remove(0));
            }
            int code;
            boolean bshFault = false;
            try {
                if (m.dst.equals(net)) {
                    handle(m);
                    event(m, "", "RECEIVE");
                } else {
                    Link n = way(m.dst);
                    send(n, m);
                    event(m, n.addr, "ROUTE");
                }
                continue;
            } catch (BshFault e) {
                code = 40 + e.code;
                bshFault = true;
            } catch (Fail e) {
                code = e.code;
            }
            Link p = linkAt(prev);
            if (m.sn.signum() > 0) {
                try {
                    sendError(p, m, code, bshFault);
                } catch (Fail e) {
                    collect(m);
                    drop(prev, seq, m, e.code);
                }
            } else {
                collect(m);
                drop(prev, seq, m, code);
            }
        }
    }

    static final class BshFault extends RuntimeException {
        final int code;

        BshFault(int code) {
            super(null, null, false, false);
            this.code = code;
        }
    }

    private void handle(Msg m) {
        Model before = copy();
        if (m.sn.signum() >= 0) {
            String key = m.src + "|" + m.svc + "|" + m.sn;
            if (m.feeNet != null && m.sn.signum() > 0) {
                Resp old = resp.get(key);
                if (old != null) {
                    reward(self.toString(), old.net, Msg.sum(old.fee));
                    before.take(this);
                }
                Resp r = new Resp();
                r.nsn = m.nsn;
                r.net = m.feeNet;
                r.fee = new ArrayList<>(m.fee);
                resp.put(key, r);
            }
            try {
                if (m.svc.equals("bmc")) {
                    internal(m);
                } else {
                    Address a = services.get(m.svc);
                    if (a == null) {
                        throw new Fail(NO_BSH);
                    }
                    callBsh(a, m);
                }
            } catch (Fail | BshFault e) {
                // nothing of it stays, apart from the waiting response it replaced
                take(before);
                if (m.feeNet != null && m.sn.signum() > 0) {
                    resp.remove(key);
                }
                throw e;
            }
            if (m.sn.signum() == 0) {
                collect(m);
            }
        } else {
            try {
                long code;
                try {
                    Rlp.Reader r = new Rlp.Reader(m.payload);
                    r.beginList();
                    code = r.readLong();
                    r.readNullable(String.class);
                    r.end();
                } catch (RuntimeException e) {
                    throw new BshFault(0);
                }
                if (m.svc.equals("bmc")) {
                    result(m.nsn.negate(), code);
                } else {
                    Address a = services.get(m.svc);
                    if (a == null) {
                        throw new Fail(NO_BSH);
                    }
                    if (!contracts.contains(a)) {
                        throw new BshFault(0);
                    }
                    bsh.add("error " + a + " " + m.src + " " + m.svc + " " + m.sn.negate() + " " + code);
                    if (errorHandler >= -1) {
                        throw new BshFault(Math.max(errorHandler, 0));
                    }
                }
            } catch (Fail | BshFault e) {
                take(before);
                throw e;
            }
            collect(m);
        }
    }

    private void internal(Msg m) {
        String type;
        byte[] p;
        try {
            Rlp.Reader r = new Rlp.Reader(m.payload);
            r.beginList();
            type = r.readString();
            p = r.readByteArray();
            r.end();
        } catch (RuntimeException e) {
            throw new BshFault(0);
        }
        Rlp.Reader r = new Rlp.Reader(p);
        switch (type) {
            case "Claim": {
                r.beginList();
                BigInteger v = r.readBigInteger();
                String to = r.readString();
                try {
                    Address.fromString(to);
                } catch (IllegalArgumentException e) {
                    throw new Fail(UNKNOWN);
                }
                reward(to, net, v);
                reply(BigInteger.ZERO, m.src, "bmc", m.nsn, Msg.response(0));
                return;
            }
            case "Response": {
                r.beginList();
                result(m.nsn.negate(), r.readLong());
                return;
            }
            case "Link":
            case "Unlink": {
                r.beginList();
                String a = r.readString();
                Link l = links.get(m.src);
                if (l == null) {
                    throw new Fail(NO_LINK);
                }
                if (type.equals("Link")) {
                    l.reach.add(a);
                } else {
                    l.reach.remove(a);
                }
                return;
            }
            case "Init": {
                Link l = links.get(m.src);
                if (l == null) {
                    throw new Fail(NO_LINK);
                }
                r.beginList();
                r.beginList();
                while (r.hasNext()) {
                    l.reach.add(r.readString());
                }
                return;
            }
            default:
                throw new BshFault(0);
        }
    }

    private void result(BigInteger n, long code) {
        Req q = requests.remove(n);
        if (q == null) {
            throw new Fail(UNKNOWN);
        }
        if (code != 0) {
            reward(q.caller.toString(), q.dst, q.amount);
        }
        results.add(q.caller + " " + q.dst + " " + n + " " + code);
    }

    /** The payload of a message tells a service of the harness what to do. */
    static List<String[]> script(byte[] payload) {
        List<String[]> l = new ArrayList<>();
        String s = new String(payload, StandardCharsets.UTF_8);
        if (s.startsWith("!")) {
            for (String x : s.substring(1).split(";")) {
                l.add(x.split(":"));
            }
        }
        return l;
    }

    private void callBsh(Address a, Msg m) {
        if (!contracts.contains(a)) {
            throw new BshFault(0);
        }
        Model before = copy();
        try {
            bsh.add("message " + a + " " + m.src + " " + m.svc + " " + m.sn + " " + Crypto.hex(m.payload));
            for (String[] x : script(m.payload)) {
                Model inner = copy();
                try {
                    switch (x[0]) {
                        case "rev":
                            throw new BshFault(Integer.parseInt(x[1]));
                        case "fail":
                            throw new BshFault(0);
                        case "reply":
                        case "tryreply": {
                            BigInteger v = new BigInteger(x[1]);
                            sendMessage(a, v, m.src, m.svc, m.sn.negate(), x[2].getBytes());
                            spent = spent.add(v);
                            break;
                        }
                        case "send":
                        case "trysend": {
                            BigInteger v = new BigInteger(x[3]);
                            sendMessage(a, v, x[1], m.svc, new BigInteger(x[2]), x[4].getBytes());
                            spent = spent.add(v);
                            break;
                        }
                        default:
                    }
                } catch (Fail e) {
                    take(inner);
                    if (!x[0].startsWith("try")) {
                        throw new BshFault(0);
                    }
                }
            }
        } catch (BshFault e) {
            take(before);
            throw e;
        }
    }

    // ---- fragments

    /** The bytes of a whole relay message once its last piece has come. */
    byte[] handleFragment(Address c, String prev, byte[] part, int idx) {
        linkAt(prev);
        if (!relays.getOrDefault(prev, new TreeSet<>()).contains(c.toString())) {
            throw new Fail(UNAUTH);
        }
        String key = prev + "|" + c;
        if (idx < 0) {
            Frag f = new Frag();
            f.next = -idx - 1;
            f.sofar = part;
            frags.put(key, f);
            return null;
        }
        Frag f = frags.get(key);
        if (f == null) {
            throw new Fail(ANY);
        }
        if (f.next != idx) {
            throw new Fail(UNKNOWN);
        }
        byte[] all = new byte[f.sofar.length + part.length];
        System.arraycopy(f.sofar, 0, all, 0, f.sofar.length);
        System.arraycopy(part, 0, all, f.sofar.length, part.length);
        if (idx == 0) {
            return all;
        }
        Frag g = new Frag();
        g.next = idx - 1;
        g.sofar = all;
        frags.put(key, g);
        return null;
    }

    void dropMessage(Address c, String src, BigInteger seq, String svc, BigInteger sn, BigInteger n, String feeNet, BigInteger[] fee) {
        owner(c);
        Link p = way(src);
        if (!seq.equals(BigInteger.valueOf(p.rx + 1))) {
            throw new Fail(UNKNOWN);
        }
        if (!services.containsKey(svc)) {
            throw new Fail(NO_BSH);
        }
        if (n.signum() == 0 || n.signum() * sn.signum() < 0) {
            throw new Fail(SN);
        }
        p.rx++;
        Msg m = new Msg(src, "", svc, sn, new byte[0], n);
        if (!feeNet.isEmpty()) {
            m.fee(feeNet, Msg.list(fee));
            if (!m.fee.isEmpty()) {
                reward(self.toString(), feeNet, m.fee.remove(0));
            }
        }
        if (sn.signum() > 0) {
            sendError(p, m, DROP, false);
        } else {
            collect(m);
            drop(p.addr, seq.longValue(), m, DROP);
        }
    }
}
