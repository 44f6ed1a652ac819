package h;

import foundation.icon.btp.xcall.CallServiceImpl__Rec;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import score.Address;
import score.RevertedException;
import vm.Chain;
import vm.Crypto;
import vm.Rlp;

/** Calls between chains (Y01): executed once, rolled back once and only when they failed. */
public final class Y {
    public static void run(Mon m) {
        m.group("calls", m.n(300, 6000), k -> calls(k, 60));
        m.group("long", m.n(10, 100), k -> calls(k, 600));
    }

    static final String[] NETS = {"0x1.icon", "0x2.icon", "0x3.bsc"};
    static final BigInteger RICH = BigInteger.TEN.pow(12);

    /** A message between two networks. */
    static final class Msg {
        String from;
        String to;
        BigInteger sn;
        byte[] payload;
        int times; // how often it was delivered
    }

    static final class Req {
        Address from;
        String to;
        byte[] rollback;
        boolean enabled;
    }

    static final class Call {
        String from;
        String to;
        BigInteger sn;
        boolean rollback;
        byte[] data;
    }

    static final class Refused extends RuntimeException {
        Refused() { super(null, null, false, false); }
    }

    /** A chain with a message centre of the harness, the service under observation and callers. */
    static final class Node {
        final Mon.Case k;
        final Chain chain;
        final Address owner, bmc, xcall;
        final List<Address> people = new ArrayList<>(), dapps = new ArrayList<>();
        final Map<String, BigInteger> fees = new TreeMap<>();
        boolean broken; // the centre refuses everything
        long nsn;
        Object nowId;   // what is being executed
        boolean nowRollback;
        // the model
        BigInteger sn = BigInteger.ZERO, reqId = BigInteger.ZERO, fee = BigInteger.ZERO;
        Address admin, handler;
        Map<BigInteger, Req> requests = new TreeMap<>();
        Map<BigInteger, Call> calls = new TreeMap<>();
        Set<String> answers = new HashSet<>(); // what the centre lets the service answer
        Map<String, BigInteger> bal = new TreeMap<>();
        List<String> want = new ArrayList<>();
        List<Msg> sent = new ArrayList<>();

        Node(Mon.Case k, String net) {
            this.k = k;
            chain = new Chain(net);
            owner = chain.newAddress(false);
            bmc = chain.newAddress(true);
            chain.registerAt(bmc, (Chain.Native) this::centre);
            xcall = chain.deploy(owner, () -> new CallServiceImpl__Rec(bmc));
            for (int i = 0; i < 3; i++) {
                people.add(chain.newAddress(false));
                Address d = chain.newAddress(true);
                chain.registerAt(d, (Chain.Native) this::dapp);
                dapps.add(d);
            }
            people.add(owner);
            for (Address a : all()) {
                if (!a.equals(bmc) && !a.equals(xcall)) {
                    chain.mint(a, RICH);
                }
                bal.put(a.toString(), chain.balance(a));
            }
        }

        List<Address> all() {
            List<Address> l = new ArrayList<>(people);
            l.addAll(dapps);
            l.add(bmc);
            l.add(xcall);
            return l;
        }

        String me() { return "btp://" + chain.net + "/" + xcall; }

        Object centre(String m, Object[] p) {
            switch (m) {
                case "getBtpAddress": return "btp://" + chain.net + "/" + bmc;
                case "getFee": {
                    if (!fees.containsKey(p[0])) {
                        throw new Chain.Revert(16, "unreachable");
                    }
                    return routeFee((String) p[0], (Boolean) p[1]);
                }
                case "sendMessage": {
                    BigInteger s = (BigInteger) p[2];
                    BigInteger v = Chain.frame().value;
                    if (broken || !fees.containsKey(p[0]) || !p[1].equals("xcall")) {
                        throw new Chain.Revert(10, "refused");
                    }
                    if (s.signum() < 0 ? !answers.contains(p[0] + " " + s.negate()) : v.compareTo(routeFee((String) p[0], s.signum() > 0)) < 0) {
                        throw new Chain.Revert(10, "no response or fee");
                    }
                    nsn++;
                    Chain.event("sent", p[0], s, p[3], v, BigInteger.valueOf(nsn));
                    return BigInteger.valueOf(nsn);
                }
                default: throw new Chain.Revert(1, m);
            }
        }

        BigInteger routeFee(String net, boolean response) {
            BigInteger f = fees.get(net);
            return response ? f.add(f).add(BigInteger.ONE) : f;
        }

        /** A caller's contract: notes what it gets and does what it says. */
        Object dapp(String m, Object[] p) {
            if (!m.equals("handleCallMessage")) {
                throw new Chain.Revert(1, m);
            }
            Address self = Chain.frame().self;
            Chain.event("dapp", self, Chain.frame().caller, p[0], p[1]);
            for (String s : script((byte[]) p[1])) {
                if (s.startsWith("rev")) {
                    throw new Chain.Revert(Integer.parseInt(s.substring(3)), "refused");
                } else if (s.equals("fail")) {
                    throw new IllegalStateException("broken");
                } else if (s.equals("again") && nowId != null) {
                    Object id = nowId;
                    nowId = null;
                    try {
                        chain.call(BigInteger.ZERO, xcall, nowRollback ? "executeRollback" : "executeCall", id);
                        Chain.event("executed again", id);
                    } catch (RevertedException e) {
                        // as it has to be
                    }
                } else if (s.equals("send")) {
                    chain.call(BigInteger.valueOf(500), xcall, "sendCallMessage", nested(), "ok;nested".getBytes(), "ok;back".getBytes());
                }
            }
            return null;
        }

        String nested() { return "btp://" + NETS[0] + "/cx00"; }

        static String[] script(byte[] data) {
            String s = new String(data);
            int i = s.indexOf(';');
            return i < 0 ? new String[0] : s.substring(0, i).split(" ");
        }

        // ---- the model

        void coins(Address from, Address to, BigInteger v) {
            if (v.signum() == 0) {
                return;
            }
            if (bal.get(from.toString()).compareTo(v) < 0) {
                throw new Refused();
            }
            bal.merge(from.toString(), v.negate(), BigInteger::add);
            bal.merge(to.toString(), v, BigInteger::add);
        }

        void out(String to, BigInteger s, byte[] payload, BigInteger v) {
            want.add("sent " + to + " " + s + " " + hex(payload) + " " + v);
        }

        BigInteger mSend(Address from, BigInteger value, String to, byte[] data, byte[] back) {
            coins(from, xcall, value);
            if (!from.isContract() && back != null || data.length > 2048 || back != null && back.length > 1024) {
                throw new Refused();
            }
            int i = to.indexOf("://"), j = i < 0 ? -1 : to.indexOf('/', i + 3);
            if (i <= 0 || j < 0 || j == i + 3 || j + 1 == to.length()) {
                throw new Refused();
            }
            String net = to.substring(i + 3, j), acc = to.substring(j + 1);
            if (!fees.containsKey(net) || net.contains(":") || value.compareTo(fee.add(routeFee(net, back != null))) < 0 || broken) {
                throw new Refused();
            }
            if (handler != null) {
                coins(xcall, handler, fee);
            }
            sn = sn.add(BigInteger.ONE);
            coins(xcall, bmc, value.subtract(fee));
            if (back != null) {
                Req r = new Req();
                r.from = from;
                r.to = to;
                r.rollback = back;
                requests.put(sn, r);
            }
            out(net, back != null ? sn : BigInteger.ZERO, Enc.list(Enc.num(1), Enc.bytes(Enc.list(Enc.bytes(from.toString().getBytes()),
                    Enc.bytes(acc.getBytes()), Enc.num(sn), Enc.num(back != null ? 1 : 0), Enc.bytes(data)))), value.subtract(fee));
            want.add("CallMessageSent " + from + " " + to + " " + sn);
            return sn;
        }

        /** What a caller's contract does with a message: 0 or the code of its failure. */
        int mDapp(Address a, String from, byte[] data) {
            if (a == null || !dapps.contains(a)) {
                return -1;
            }
            Map<String, BigInteger> b0 = new TreeMap<>(bal);
            Map<BigInteger, Req> r0 = new TreeMap<>(requests);
            BigInteger s0 = sn;
            int w0 = want.size(), code = 0;
            want.add("dapp " + a + " " + xcall + " " + from + " " + hex(data));
            try {
                for (String s : script(data)) {
                    if (s.startsWith("rev")) {
                        code = Integer.parseInt(s.substring(3));
                        code = code == 0 ? -1 : code;
                        throw new Refused();
                    } else if (s.equals("fail")) {
                        code = -1;
                        throw new Refused();
                    } else if (s.equals("send")) {
                        code = Integer.MIN_VALUE; // whatever it fails with
                        mSend(a, BigInteger.valueOf(500), nested(), "ok;nested".getBytes(), "ok;back".getBytes());
                        code = 0;
                    }
                }
            } catch (Refused e) {
                bal = b0;
                requests = r0;
                sn = s0;
                while (want.size() > w0) {
                    want.remove(want.size() - 1);
                }
            }
            return code;
        }

        void mExecute(BigInteger id) {
            Call c = calls.remove(id);
            if (c == null) {
                throw new Refused();
            }
            String net = c.from.substring(6, c.from.indexOf('/', 6));
            int code = mDapp(address(c.to), c.from, c.data);
            want.add("CallExecuted " + id + " " + code);
            if (c.rollback) {
                if (broken || !fees.containsKey(net) || !answers.contains(net + " " + c.sn)) {
                    throw new Refused();
                }
                want.add("response " + net + " " + c.sn.negate() + " " + c.sn + " " + code);
            }
        }

        void mRollback(BigInteger s) {
            Req r = requests.get(s);
            if (r == null || !r.enabled) {
                throw new Refused();
            }
            requests.remove(s);
            int code = mDapp(r.from, me(), r.rollback);
            want.add("RollbackExecuted " + s + " " + code);
        }

        void mResponse(BigInteger s, int code, String msg) {
            Req r = requests.get(s);
            if (r == null) {
                return;
            }
            want.add("ResponseMessage " + s + " " + code + (msg == null ? "" : " " + msg));
            if (code == 0) {
                requests.remove(s);
            } else {
                Req n = new Req();
                n.from = r.from;
                n.to = r.to;
                n.rollback = r.rollback;
                n.enabled = true;
                requests.put(s, n);
                want.add("RollbackMessage " + s);
            }
        }

        // ---- the comparison

        /** Text of what happened; msgs gets what was sent. */
        List<String> happened(boolean btpError, List<Msg> msgs) {
            List<String> l = new ArrayList<>();
            List<Chain.Event> events = chain.takeEvents();
            List<Object> numbers = new ArrayList<>();
            for (Chain.Event e : events) {
                if (e.name.equals("sent")) {
                    numbers.add(e.args[4]);
                }
            }
            for (Chain.Event e : events) {
                Object[] a = e.args;
                switch (e.name) {
                    case "sent": {
                        Msg m = new Msg();
                        m.from = chain.net;
                        m.to = (String) a[0];
                        m.sn = (BigInteger) a[1];
                        m.payload = (byte[]) a[2];
                        msgs.add(m);
                        int type = 0;
                        try {
                            Rlp.Reader r = new Rlp.Reader(m.payload);
                            r.beginList();
                            type = r.readInt();
                            if (type == 2 && a[3].equals(BigInteger.ZERO)) {
                                Rlp.Reader q = new Rlp.Reader(r.readByteArray());
                                q.beginList();
                                l.add("response " + a[0] + " " + a[1] + " " + q.readBigInteger() + " " + code(q.readInt()));
                                break;
                            }
                        } catch (RuntimeException x) {
                            // shown as it is
                        }
                        l.add("sent " + a[0] + " " + a[1] + " " + hex(m.payload) + " " + a[3]);
                        break;
                    }
                    case "dapp": l.add("dapp " + a[0] + " " + a[1] + " " + a[2] + " " + hex((byte[]) a[3])); break;
                    case "CallMessageSent":
                        l.add("CallMessageSent " + a[0] + " " + a[1] + " " + a[2]);
                        if (!numbers.remove(a[3])) {
                            l.add("network number " + a[3]);
                        }
                        break;
                    case "CallExecuted": l.add("CallExecuted " + a[0] + " " + code((Integer) a[1])); break;
                    case "RollbackExecuted": l.add("RollbackExecuted " + a[0] + " " + code((Integer) a[1])); break;
                    case "ResponseMessage": l.add("ResponseMessage " + a[0] + " " + a[1] + (btpError ? "" : " " + a[2])); break;
                    default: l.add(e.name + " " + Enc.show(a).replaceAll("[\\[\\],]", ""));
                }
            }
            return l;
        }

        boolean anyCode;

        String code(int c) { return anyCode && c != 0 ? "" + Integer.MIN_VALUE : "" + c; }

        /** One transaction, on the service and on the model. */
        boolean op(String sig, Address from, BigInteger value, boolean btpError, Runnable model, String method, Object... params) {
            k.add("\n" + chain.net + " " + from + " +" + value + " " + method + Mon.cut(Enc.show(params), 400));
            Map<String, BigInteger> b0 = new TreeMap<>(bal);
            Map<BigInteger, Req> r0 = new TreeMap<>(requests);
            Map<BigInteger, Call> c0 = new TreeMap<>(calls);
            BigInteger s0 = sn, i0 = reqId, f0 = fee;
            Address a0 = admin, h0 = handler;
            want.clear();
            boolean ok = true;
            try {
                model.run();
            } catch (Refused e) {
                ok = false;
                bal = b0;
                requests = r0;
                calls = c0;
                sn = s0;
                reqId = i0;
                fee = f0;
                admin = a0;
                handler = h0;
                want.clear();
            }
            anyCode = want.toString().contains("" + Integer.MIN_VALUE);
            chain.takeEvents();
            String before = chain.dump(), err = "";
            boolean done = true;
            Object ret = null;
            try {
                chain.signer = k.chance(20) ? k.any(people) : null;
                ret = chain.tx(from, value, xcall, method, params);
            } catch (RevertedException e) {
                done = false;
                err = e.toString();
            } finally {
                chain.signer = null;
            }
            k.count(method + (ok ? "" : " refused"), 1);
            k.check(ok == done, (ok ? "refused:" : "accepted:") + sig, (ok ? "refused: " + err : "was taken") + " " + method + Enc.show(params));
            if (!done) {
                k.check(before.equals(chain.dump()), "state:" + sig, "a refused call changed the state");
            }
            List<Msg> msgs = new ArrayList<>();
            List<String> got = happened(btpError, msgs), w = new ArrayList<>(want);
            Collections.sort(got);
            Collections.sort(w);
            k.check(got.equals(w), "effects:" + sig, "expected " + w + "\nobserved " + got);
            if (method.equals("sendCallMessage") && done) {
                k.check(sn.equals(ret), "sn", "returned " + ret + " in place of " + sn);
            }
            for (Msg m : msgs) {
                if (m.sn.signum() < 0) {
                    answers.remove(m.to + " " + m.sn.negate());
                    m.sn = BigInteger.ZERO;
                }
                sent.add(m);
            }
            for (Address a : all()) {
                k.check(bal.get(a.toString()).equals(chain.balance(a)), "balance:" + sig, a + (a.equals(xcall) ? " (service)" : a.equals(bmc) ? " (centre)" : "")
                        + " has " + chain.balance(a) + " in place of " + bal.get(a.toString()));
            }
            view();
            k.seen(sig, done, want.size(), requests.size() > 3, calls.size() > 3, fee.signum(), handler == null, broken);
            return done;
        }

        Object read(String m, Object... p) { return chain.tx(k.any(people), BigInteger.ZERO, xcall, m, p); }

        void view() {
            k.check(me().equals(read("getBtpAddress")), "address", "" + read("getBtpAddress"));
            k.check((admin == null ? owner : admin).equals(read("admin")), "admin", read("admin") + " in place of " + admin);
            Object h = read("getProtocolFeeHandler");
            k.check(handler == null ? h == null : handler.equals(h), "handler", h + " in place of " + handler);
            k.check(fee.equals(read("getProtocolFee")), "fee", read("getProtocolFee") + " in place of " + fee);
            String net = k.any(new ArrayList<>(fees.keySet()));
            boolean rb = k.chance(50);
            Object f = read("getFee", net, rb);
            k.check(fee.add(routeFee(net, rb)).equals(f), "getFee", f + " in place of " + fee.add(routeFee(net, rb)));
            if (k.chance(3)) {
                boolean ok = false;
                String bad = k.of("", "0x1.icon/", "btp://0x1.icon", "0x1:icon", "0x9.none");
                if (k.chance(50)) {
                    fees.putIfAbsent("0x1:icon", BigInteger.ONE); // even if a centre knew it
                    fees.putIfAbsent("0x1.icon/", BigInteger.ONE);
                }
                try {
                    read("getFee", bad, rb);
                } catch (RevertedException e) {
                    ok = true;
                }
                fees.remove("0x1:icon");
                fees.remove("0x1.icon/");
                k.check(ok, "getFee", "a fee for the network \"" + bad + "\"");
            }
        }
    }

    static String hex(byte[] b) { return b == null ? "null" : Crypto.hex(b); }

    static Address address(String s) {
        try {
            return Address.fromString(s);
        } catch (RuntimeException e) {
            return null;
        }
    }

    static byte[] data(Mon.Case k, int limit) {
        if (k.chance(5)) {
            return new byte[0];
        }
        StringBuilder s = new StringBuilder();
        if (k.chance(20)) {
            s.append("again ");
        }
        if (k.chance(12)) {
            s.append("send ");
        }
        s.append(k.of("ok", "ok", "ok", "rev0", "rev" + (1 + k.pick(60)), "rev" + k.of(1, 99, 1000, 0x7fffffff), "fail")).append(';');
        int n = k.chance(90) ? k.pick(40) : k.of(limit - s.length(), limit + 1 - s.length(), limit + 1000);
        byte[] b = new byte[n];
        k.r.nextBytes(b);
        return Enc.cat(s.toString().getBytes(), b);
    }

    static void calls(Mon.Case k, int steps) {
        Map<String, Node> ns = new LinkedHashMap<>();
        for (String n : NETS) {
            ns.put(n, new Node(k, n));
        }
        for (Node n : ns.values()) {
            for (String o : NETS) {
                if (!o.equals(n.chain.net) && k.chance(90) || o.equals(NETS[0])) {
                    n.fees.put(o, BigInteger.valueOf(k.pick(20)));
                }
            }
        }
        List<Msg> wire = new ArrayList<>();
        k.input("");
        for (int i = 0; i < steps; i++) {
            Node n = k.any(new ArrayList<>(ns.values()));
            n.broken = k.chance(4);
            int x = k.pick(100);
            if (x < 28) {
                Address from = k.chance(70) ? k.any(n.dapps) : k.any(n.people);
                byte[] data = data(k, 2048);
                byte[] back = k.chance(from.isContract() ? 30 : 85) ? null : k.chance(8) ? new byte[0] : data(k, 1024);
                String net = k.chance(95) ? k.any(new ArrayList<>(n.fees.keySet())) : k.of("0x9.none", "", "0x2:icon");
                Node d = ns.get(net);
                String acc = d == null ? "x" : k.chance(85) ? k.any(d.dapps).toString() : k.of(k.any(d.people).toString(), "0x1234", "cx01", "a/b", "", d.chain.newAddress(true).toString());
                String to = (k.chance(97) ? "btp://" : k.of("", "://", "btp:/")) + net + "/" + acc;
                BigInteger need = n.fee.add(n.fees.containsKey(net) ? n.routeFee(net, back != null) : BigInteger.TEN);
                BigInteger v = need.add(BigInteger.valueOf(k.chance(60) ? 0 : k.of(-1, 1, 7, -3, 100))).max(BigInteger.ZERO);
                n.op("send", from, v, false, () -> n.mSend(from, v, to, data, back), "sendCallMessage", to, data, back);
            } else if (x < 55) {
                // something on its way arrives, or fails on its way
                if (wire.isEmpty()) {
                    continue;
                }
                Msg m = wire.remove(k.pick(wire.size()));
                deliver(k, ns, m, wire);
            } else if (x < 72) {
                List<BigInteger> ids = new ArrayList<>(n.calls.keySet());
                BigInteger id = ids.isEmpty() || k.chance(12) ? n.reqId.add(BigInteger.valueOf(k.of(0, 1, -1, -2, 5))) : k.any(ids);
                n.nowId = id;
                n.nowRollback = false;
                n.op("executeCall", k.any(n.all()), BigInteger.ZERO, false, () -> n.mExecute(id), "executeCall", id);
                n.nowId = null;
            } else if (x < 84) {
                List<BigInteger> ids = new ArrayList<>(n.requests.keySet());
                BigInteger id = ids.isEmpty() || k.chance(15) ? n.sn.add(BigInteger.valueOf(k.of(0, 1, -1, -2, 5))) : k.any(ids);
                for (BigInteger s : ids) {
                    if (n.requests.get(s).enabled && k.chance(40)) {
                        id = s;
                    }
                }
                BigInteger s = id;
                n.nowId = id;
                n.nowRollback = true;
                n.op("executeRollback", k.any(n.all()), BigInteger.ZERO, false, () -> n.mRollback(s), "executeRollback", s);
                n.nowId = null;
            } else if (x < 85) {
                // new code, on the state there is
                Address other = k.any(n.all());
                k.add("\n" + n.chain.net + " update " + other);
                String err = "";
                try {
                    n.chain.update(n.xcall, () -> new CallServiceImpl__Rec(other));
                } catch (RevertedException e) {
                    err = e.toString();
                }
                n.chain.takeEvents();
                k.check(err.isEmpty(), "update", "an update of the code failed: " + err);
                n.view();
            } else if (x < 92) {
                admin(k, n);
            } else {
                hostile(k, n);
            }
            for (Node o : ns.values()) {
                wire.addAll(o.sent);
                o.sent.clear();
            }
        }
    }

    static void deliver(Mon.Case k, Map<String, Node> ns, Msg m, List<Msg> wire) {
        Node d = ns.get(m.to), s = ns.get(m.from);
        Rlp.Reader r = new Rlp.Reader(m.payload);
        r.beginList();
        int type = r.readInt();
        byte[] body = r.readByteArray();
        if (type == 1 && m.sn.signum() > 0 && (d == null || k.chance(20))) {
            String msg = k.of("", "NoRoute", "\u00e9");
            BigInteger sn = m.sn;
            s.op("error", s.bmc, BigInteger.ZERO, true, () -> s.mResponse(sn, -2, null), "handleBTPError", k.of(m.to, "0x7.hop"), "xcall", sn,
                    BigInteger.valueOf(k.of(0, 1, 2, 3, 12)), msg);
            return;
        }
        if (d == null) {
            return;
        }
        Rlp.Reader q = new Rlp.Reader(body);
        q.beginList();
        if (type == 1) {
            Call c = new Call();
            c.from = "btp://" + m.from + "/" + q.readString();
            c.to = q.readString();
            c.sn = q.readBigInteger();
            c.rollback = q.readBoolean();
            c.data = q.readByteArray();
            if (m.sn.signum() > 0) {
                d.answers.add(m.from + " " + m.sn);
            }
            d.op("request", d.bmc, BigInteger.ZERO, false, () -> {
                d.reqId = d.reqId.add(BigInteger.ONE);
                d.calls.put(d.reqId, c);
                d.want.add("CallMessage " + c.from + " " + c.to + " " + c.sn + " " + d.reqId);
            }, "handleBTPMessage", m.from, "xcall", m.sn, m.payload);
            return;
        }
        BigInteger sn = q.readBigInteger();
        int code = q.readInt();
        String text = q.readNullable(String.class);
        d.op("response", d.bmc, BigInteger.ZERO, false, () -> d.mResponse(sn, code, text == null ? "" : text), "handleBTPMessage", m.from, "xcall", m.sn, m.payload);
        if (m.times++ < 1 && k.chance(10)) {
            wire.add(m); // and once more: of no effect unless the call is still waiting
        }
    }

    static void admin(Mon.Case k, Node n) {
        Address from = k.chance(60) ? (n.admin == null ? n.owner : n.admin) : k.any(n.all());
        Address adm = n.admin == null ? n.owner : n.admin;
        switch (k.pick(3)) {
            case 0: {
                Address o = k.chance(70) ? n.owner : from, a = k.any(n.people);
                n.op("setAdmin", o, BigInteger.ZERO, false, () -> {
                    if (!o.equals(n.owner)) {
                        throw new Refused();
                    }
                    n.admin = a;
                }, "setAdmin", a);
                break;
            }
            case 1: {
                BigInteger v = BigInteger.valueOf(k.of(-1, 0, 1, 5, 30));
                n.op("setProtocolFee", from, BigInteger.ZERO, false, () -> {
                    if (!from.equals(adm) || v.signum() < 0) {
                        throw new Refused();
                    }
                    n.fee = v;
                }, "setProtocolFee", v);
                break;
            }
            default: {
                Address a = k.chance(30) ? null : k.any(n.people);
                n.op("setProtocolFeeHandler", from, BigInteger.ZERO, false, () -> {
                    if (!from.equals(adm)) {
                        throw new Refused();
                    }
                    n.handler = a;
                    if (a != null) {
                        n.coins(n.xcall, a, n.bal.get(n.xcall.toString()));
                    }
                }, "setProtocolFeeHandler", a);
            }
        }
    }

    static void hostile(Mon.Case k, Node n) {
        byte[] body = Enc.list(Enc.num(BigInteger.valueOf(1 + k.pick(5))), Enc.num(k.of(0, -1, 5)), Enc.bytes("x".getBytes()));
        byte[] req = Enc.list(Enc.bytes("cx12".getBytes()), Enc.bytes(k.any(n.dapps).toString().getBytes()), Enc.num(1), Enc.num(0), Enc.bytes("ok;".getBytes()));
        Address other = k.any(n.all());
        if (other.equals(n.bmc)) {
            other = n.owner;
        }
        Runnable no = () -> {
            throw new Refused();
        };
        BigInteger sn = BigInteger.valueOf(k.pick(5));
        switch (k.pick(7)) {
            case 0:
                n.op("caller", other, BigInteger.ZERO, false, no, "handleBTPMessage", NETS[0], "xcall", sn, Enc.list(Enc.num(2), Enc.bytes(body)));
                break;
            case 1:
                n.op("caller", other, BigInteger.ZERO, false, no, "handleBTPMessage", NETS[0], "xcall", sn, Enc.list(Enc.num(1), Enc.bytes(req)));
                break;
            case 2:
                n.op("caller", other, BigInteger.ZERO, true, no, "handleBTPError", NETS[0], "xcall", sn, BigInteger.ONE, "x");
                break;
            case 3:
                n.op("service", n.bmc, BigInteger.ZERO, false, no, "handleBTPMessage", NETS[0], k.of("xcal", "xcall2", "", "XCALL"), sn, Enc.list(Enc.num(k.of(1, 2)), Enc.bytes(k.of(body, req))));
                break;
            case 4:
                n.op("service", n.bmc, BigInteger.ZERO, true, no, "handleBTPError", NETS[0], "bmc", sn, BigInteger.ONE, "x");
                break;
            case 5:
                n.op("kind", n.bmc, BigInteger.ZERO, false, no, "handleBTPMessage", NETS[0], "xcall", sn, Enc.list(Enc.num(k.of(0, 3, 17)), Enc.bytes(k.of(body, req))));
                break;
            default: {
                BigInteger far = n.sn.add(BigInteger.valueOf(1 + k.pick(9)));
                byte[] late = Enc.list(Enc.num(far), Enc.num(-1), Enc.bytes("x".getBytes()));
                n.op("unknown response", n.bmc, BigInteger.ZERO, false, () -> { }, "handleBTPMessage", NETS[0], "xcall", BigInteger.ZERO, Enc.list(Enc.num(2), Enc.bytes(late)));
            }
        }
    }
}
