package h;

import foundation.icon.btp.FeeAggregationSCORE__Rec;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import score.Address;
import score.Context;
import score.DictDB;
import score.RevertedException;
import score.UserRevertedException;
import score.annotation.External;
import vm.Chain;

/**
 * The auctions of gathered fees: the real contract with tokens, a price and a treasury that are
 * part of the harness, and a model of every balance.
 */
public final class H {
    static final BigInteger O = BigInteger.ZERO, RICH = BigInteger.TEN.pow(30), HUNDRED = BigInteger.valueOf(100);

    public static void run(Mon m) {
        m.group("auctions", m.n(300, 9000), k -> auctions(k, 60));
        m.group("long", m.n(8, 200), k -> auctions(k, 600));
    }

    static final class Refused extends RuntimeException {
        final int code;

        Refused(int code) {
            super("refused", null, false, false);
            this.code = code;
        }
    }

    /** A token of either kind. */
    public static final class Tok {
        final DictDB<String, BigInteger> b = Context.newDictDB("b", BigInteger.class);
        final boolean many;
        final BigInteger decimals;

        Tok(boolean many, int decimals) {
            this.many = many;
            this.decimals = BigInteger.valueOf(decimals);
        }

        private void add(Address a, BigInteger id, BigInteger v) {
            BigInteger n = b.getOrDefault(a + "/" + id, O).add(v);
            Context.require(n.signum() >= 0, "out of balance");
            b.set(a + "/" + id, n);
        }

        private void hook(Address from, Address to, BigInteger id, BigInteger v) {
            if (to.isContract() && many) {
                Context.call(to, "onIRC31Received", Context.getCaller(), from, id, v, new byte[0]);
            } else if (to.isContract()) {
                Context.call(to, "tokenFallback", from, v, new byte[0]);
            }
        }

        @External
        public void mint(Address to, BigInteger id, BigInteger v) {
            add(to, id, v);
            hook(to, to, id, v);
        }

        @External(readonly = true)
        public BigInteger balanceOf(Address a, BigInteger id) {
            Context.require(many == (id != null));
            return b.getOrDefault(a + "/" + (id == null ? O : id), O);
        }

        @External(readonly = true)
        public BigInteger decimals() {
            Context.require(!many);
            return decimals;
        }

        @External
        public void transfer(Address to, BigInteger v, byte[] data) {
            Context.require(!many && v.signum() >= 0);
            add(Context.getCaller(), O, v.negate());
            add(to, O, v);
            hook(Context.getCaller(), to, O, v);
        }

        @External
        public void transferFrom(Address from, Address to, BigInteger id, BigInteger v, byte[] data) {
            Context.require(many && v.signum() >= 0 && from.equals(Context.getCaller()));
            add(from, id, v.negate());
            add(to, id, v);
            hook(from, to, id, v);
        }
    }

    static final class Info {
        String name;
        Address tok;
        BigInteger id;
        int decimals;
        BigInteger price;
    }

    static final class Syn {
        BigInteger id, amount, total = O;
        long start, end;
        Map<Address, BigInteger> by = new LinkedHashMap<>();
    }

    static final class State {
        TreeMap<String, BigInteger> v = new TreeMap<>();
        TreeMap<String, Syn> open = new TreeMap<>();
        List<String> names = new ArrayList<>();
        BigInteger count = O;
        long duration = 43200000000L;
        List<String> events = new ArrayList<>();

        State copy() {
            State s = new State();
            s.v.putAll(v);
            for (Map.Entry<String, Syn> e : open.entrySet()) {
                Syn x = e.getValue(), y = new Syn();
                y.id = x.id;
                y.amount = x.amount;
                y.total = x.total;
                y.start = x.start;
                y.end = x.end;
                y.by.putAll(x.by);
                s.open.put(e.getKey(), y);
            }
            s.names.addAll(names);
            s.count = count;
            s.duration = duration;
            return s;
        }

        BigInteger get(String key) { return v.getOrDefault(key, O); }

        void add(String key, BigInteger x) {
            BigInteger n = get(key).add(x);
            if (n.signum() < 0) {
                throw new Refused(-1);
            }
            v.put(key, n);
        }
    }

    static final class World {
        final Mon.Case k;
        final Chain chain = new Chain("0x1.icon");
        final Address owner = chain.newAddress(false), cps = chain.newAddress(true), band = chain.newAddress(true), svc;
        final List<Address> people = new ArrayList<>(), dapps = new ArrayList<>();
        final Map<String, Info> infos = new LinkedHashMap<>();
        boolean broken;   // the treasury
        Address refusing; // a contract that takes nothing
        Object[] again;   // what a contract calls while it is paid
        State s = new State();

        World(Mon.Case k) {
            this.k = k;
            chain.registerAt(cps, (Chain.Native) (m, p) -> {
                if (broken || !m.equals("add_fund")) {
                    throw new Chain.Revert(9, "broken");
                }
                return null;
            });
            chain.registerAt(band, (Chain.Native) (m, p) -> {
                if (!m.equals("get_reference_data") || !"ICX".equals(p[1]) || !infos.containsKey(p[0])) {
                    throw new Chain.Revert(8, m);
                }
                return Map.of("rate", infos.get(p[0]).price);
            });
            Address one = chain.deploy(owner, () -> new Tok(false, 18)), two = chain.deploy(owner, () -> new Tok(false, 2)), many = chain.deploy(owner, () -> new Tok(true, 0));
            info("ONE", one, O, 18);
            info("TWO", two, O, 2);
            info("FEW", many, BigInteger.ONE, 0);
            info("MANY", many, BigInteger.valueOf(300), 18);
            svc = chain.deploy(owner, () -> new FeeAggregationSCORE__Rec(cps, band));
            for (int i = 0; i < 3; i++) {
                people.add(chain.newAddress(false));
            }
            for (int i = 0; i < 2; i++) {
                Address d = chain.newAddress(true);
                chain.registerAt(d, (Chain.Native) this::dapp);
                dapps.add(d);
            }
            for (Address a : users()) {
                chain.mint(a, RICH);
                s.v.put("n " + a, RICH);
            }
            chain.takeEvents();
        }

        void info(String name, Address tok, BigInteger id, int decimals) {
            Info i = new Info();
            i.name = name;
            i.tok = tok;
            i.id = id;
            i.decimals = decimals;
            infos.put(name, i);
            price(i);
        }

        void price(Info i) {
            i.price = k.chance(60) ? BigInteger.TEN.pow(18).multiply(BigInteger.valueOf(1 + k.pick(20))).divide(BigInteger.valueOf(1 + k.pick(7))) : BigInteger.valueOf(k.of(2, 7, 1000, 123456789));
        }

        List<Address> users() {
            List<Address> l = new ArrayList<>(people);
            l.addAll(dapps);
            l.add(owner);
            return l;
        }

        Object dapp(String m, Object[] p) {
            if (!m.equals("fallback") && !m.equals("tokenFallback") && !m.equals("onIRC31Received")) {
                throw new RevertedException("no such method");
            }
            if (Chain.frame().self.equals(refusing)) {
                throw new Chain.Revert(7, "refused");
            }
            if (again != null) {
                Object[] a = again;
                again = null;
                try {
                    chain.call(O, svc, (String) a[0], Arrays.copyOfRange(a, 1, a.length));
                    Chain.event("paid twice", a);
                } catch (RevertedException e) {
                    // as it has to be
                }
            }
            return null;
        }

        // ---- the model

        String tk(Info i, Object a) { return "t " + i.tok + " " + i.id + " " + a; }

        Info known(String name) {
            if (!s.names.contains(name)) {
                throw new Refused(57);
            }
            return infos.get(name);
        }

        boolean expired(String name, long now) { return !s.open.containsKey(name) || now >= s.open.get(name).end; }

        void deposit(Address a, String name, BigInteger v, long now) {
            s.add("n " + a, v.negate());
            s.add("n " + svc, v);
            Info i = known(name);
            BigInteger bal = s.get(tk(i, svc));
            Syn x = s.open.get(name);
            if (bal.signum() == 0) {
                throw new Refused(61);
            }
            if (x != null && now < x.end) {
                x.by.merge(a, v, BigInteger::add);
                x.total = x.total.add(v);
                s.events.add("DepositInfo " + x.id + " " + name + " " + a + " " + v);
                return;
            }
            BigInteger free = bal.subtract(s.get("locked " + name)).subtract(x == null ? O : x.amount);
            if (free.signum() <= 0) {
                throw new Refused(61);
            }
            s.count = s.count.add(BigInteger.ONE);
            Syn y = new Syn();
            y.id = s.count;
            y.amount = free;
            y.total = v;
            y.by.put(a, v);
            y.start = now;
            y.end = now + s.duration;
            s.open.put(name, y);
            if (x != null) {
                settle(i, x, now);
            }
            s.events.add("SyndicationStart " + y.id + " " + name + " " + free + " " + a + " " + v + " " + y.end);
        }

        void settle(Info i, Syn x, long now) {
            if (s.get(tk(i, svc)).compareTo(x.amount) < 0) {
                throw new Refused(61);
            }
            BigInteger unit = BigInteger.TEN.pow(i.decimals), p = i.price.multiply(BigInteger.valueOf(90)).divide(HUNDRED), back = O;
            boolean worth = x.amount.multiply(p).divide(unit).compareTo(x.total) > 0;
            for (Map.Entry<Address, BigInteger> e : x.by.entrySet()) {
                BigInteger d = e.getValue(), share = O, rest = O;
                if (d.signum() > 0 && worth) {
                    share = d.multiply(unit).divide(p);
                } else if (d.signum() > 0) {
                    share = d.multiply(x.amount).divide(x.total);
                    rest = d.subtract(share.multiply(p).divide(unit));
                }
                s.add("due " + i.name + " " + e.getKey(), share);
                s.add("locked " + i.name, share);
                if (rest.signum() > 0) {
                    s.add("refund " + e.getKey(), rest);
                    back = back.add(rest);
                }
            }
            BigInteger out = x.total.subtract(back);
            if (out.signum() > 0) {
                if (broken) {
                    throw new Refused(-1);
                }
                s.add("n " + svc, out.negate());
                s.add("n " + cps, out);
            }
            k.count(x.total.signum() == 0 ? "settled, nothing in" : worth ? "settled at the price" : "settled in shares", 1);
            s.events.add("SyndicationEnded " + x.id + " " + i.name + " " + x.amount + " " + now);
        }

        void withdrawal(Address a) {
            BigInteger v = s.get("refund " + a);
            if (v.signum() == 0) {
                throw new Refused(62);
            }
            if (!a.equals(refusing)) {
                s.v.put("refund " + a, O);
                s.add("n " + svc, v.negate());
                s.add("n " + a, v);
                k.count("withdrawn", 1);
            }
        }

        void claim(Address a, String name, long now) {
            Info i = known(name);
            BigInteger v = s.get("due " + name + " " + a);
            if (v.signum() == 0) {
                throw new Refused(62);
            }
            if (!a.equals(refusing)) {
                s.v.put("due " + name + " " + a, O);
                s.add("locked " + name, v.negate());
                s.add(tk(i, svc), v.negate());
                s.add(tk(i, a), v);
                k.count("claimed", 1);
            }
            Syn x = s.open.get(name);
            if (x != null && now >= x.end) {
                s.open.remove(name);
                settle(i, x, now);
            }
        }

        // ---- operations

        void act(String what, Address from, BigInteger value, Runnable model, String method, Object... args) {
            long now = (chain.height + 1) * 2_000_000L;
            State before = s;
            s = before.copy();
            int want = 0;
            try {
                model.run();
            } catch (Refused r) {
                want = r.code;
            }
            if (want != 0) {
                s = before;
                s.events.clear();
            }
            k.add(" " + what);
            try {
                chain.tx(from, value, svc, method, args);
                k.check(want == 0, "accepted:" + method, what + " was not refused, in" + k.input);
            } catch (UserRevertedException e) {
                k.check(want != 0, "refused:" + method, what + " was refused: " + e + ", in" + k.input);
                k.check(want < 0 || want == e.getCode(), "code:" + method, what + " was refused with " + e.getCode() + " instead of " + want);
            } catch (RevertedException e) {
                k.check(want != 0, "refused:" + method, what + " was refused: " + e + ", in" + k.input);
                k.check(want < 0, "code:" + method, what + " was refused without the code " + want + ": " + e);
            }
            k.count((want == 0 ? "done " : "refused ") + method, 1);
            k.seen(method, want, s.open.size(), s.names.size(), broken, refusing != null && from.equals(refusing), value.signum(), from.isContract(), args.length > 0 && args[0] instanceof String ? args[0] : "", s.count);
            again = null;
            List<String> got = new ArrayList<>();
            for (Chain.Event e : chain.takeEvents()) {
                if (e.name.startsWith("IRC31")) {
                    continue;
                }
                StringBuilder sb = new StringBuilder(e.name);
                for (Object o : e.args) {
                    sb.append(' ').append(o);
                }
                got.add(sb.toString());
            }
            k.check(got.equals(s.events), "events:" + method, what + ": events " + got + " instead of " + s.events + ", in" + k.input);
            s.events.clear();
            show(what + ", in" + k.input, now);
        }

        Object view(String method, Object... args) {
            long h = chain.height;
            chain.height = h - 1;
            try {
                return chain.tx(people.get(0), O, svc, method, args);
            } catch (RevertedException e) {
                return "refused";
            } finally {
                chain.height = h;
            }
        }

        void same(String what, Object got, Object want, String after) {
            k.check(String.valueOf(got).equals(String.valueOf(want)), "view:" + what.split(" ")[0], what + " is " + got + " instead of " + want + " after " + after);
        }

        void show(String after, long now) {
            BigInteger held = O;
            List<Address> all = users();
            all.add(svc);
            all.add(cps);
            for (Address a : all) {
                same("coins of " + (a.equals(svc) ? "the contract" : a.equals(cps) ? "the treasury" : a), chain.balance(a), s.get("n " + a), after);
                same("refundable " + a, view("getRefundableBalance", a), s.get("refund " + a), after);
                held = held.add(s.get("refund " + a));
            }
            for (Info i : infos.values()) {
                Syn x = s.open.get(i.name);
                boolean reg = s.names.contains(i.name);
                BigInteger due = O, bal = s.get(tk(i, svc));
                for (Address a : all) {
                    Object[] p = i.id.signum() == 0 ? new Object[] {a} : new Object[] {a, i.id};
                    long h = chain.height;
                    same("tokens " + i.name + " of " + a, chain.tx(owner, O, i.tok, "balanceOf", p), s.get(tk(i, a)), after);
                    chain.height = h;
                    same("due " + i.name + " " + a, view("getTokenBalance", i.name, a), s.get("due " + i.name + " " + a), after);
                    same("deposit " + i.name + " " + a, view("getDepositedAmount", i.name, a), x == null ? "refused" : x.by.getOrDefault(a, O), after);
                    due = due.add(s.get("due " + i.name + " " + a));
                }
                boolean over = expired(i.name, now);
                Map<String, String> m = null;
                if (!over) {
                    m = new TreeMap<>();
                    m.put("_id", "0x" + x.id.toString(16));
                    m.put("_tokenAmount", "0x" + x.amount.toString(16));
                    m.put("_totalDeposited", "0x" + x.total.toString(16));
                    m.put("_startTime", "0x" + Long.toHexString(x.start));
                    m.put("_endTime", "0x" + Long.toHexString(x.end));
                }
                Object o = view("getCurrentSyndication", i.name);
                if (o instanceof Map) {
                    o = new TreeMap<>((Map<?, ?>) o);
                }
                same("auction " + i.name, o, reg ? m : "refused", after);
                BigInteger free = bal.subtract(s.get("locked " + i.name));
                if (x != null) {
                    free = over ? free.subtract(x.amount).max(O) : x.amount;
                    held = held.add(x.total);
                }
                same("available " + i.name, view("availableBalance", i.name), reg ? free : "refused", after);
                k.check(bal.compareTo(due.add(x == null ? O : x.amount)) >= 0, "backed", "only " + bal + " of the " + due.add(x == null ? O : x.amount) + " " + i.name + " due and on offer are there after " + after);
            }
            k.check(held.equals(chain.balance(svc)), "backed", chain.balance(svc) + " coins instead of the " + held + " deposited and refundable after " + after);
            List<String> l = new ArrayList<>();
            for (String n : s.names) {
                l.add(new TreeMap<>(Map.of("name", n, "address", "" + infos.get(n).tok, "tokenId", "" + infos.get(n).id)).toString());
            }
            List<String> g = new ArrayList<>();
            Object o = view("tokens");
            if (o instanceof List) {
                for (Object e : (List<?>) o) {
                    g.add(new TreeMap<>((Map<?, ?>) e).toString());
                }
            }
            same("tokens", o instanceof List ? g : o, l, after);
            same("duration", view("getDurationTime"), s.duration, after);
        }

        void register(Address from, String name, int bad) {
            Info i = infos.get(name);
            Address at = bad == 1 ? people.get(0) : i.tok;
            BigInteger id = bad == 2 ? BigInteger.valueOf(k.of(0, -1)) : i.id;
            boolean many = i.id.signum() > 0;
            Runnable model = () -> {
                if (!from.equals(owner)) {
                    throw new Refused(56);
                }
                if (s.names.contains(name)) {
                    throw new Refused(57);
                }
                if (bad == 1) {
                    throw new Refused(58);
                }
                if (bad == 2 && many) {
                    throw new Refused(59);
                }
                s.names.add(name);
            };
            if (many) {
                act("register " + name + "/" + bad, from, O, model, "registerIRC31", name, at, id, BigInteger.valueOf(i.decimals));
            } else {
                act("register " + name + "/" + bad, from, O, model, "registerIRC2", name, at);
            }
        }

        BigInteger sum(Info i) {
            if (k.chance(10)) {
                return O;
            }
            BigInteger worth = s.get(tk(i, svc)).multiply(i.price).divide(BigInteger.TEN.pow(i.decimals));
            switch (k.pick(5)) {
                case 0: return BigInteger.valueOf(1 + k.pick(1000));
                case 1: return BigInteger.TEN.pow(k.pick(21)).multiply(BigInteger.valueOf(1 + k.pick(9)));
                case 2: return worth.add(BigInteger.valueOf(k.of(-1, 0, 1))).max(O);
                default: return worth.multiply(BigInteger.valueOf(1 + k.pick(150))).divide(HUNDRED);
            }
        }

        void gather(Info i, Address to) {
            BigInteger v = BigInteger.TEN.pow(k.pick(i.decimals + 4)).multiply(BigInteger.valueOf(1 + k.pick(30)));
            chain.tx(owner, O, i.tok, "mint", to, i.id, v);
            s.add(tk(i, to), v);
            chain.takeEvents();
        }

        /** A user, rather one who has something under this key. */
        Address who(String key) {
            List<Address> l = new ArrayList<>();
            for (Address a : users()) {
                if (s.get(key + a).signum() > 0) {
                    l.add(a);
                }
            }
            return l.isEmpty() || k.chance(25) ? k.any(users()) : k.any(l);
        }

        void step() {
            Info i = infos.get(k.chance(10) ? k.any(new ArrayList<>(infos.keySet())) : k.any(s.names));
            Address a = k.any(users());
            long now = (chain.height + 1) * 2_000_000L;
            refusing = k.chance(25) ? k.any(dapps) : null;
            broken = k.chance(8);
            boolean twice = k.chance(30);
            switch (k.pick(20)) {
                case 0: case 12: case 13: {
                    gather(i, k.chance(80) ? svc : k.any(people));
                    show("tokens", chain.height * 2_000_000L);
                    break;
                }
                case 1:
                    register(k.chance(60) ? owner : a, i.name, k.of(0, 0, 0, 1, 2));
                    break;
                case 2: {
                    long d = k.of(0L, 2_000_000L, 20_000_000L, 40_000_000L, 43200000000L);
                    Address from = k.chance(70) ? owner : a;
                    act("duration " + d, from, O, () -> {
                        if (!from.equals(owner)) {
                            throw new Refused(56);
                        }
                        if (d == 0) {
                            throw new Refused(59);
                        }
                        s.duration = d;
                    }, "setDurationTime", BigInteger.valueOf(d));
                    break;
                }
                case 3: {
                    BigInteger v = BigInteger.valueOf(k.of(0, 1, 1000));
                    act("coins " + v, a, v, () -> {
                        if (v.signum() == 0 || broken) {
                            throw new Refused(-1);
                        }
                        s.add("n " + a, v.negate());
                        s.add("n " + cps, v);
                    }, "fallback");
                    break;
                }
                case 4:
                    price(i);
                    break;
                case 5: case 6:
                    chain.height += k.of(1, 5, 9, 10, 11, 20, 21600);
                    break;
                case 7: case 8: {
                    Address b = who("refund ");
                    again = twice ? new Object[] {"withdrawal"} : null;
                    act("withdraw", b, O, () -> withdrawal(b), "withdrawal");
                    break;
                }
                case 9: case 10: case 11: {
                    String n = k.chance(3) ? "NONE" : i.name;
                    Address b = who("due " + n + " ");
                    again = twice ? new Object[] {"claim", n} : null;
                    act("claim " + n, b, O, () -> claim(b, n, now), "claim", n);
                    break;
                }
                default: {
                    String n = k.chance(3) ? "NONE" : i.name;
                    if (expired(i.name, now) && k.chance(40)) {
                        gather(i, svc);
                    }
                    long at = (chain.height + 1) * 2_000_000L;
                    BigInteger v = sum(i).min(s.get("n " + a));
                    act("deposit " + n + " " + v, a, v, () -> deposit(a, n, v, at), "deposit", n);
                }
            }
        }
    }

    static void auctions(Mon.Case k, int steps) {
        World w = new World(k);
        k.input("");
        int few = 1 + k.pick(w.infos.size());
        for (Info i : w.infos.values()) {
            if (few-- > 0) {
                w.register(w.owner, i.name, 0);
            }
        }
        w.s.duration = k.of(20_000_000L, 40_000_000L);
        w.chain.tx(w.owner, O, w.svc, "setDurationTime", BigInteger.valueOf(w.s.duration));
        for (int i = 0; i < steps; i++) {
            w.step();
        }
    }
}
