package vm;

import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import score.Address;
import score.RevertedException;
import score.UserRevertException;
import score.UserRevertedException;
import score.annotation.External;
import score.annotation.Payable;

/** A chain with contracts: state, balances, events and calls that are undone when they fail. */
public final class Chain {
    public static boolean VERBOSE = System.getenv("VM_VERBOSE") != null;
    private static Chain cur;

    /** Who signed the transactions, when it is not the caller (which then is a contract of theirs). */
    public Address signer;
    public long height = 1;
    public final String net;
    private final Map<String, byte[]> state = new TreeMap<>();
    private final Map<Address, BigInteger> balances = new HashMap<>();
    private final Map<Address, Object> contracts = new HashMap<>();
    private final Map<Address, Address> owners = new HashMap<>();
    private final Deque<Frame> frames = new ArrayDeque<>();
    private final ArrayList<Runnable> undo = new ArrayList<>();
    public final ArrayList<Event> events = new ArrayList<>();
    private long txs;
    private int next = 1;

    public static final class Frame {
        public Address self;
        public Address caller;
        public Address origin;
        public BigInteger value;
        boolean readonly;
    }

    public static final class Event {
        public final Address from;
        public final String name;
        public final Object[] args;

        Event(Address from, String name, Object[] args) {
            this.from = from;
            this.name = name;
            this.args = args;
        }
    }

    /** Ends the execution of a contract with a code. */
    public static final class Revert extends RuntimeException {
        public final int code;

        public Revert(int code, String m) {
            super(m);
            this.code = code;
        }
    }

    public Chain(String net) { this.net = net; }

    public static Chain current() { return cur; }

    public static Frame frame() { return cur.frames.peek(); }

    public long timestamp() { return height * 2_000_000L; }

    public byte[] txHash() { return Crypto.hash("sha3-256", (net + txs).getBytes()); }

    public Address ownerOf(Address a) { return owners.get(a); }

    public BigInteger balance(Address a) { return balances.getOrDefault(a, BigInteger.ZERO); }

    public void mint(Address a, BigInteger v) { balances.merge(a, v, BigInteger::add); }

    public Object contract(Address a) { return contracts.get(a); }

    byte[] load(Address a, String key) { return state.get(a + key); }

    void save(Address a, String key, byte[] v) {
        for (Frame f : frames) {
            if (f.readonly) {
                throw new Revert(-1, "write in a read only call");
            }
        }
        String k = a + key;
        byte[] old = v == null ? state.remove(k) : state.put(k, v);
        undo.add(() -> {
            if (old == null) {
                state.remove(k);
            } else {
                state.put(k, old);
            }
        });
    }

    private void move(Address from, Address to, BigInteger v) {
        if (v.signum() == 0) {
            return;
        }
        if (v.signum() < 0) {
            throw new RevertedException("negative value");
        }
        BigInteger fb = balance(from);
        if (fb.compareTo(v) < 0) {
            throw new RevertedException("out of balance");
        }
        balances.put(from, fb.subtract(v));
        balances.put(to, balance(to).add(v));
        undo.add(() -> {
            balances.put(to, balance(to).subtract(v));
            balances.put(from, balance(from).add(v));
        });
    }

    private void rollback(int mark, int ev) {
        while (undo.size() > mark) {
            undo.remove(undo.size() - 1).run();
        }
        while (events.size() > ev) {
            events.remove(events.size() - 1);
        }
    }

    public static void event(String name, Object... args) {
        cur.events.add(new Event(frame().self, name, args));
    }

    public Address newAddress(boolean contract) {
        return Address.fromString(String.format("%s%08x%032x", contract ? "cx" : "hx", Math.abs(net.hashCode()), next++));
    }

    /** Deploys a contract whose constructor runs as a call of the owner. */
    public Address deploy(Address owner, java.util.function.Supplier<Object> make) {
        Address a = newAddress(true);
        owners.put(a, owner);
        return install(a, owner, make);
    }

    /** Replaces the code of a contract: its constructor runs on the state it has. */
    public Address update(Address a, java.util.function.Supplier<Object> make) { return install(a, owners.get(a), make); }

    private Address install(Address a, Address owner, java.util.function.Supplier<Object> make) {
        Chain before = cur;
        cur = this;
        int mark = undo.size(), ev = events.size();
        try {
            frames.push(newFrame(a, owner, owner, BigInteger.ZERO, false));
            try {
                contracts.put(a, make.get());
            } finally {
                frames.pop();
            }
            return a;
        } catch (RuntimeException e) {
            rollback(mark, ev);
            throw translate(e);
        } finally {
            cur = before;
        }
    }

    public Address register(Address owner, Object c) { return deploy(owner, () -> c); }

    public Address registerAt(Address a, Object c) {
        owners.put(a, a);
        contracts.put(a, c);
        return a;
    }

    private static Frame newFrame(Address self, Address caller, Address origin, BigInteger value, boolean ro) {
        Frame f = new Frame();
        f.self = self;
        f.caller = caller;
        f.origin = origin;
        f.value = value;
        f.readonly = ro;
        return f;
    }

    private static RuntimeException translate(RuntimeException e) {
        if (e instanceof Revert) {
            return new UserRevertedException(((Revert) e).code, String.valueOf(e.getMessage()));
        }
        if (e instanceof UserRevertException) {
            return new UserRevertedException(((UserRevertException) e).getCode(), String.valueOf(e.getMessage()));
        }
        if (e instanceof RevertedException) {
            // a failure the contract did not handle
            return new RevertedException("unhandled: " + e);
        }
        return new RevertedException("failed: " + e);
    }

    /** A transaction: throws what the outermost call ended with. */
    public Object tx(Address from, BigInteger value, Address to, String method, Object... params) {
        Chain before = cur;
        cur = this;
        txs++;
        height++;
        try {
            return call(from, value, to, method, params);
        } finally {
            if (frames.isEmpty()) {
                undo.clear();
            }
            cur = before;
        }
    }

    public Object call(BigInteger value, Address to, String method, Object... params) {
        return call(frame().self, value, to, method, params);
    }

    private Object call(Address from, BigInteger value, Address to, String method, Object[] params) {
        int mark = undo.size(), ev = events.size();
        Address origin = !frames.isEmpty() ? frames.peek().origin : signer != null ? signer : from;
        try {
            move(from, to, value);
            Object c = contracts.get(to);
            if (c == null) {
                if (method != null || to.isContract()) {
                    throw new RevertedException("contract not found " + to);
                }
                return null;
            }
            if (method == null) {
                method = "fallback";
            }
            if (c instanceof Native) {
                frames.push(newFrame(to, from, origin, value, false));
                try {
                    return ((Native) c).invoke(method, params);
                } finally {
                    frames.pop();
                }
            }
            Method m = find(c.getClass(), method);
            External x = m == null ? null : annotation(m, External.class);
            boolean fb = method.equals("fallback");
            if (m == null || (x == null && !fb)) {
                throw new RevertedException("method not found " + method);
            }
            if (value.signum() > 0 && annotation(m, Payable.class) == null) {
                throw new RevertedException("not payable " + method);
            }
            Class<?>[] types = m.getParameterTypes();
            Object[] args = new Object[types.length];
            if (params.length > types.length) {
                throw new RevertedException("too many parameters of " + method);
            }
            for (int i = 0; i < types.length; i++) {
                args[i] = convert(types[i], i < params.length ? params[i] : null);
            }
            frames.push(newFrame(to, from, origin, value, x != null && x.readonly()));
            try {
                m.setAccessible(true);
                return m.invoke(c, args);
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                if (t instanceof StackOverflowError) {
                    throw new RevertedException("stack overflow");
                }
                if (t instanceof Error) {
                    throw (Error) t;
                }
                throw t instanceof RuntimeException ? (RuntimeException) t : new RevertedException(t.toString());
            } catch (IllegalAccessException e) {
                throw new RevertedException(e.toString());
            } finally {
                frames.pop();
            }
        } catch (RuntimeException e) {
            rollback(mark, ev);
            RuntimeException r = translate(e);
            if (VERBOSE) {
                r.initCause(e);
            }
            throw r;
        }
    }

    /** A contract of the harness. */
    public interface Native {
        Object invoke(String method, Object[] params);
    }

    private static <A extends java.lang.annotation.Annotation> A annotation(Method m, Class<A> a) {
        for (Class<?> c = m.getDeclaringClass(); c != null; c = c.getSuperclass()) {
            try {
                A x = c.getDeclaredMethod(m.getName(), m.getParameterTypes()).getAnnotation(a);
                if (x != null) {
                    return x;
                }
            } catch (NoSuchMethodException e) {
                // next
            }
        }
        return null;
    }

    private static final Map<String, Method> METHODS = new HashMap<>();

    private static Method find(Class<?> c, String name) {
        return METHODS.computeIfAbsent(c.getName() + "." + name, k -> {
            Method best = null;
            for (Class<?> d = c; d != null && d != Object.class; d = d.getSuperclass()) {
                for (Method m : d.getDeclaredMethods()) {
                    if (m.getName().equals(name) && !m.isBridge() && !m.isSynthetic()
                            && java.lang.reflect.Modifier.isPublic(m.getModifiers())
                            && (m.isAnnotationPresent(External.class) || name.equals("fallback"))) {
                        if (best == null) {
                            best = m;
                        }
                    }
                }
            }
            return best;
        });
    }

    static Object convert(Class<?> t, Object v) {
        if (v instanceof Number || v instanceof Character) {
            BigInteger n = v instanceof Character ? BigInteger.valueOf((Character) v) : new BigInteger(v.toString());
            if (t == BigInteger.class || t == Object.class) {
                return n;
            }
            if (t == int.class || t == Integer.class) {
                if (n.bitLength() > 31) {
                    throw new RevertedException("parameter out of range");
                }
                return n.intValue();
            }
            if (t == long.class || t == Long.class) {
                if (n.bitLength() > 63) {
                    throw new RevertedException("parameter out of range");
                }
                return n.longValue();
            }
            throw new RevertedException("parameter type");
        }
        if (v == null) {
            if (t == int.class) {
                return 0;
            } else if (t == long.class) {
                return 0L;
            } else if (t == boolean.class) {
                return false;
            }
            return null;
        }
        if (t == boolean.class) {
            t = Boolean.class;
        }
        if (!t.isInstance(v)) {
            throw new RevertedException("parameter type " + v.getClass() + " for " + t);
        }
        return v;
    }

    @SuppressWarnings("unchecked")
    public static <T> T cast(Class<T> c, Object v) {
        if (v instanceof Number) {
            return (T) convert(c, v);
        }
        return (T) v;
    }

    /** The state as text, to compare. */
    public String dump() {
        StringBuilder sb = new StringBuilder();
        for (Map.Entry<String, byte[]> e : state.entrySet()) {
            sb.append(e.getKey()).append('=').append(Crypto.hex(e.getValue())).append('\n');
        }
        return sb.toString();
    }

    public List<Event> takeEvents() {
        List<Event> l = new ArrayList<>(events);
        events.clear();
        return l;
    }
}
