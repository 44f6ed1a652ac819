package vm;

import java.math.BigInteger;
import score.Address;
import score.ArrayDB;
import score.BranchDB;
import score.DictDB;
import score.VarDB;

/** The containers of a contract: everything is kept serialized, per contract. */
public final class Store {
    private Store() {}

    static String keyText(Object k) {
        if (k instanceof byte[]) {
            return "b" + Crypto.hex((byte[]) k);
        } else if (k instanceof Address) {
            return "b" + Crypto.hex(((Address) k).toByteArray());
        } else if (k instanceof Number) {
            return "n" + new BigInteger(k.toString());
        } else if (k instanceof String) {
            return "s" + k.toString().length() + ":" + k;
        } else if (k instanceof Character) {
            return "n" + (int) (Character) k;
        }
        throw new IllegalArgumentException("key type " + (k == null ? "null" : k.getClass().getName()));
    }

    static byte[] ser(Object v) {
        Rlp.Writer w = new Rlp.Writer();
        w.writeNullable(v);
        return w.toByteArray();
    }

    @SuppressWarnings("unchecked")
    static <V> V de(byte[] b, Class<?> c) { return b == null ? null : (V) new Rlp.Reader(b).readNullable(c); }

    static byte[] load(String key) { return Chain.current().load(Chain.frame().self, key); }

    static void save(String key, Object v) { Chain.current().save(Chain.frame().self, key, v == null ? null : ser(v)); }

    public static final class Var<V> implements VarDB<V> {
        final String id;
        final Class<?> c;

        public Var(String id, Class<?> c) {
            this.id = "V/" + id;
            this.c = c;
        }

        public V get() { return de(load(id), c); }

        public V getOrDefault(V d) {
            V v = get();
            return v == null ? d : v;
        }

        public void set(V v) { save(id, v); }
    }

    public static final class Arr<V> extends Node<Object, V> {
        public Arr(String id, Class<?> c) { super(id, c); }
    }

    public static class Node<K, V> implements DictDB<K, V>, ArrayDB<V>, BranchDB<K, V> {
        final String id;
        final Class<?> c;

        public Node(String id, Class<?> c) {
            this.id = id;
            this.c = c;
        }

        @SuppressWarnings("unchecked")
        public V at(K k) { return (V) new Node<Object, Object>(id + "/" + keyText(k), c); }

        private String d(K k) { return "D/" + id + "/" + keyText(k); }

        public V get(K k) { return de(load(d(k)), c); }

        public V getOrDefault(K k, V dv) {
            V v = get(k);
            return v == null ? dv : v;
        }

        public void set(K k, V v) { save(d(k), v); }

        private String a(int i) { return "A/" + id + "/" + i; }

        private String n() { return "N/" + id; }

        public int size() {
            Integer n = de(load(n()), Integer.class);
            return n == null ? 0 : n;
        }

        private void check(int i) {
            if (i < 0 || i >= size()) {
                throw new IllegalArgumentException("index " + i);
            }
        }

        public V get(int i) {
            check(i);
            return de(load(a(i)), c);
        }

        public void set(int i, V v) {
            check(i);
            save(a(i), v);
        }

        public void add(V v) {
            int n = size();
            save(n(), n + 1);
            save(a(n), v);
        }

        public V pop() {
            int n = size();
            if (n == 0) {
                throw new IllegalStateException("empty");
            }
            V v = get(n - 1);
            save(a(n - 1), null);
            save(n(), n == 1 ? null : (Integer) (n - 1));
            return v;
        }

        public void removeLast() { pop(); }
    }
}
