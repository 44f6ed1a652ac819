package scorex.util;

public class HashMap<K, V> extends java.util.HashMap<K, V> {
    public HashMap() { super(); }

    public HashMap(int n) { super(n); }

    public HashMap(java.util.Map<? extends K, ? extends V> m) { super(m); }
}
