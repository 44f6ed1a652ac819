package score;

public interface VarDB<V> {
    V get();

    V getOrDefault(V v);

    void set(V v);
}
