package score;

public interface DictDB<K, V> {
    V get(K k);

    V getOrDefault(K k, V v);

    void set(K k, V v);
}
