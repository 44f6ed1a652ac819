package score;

public interface ArrayDB<V> {
    V get(int i);

    void set(int i, V v);

    void add(V v);

    int size();

    V pop();

    void removeLast();
}
