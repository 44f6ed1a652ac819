package scorex.util;

public class ArrayList<E> extends java.util.ArrayList<E> {
    public ArrayList() { super(); }

    public ArrayList(int n) { super(n); }

    public ArrayList(java.util.Collection<? extends E> c) { super(c); }
}
