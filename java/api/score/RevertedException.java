package score;

public class RevertedException extends RuntimeException {
    public RevertedException() { super(); }

    public RevertedException(String m) { super(m); }
}
