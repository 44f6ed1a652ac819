package score;

public class UserRevertException extends RuntimeException {
    public UserRevertException() { super(); }

    public UserRevertException(String m) { super(m); }

    public UserRevertException(String m, Throwable c) { super(m, c); }

    public UserRevertException(Throwable c) { super(c); }

    public int getCode() { return 0; }
}
