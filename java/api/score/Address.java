package score;

import java.util.Arrays;

public final class Address {
    public static final int LENGTH = 21;
    private final byte[] raw;

    public Address(byte[] raw) {
        if (raw.length != LENGTH || (raw[0] != 0 && raw[0] != 1)) {
            throw new IllegalArgumentException("bad address");
        }
        this.raw = raw.clone();
    }

    public static Address fromString(String s) {
        if (s == null || s.length() != 42) {
            throw new IllegalArgumentException("bad address: " + s);
        }
        byte[] raw = new byte[LENGTH];
        if (s.startsWith("cx")) {
            raw[0] = 1;
        } else if (!s.startsWith("hx")) {
            throw new IllegalArgumentException("bad address: " + s);
        }
        for (int i = 0; i < 20; i++) {
            int h = Character.digit(s.charAt(2 + 2 * i), 16), l = Character.digit(s.charAt(3 + 2 * i), 16);
            if (h < 0 || l < 0) {
                throw new IllegalArgumentException("bad address: " + s);
            }
            raw[i + 1] = (byte) (h << 4 | l);
        }
        return new Address(raw);
    }

    public boolean isContract() { return raw[0] == 1; }

    public byte[] toByteArray() { return raw.clone(); }

    @Override
    public boolean equals(Object o) { return o instanceof Address && Arrays.equals(raw, ((Address) o).raw); }

    @Override
    public int hashCode() { return Arrays.hashCode(raw); }

    @Override
    public String toString() {
        StringBuilder sb = new StringBuilder(raw[0] == 1 ? "cx" : "hx");
        for (int i = 1; i < LENGTH; i++) {
            sb.append(Character.forDigit((raw[i] >> 4) & 15, 16)).append(Character.forDigit(raw[i] & 15, 16));
        }
        return sb.toString();
    }
}
