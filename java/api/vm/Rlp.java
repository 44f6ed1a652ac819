package vm;

import java.io.ByteArrayOutputStream;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayDeque;
import java.util.Deque;
import score.Address;
import score.ByteArrayObjectWriter;
import score.ObjectReader;
import score.ObjectWriter;

/** The RLPn object codec of the ICON platform: RLP with 0xf800 as null. */
public final class Rlp {
    private Rlp() {}

    public static byte[] head(int base, int len) {
        if (len <= 55) {
            return new byte[] {(byte) (base + len)};
        }
        byte[] l = BigInteger.valueOf(len).toByteArray();
        int s = l[0] == 0 ? 1 : 0;
        byte[] r = new byte[1 + l.length - s];
        r[0] = (byte) (base + 55 + l.length - s);
        System.arraycopy(l, s, r, 1, l.length - s);
        return r;
    }

    static Object invoke(Method m, Object... a) {
        try {
            m.setAccessible(true);
            return m.invoke(null, a);
        } catch (InvocationTargetException e) {
            if (e.getCause() instanceof RuntimeException) {
                throw (RuntimeException) e.getCause();
            }
            throw new IllegalStateException(e.getCause());
        } catch (IllegalAccessException e) {
            throw new IllegalStateException(e);
        }
    }

    public static final class Writer implements ByteArrayObjectWriter {
        private final Deque<ByteArrayOutputStream> stack = new ArrayDeque<>();

        public Writer() { stack.push(new ByteArrayOutputStream()); }

        private void raw(byte[] b) { stack.peek().writeBytes(b); }

        private void bytes(byte[] b) {
            if (b.length == 1 && b[0] >= 0) {
                raw(b);
            } else {
                raw(head(0x80, b.length));
                raw(b);
            }
        }

        public void write(boolean v) { write(v ? 1L : 0L); }

        public void write(byte v) { write((long) v); }

        public void write(short v) { write((long) v); }

        public void write(char v) { write((long) v); }

        public void write(int v) { write((long) v); }

        public void write(long v) { bytes(BigInteger.valueOf(v).toByteArray()); }

        public void write(BigInteger v) { bytes(v.toByteArray()); }

        public void write(String v) { bytes(v.getBytes(StandardCharsets.UTF_8)); }

        public void write(byte[] v) { bytes(v); }

        public void write(Address v) { bytes(v.toByteArray()); }

        public void write(Object v) {
            if (v instanceof Boolean) {
                write(((Boolean) v).booleanValue());
            } else if (v instanceof Character) {
                write((long) ((Character) v).charValue());
            } else if (v instanceof BigInteger) {
                write((BigInteger) v);
            } else if (v instanceof Byte || v instanceof Short || v instanceof Integer || v instanceof Long) {
                write(((Number) v).longValue());
            } else if (v instanceof String) {
                write((String) v);
            } else if (v instanceof byte[]) {
                write((byte[]) v);
            } else if (v instanceof Address) {
                write((Address) v);
            } else if (v == null) {
                throw new NullPointerException();
            } else {
                try {
                    invoke(v.getClass().getDeclaredMethod("writeObject", ObjectWriter.class, v.getClass()), this, v);
                } catch (NoSuchMethodException e) {
                    throw new IllegalArgumentException("no writeObject: " + v.getClass());
                }
            }
        }

        public void write(Object... v) {
            for (Object o : v) {
                write(o);
            }
        }

        public void writeNullable(Object v) {
            if (v == null) {
                writeNull();
            } else {
                write(v);
            }
        }

        public void writeNullable(Object... v) {
            for (Object o : v) {
                writeNullable(o);
            }
        }

        public void writeNull() { raw(new byte[] {(byte) 0xf8, 0}); }

        public void beginList(int n) { stack.push(new ByteArrayOutputStream()); }

        public void beginNullableList(int n) { beginList(n); }

        public void writeListOf(Object... v) {
            beginList(v.length);
            write(v);
            end();
        }

        public void writeListOfNullable(Object... v) {
            beginList(v.length);
            writeNullable(v);
            end();
        }

        public void beginMap(int n) { beginList(n); }

        public void beginNullableMap(int n) { beginList(n); }

        public void end() {
            if (stack.size() < 2) {
                throw new IllegalStateException("end");
            }
            byte[] b = stack.pop().toByteArray();
            raw(head(0xc0, b.length));
            raw(b);
        }

        public byte[] toByteArray() {
            if (stack.size() != 1) {
                throw new IllegalStateException("open list");
            }
            return stack.peek().toByteArray();
        }
    }

    public static final class Reader implements ObjectReader {
        private final byte[] b;
        private int pos;
        private int limit;
        private final Deque<Integer> limits = new ArrayDeque<>();

        public Reader(byte[] b) {
            this.b = b;
            this.limit = b.length;
        }

        // item: [list?, start of the content, end of the content, null?]
        private int[] peek() {
            if (pos >= limit) {
                throw new IllegalStateException("no more data");
            }
            int h = b[pos] & 0xff;
            if (h < 0x80) {
                return new int[] {0, pos, pos + 1, 0};
            }
            int list = h >= 0xc0 ? 1 : 0;
            int base = list == 1 ? 0xc0 : 0x80;
            long len;
            int start;
            if (h - base <= 55) {
                len = h - base;
                start = pos + 1;
            } else {
                int n = h - base - 55;
                if (pos + 1 + n > limit || n > 7) {
                    throw new IllegalStateException("cut short");
                }
                len = 0;
                for (int i = 0; i < n; i++) {
                    len = len << 8 | (b[pos + 1 + i] & 0xff);
                }
                start = pos + 1 + n;
            }
            if (len > limit - start) {
                throw new IllegalStateException("cut short");
            }
            int nul = list == 1 && h == 0xf8 && len == 0 ? 1 : 0;
            return new int[] {list, start, start + (int) len, nul};
        }

        private boolean nextNull() {
            int[] p = peek();
            if (p[3] == 1) {
                pos = p[2];
                return true;
            }
            return false;
        }

        public byte[] readByteArray() {
            int[] p = peek();
            if (p[0] == 1) {
                throw new IllegalStateException("list where bytes are expected");
            }
            pos = p[2];
            return java.util.Arrays.copyOfRange(b, p[1], p[2]);
        }

        public BigInteger readBigInteger() {
            byte[] v = readByteArray();
            return v.length == 0 ? BigInteger.ZERO : new BigInteger(v);
        }

        private long num(int bits) {
            BigInteger v = readBigInteger();
            if (v.bitLength() >= bits) {
                throw new IllegalStateException("number out of range");
            }
            return v.longValue();
        }

        public boolean readBoolean() { return num(8) != 0; }

        public byte readByte() { return (byte) num(8); }

        public short readShort() { return (short) num(16); }

        public char readChar() { return (char) num(17); }

        public int readInt() { return (int) num(32); }

        public long readLong() { return num(64); }

        public String readString() { return new String(readByteArray(), StandardCharsets.UTF_8); }

        public Address readAddress() { return new Address(readByteArray()); }

        @SuppressWarnings("unchecked")
        public <T> T read(Class<T> c) {
            Object o;
            if (c == Boolean.class || c == boolean.class) {
                o = readBoolean();
            } else if (c == Byte.class) {
                o = readByte();
            } else if (c == Short.class) {
                o = readShort();
            } else if (c == Character.class) {
                o = readChar();
            } else if (c == Integer.class) {
                o = readInt();
            } else if (c == Long.class) {
                o = readLong();
            } else if (c == BigInteger.class) {
                o = readBigInteger();
            } else if (c == String.class) {
                o = readString();
            } else if (c == byte[].class) {
                o = readByteArray();
            } else if (c == Address.class) {
                o = readAddress();
            } else {
                try {
                    o = invoke(c.getDeclaredMethod("readObject", ObjectReader.class), this);
                } catch (NoSuchMethodException e) {
                    throw new IllegalArgumentException("no readObject: " + c);
                }
            }
            return (T) o;
        }

        public <T> T readOrDefault(Class<T> c, T d) { return hasNext() ? read(c) : d; }

        public <T> T readNullable(Class<T> c) { return nextNull() ? null : read(c); }

        public <T> T readNullableOrDefault(Class<T> c, T d) { return hasNext() ? readNullable(c) : d; }

        public void beginList() {
            int[] p = peek();
            if (p[0] != 1 || p[3] == 1) {
                throw new IllegalStateException("no list");
            }
            limits.push(limit);
            pos = p[1];
            limit = p[2];
        }

        public boolean beginNullableList() {
            if (nextNull()) {
                return false;
            }
            beginList();
            return true;
        }

        public void beginMap() { beginList(); }

        public boolean beginNullableMap() { return beginNullableList(); }

        public boolean hasNext() { return pos < limit; }

        public void end() {
            if (limits.isEmpty()) {
                throw new IllegalStateException("end");
            }
            pos = limit;
            limit = limits.pop();
        }

        public void skip() { pos = peek()[2]; }

        public void skip(int n) {
            for (int i = 0; i < n; i++) {
                skip();
            }
        }
    }
}
