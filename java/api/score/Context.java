package score;

import java.math.BigInteger;
import java.util.Arrays;
import vm.Chain;
import vm.Crypto;
import vm.Rlp;
import vm.Store;

public final class Context {
    private Context() {}

    public static Address getAddress() { return Chain.frame().self; }

    public static Address getCaller() { return Chain.frame().caller; }

    public static Address getOrigin() { return Chain.frame().origin; }

    public static Address getOwner() { return Chain.current().ownerOf(Chain.frame().self); }

    public static BigInteger getValue() { return Chain.frame().value; }

    public static long getBlockHeight() { return Chain.current().height; }

    public static long getBlockTimestamp() { return Chain.current().timestamp(); }

    public static long getTransactionTimestamp() { return Chain.current().timestamp(); }

    public static byte[] getTransactionHash() { return Chain.current().txHash(); }

    public static int getTransactionIndex() { return 0; }

    public static long getTransactionNonce() { return 0; }

    public static BigInteger getBalance(Address a) { return Chain.current().balance(a); }

    public static Object call(Address to, String method, Object... params) {
        return Chain.current().call(BigInteger.ZERO, to, method, params);
    }

    public static Object call(BigInteger value, Address to, String method, Object... params) {
        return Chain.current().call(value, to, method, params);
    }

    public static <T> T call(Class<T> c, Address to, String method, Object... params) {
        return Chain.cast(c, Chain.current().call(BigInteger.ZERO, to, method, params));
    }

    public static <T> T call(Class<T> c, BigInteger value, Address to, String method, Object... params) {
        return Chain.cast(c, Chain.current().call(value, to, method, params));
    }

    public static void transfer(Address to, BigInteger value) { Chain.current().call(value, to, null); }

    public static void revert(int code, String m) { throw new Chain.Revert(code, m); }

    public static void revert(int code) { throw new Chain.Revert(code, null); }

    public static void revert(String m) { throw new Chain.Revert(0, m); }

    public static void revert() { throw new Chain.Revert(0, null); }

    public static void require(boolean c) {
        if (!c) {
            throw new Chain.Revert(0, null);
        }
    }

    public static void require(boolean c, String m) {
        if (!c) {
            throw new Chain.Revert(0, m);
        }
    }

    public static void println(String m) {
        if (Chain.VERBOSE) {
            System.err.println(m);
        }
    }

    public static byte[] hash(String alg, byte[] msg) { return Crypto.hash(alg, msg); }

    public static byte[] recoverKey(String alg, byte[] msg, byte[] sig, boolean compressed) {
        return Crypto.recoverKey(alg, msg, sig, compressed);
    }

    public static boolean verifySignature(String alg, byte[] msg, byte[] sig, byte[] key) {
        byte[] full = Arrays.copyOf(sig, 65);
        for (byte v = 0; v < 4; v++) {
            full[64] = v;
            try {
                if (Arrays.equals(key, Crypto.recoverKey(alg, msg, full, key.length == 33))) {
                    return true;
                }
            } catch (IllegalArgumentException e) {
                // another one
            }
        }
        return false;
    }

    public static int getFeeSharingProportion() { return 0; }

    public static Address getAddressFromKey(byte[] key) { return Crypto.addressOf(key); }

    public static <V> VarDB<V> newVarDB(String id, Class<V> c) { return new Store.Var<>(id, c); }

    public static <K, V> DictDB<K, V> newDictDB(String id, Class<V> c) { return new Store.Node<K, V>(id, c); }

    public static <V> ArrayDB<V> newArrayDB(String id, Class<V> c) { return new Store.Arr<>(id, c); }

    @SuppressWarnings("unchecked")
    public static <K, V> BranchDB<K, V> newBranchDB(String id, Class<?> leaf) { return (BranchDB<K, V>) new Store.Node<>(id, leaf); }

    public static ObjectReader newByteArrayObjectReader(String codec, byte[] b) {
        if (!"RLPn".equals(codec)) {
            throw new IllegalArgumentException("codec " + codec);
        }
        return new Rlp.Reader(b);
    }

    public static ByteArrayObjectWriter newByteArrayObjectWriter(String codec) {
        if (!"RLPn".equals(codec)) {
            throw new IllegalArgumentException("codec " + codec);
        }
        return new Rlp.Writer();
    }
}
