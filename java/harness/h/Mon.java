package h;

import java.io.IOException;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.TreeMap;
import java.util.function.Predicate;

/** Case lists, observations, verdicts and the summary (the counterpart of the Go package mon). */
public final class Mon {
    public String prop = "";
    public String tier = "quick";
    public long seed = 1;
    public String only = "";
    public String data = "";
    private String out = "";
    private long evals;
    private final Set<Long> distinct = new HashSet<>();
    private final Map<String, Long> counters = new TreeMap<>();
    private final List<String> samples = new ArrayList<>();
    private final Map<String, Integer> sampleGrp = new HashMap<>();
    private final List<String> violations = new ArrayList<>();
    private final Map<String, Integer> vseen = new TreeMap<>();
    public Predicate<String> relevant = s -> true;
    private final long start = System.nanoTime();

    public interface Body {
        void run(Case k) throws Exception;
    }

    /** Ends a case after a violation was recorded. */
    public static final class Stop extends RuntimeException {
        public Stop() { super(null, null, false, false); }
    }

    public final class Case {
        public final Random r;
        final String group;
        final int n;
        String input = "";
        boolean bad;

        Case(String group, int n) {
            this.group = group;
            this.n = n;
            r = new Random(seed * 1000003L + group.hashCode() * 7919L + n);
            r.nextLong();
        }

        public void input(String s) { input = s; }

        public void add(String s) { input += s; }

        public void seen(Object... o) {
            long x = 1469598103934665603L;
            for (Object v : o) {
                for (char c : String.valueOf(v).toCharArray()) {
                    x = (x ^ c) * 1099511628211L;
                }
                x = (x ^ 0xffff) * 1099511628211L;
            }
            distinct.add(x);
        }

        public void count(String name, long v) { counters.merge(name, v, Long::sum); }

        public boolean relevant(String sig) { return relevant.test(sig); }

        public <T> T any(List<T> l) { return l.get(r.nextInt(l.size())); }

        @SafeVarargs
        public final <T> T of(T... l) { return l[r.nextInt(l.length)]; }

        public int pick(int n) { return r.nextInt(n); }

        public boolean chance(int percent) { return r.nextInt(100) < percent; }

        /** Records a violation and ends the case. */
        public void fail(String sig, String detail) {
            bad = true;
            if (!relevant.test(sig)) {
                counters.merge("other:" + sig, 1L, Long::sum);
                throw new Stop();
            }
            int c = vseen.merge(sig, 1, Integer::sum);
            if (c <= 2) {
                violations.add("{\"sig\":" + q(sig) + ",\"detail\":" + q(cut(detail, 4000)) + ",\"group\":" + q(group)
                        + ",\"case\":" + n + ",\"input\":" + q(tail(input, 3000)) + "}");
            }
            throw new Stop();
        }

        public void check(boolean ok, String sig, String detail) {
            if (!ok) {
                fail(sig, detail);
            }
        }
    }

    static String tail(String s, int n) { return s.length() > n ? "..." + s.substring(s.length() - n) : s; }

    static String cut(String s, int n) { return s == null ? "null" : s.length() > n ? s.substring(0, n) + "..." : s; }

    public static String q(String s) {
        StringBuilder sb = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') {
                sb.append('\\').append(c);
            } else if (c < 32 || c > 126) {
                sb.append(String.format("\\u%04x", (int) c));
            } else {
                sb.append(c);
            }
        }
        return sb.append('"').toString();
    }

    public int n(int quick, int thorough) { return tier.equals("thorough") ? thorough : quick; }

    public void group(String name, int n, Body b) {
        for (int i = 0; i < n; i++) {
            if (!only.isEmpty() && !only.equals(name + ":" + i)) {
                continue;
            }
            Case k = new Case(name, i);
            running = k;
            since = System.nanoTime();
            try {
                b.run(k);
            } catch (Stop s) {
                // recorded
            } catch (Throwable t) {
                StringWriter sw = new StringWriter();
                t.printStackTrace(new PrintWriter(sw));
                try {
                    String site = "";
                    for (StackTraceElement e : t.getStackTrace()) {
                        if (e.getClassName().startsWith("foundation.icon.")) {
                            site = e.getClassName() + "." + e.getMethodName();
                            break;
                        }
                        if (e.getClassName().startsWith("h.")) {
                            break;
                        }
                    }
                    // something the code handed out that no correct version does (null, a wrong type)
                    k.fail(prop + ":" + (site.isEmpty() ? "unexpected:" + t.getClass().getSimpleName() : "crash:" + site), sw.toString());
                } catch (Stop s) {
                    // recorded
                }
            }
            evals++;
            if (!k.bad && sampleGrp.merge(name, 1, Integer::sum) <= 2) {
                samples.add("{\"group\":" + q(name) + ",\"case\":" + i + ",\"case_input\":" + q(cut(k.input, 600)) + ",\"held\":true}");
            }
        }
    }

    volatile Case running;
    volatile long since;

    /** A call that never ends: no case comes near this time (they take milliseconds). */
    void watch(Thread main) {
        while (true) {
            try {
                Thread.sleep(1000);
            } catch (InterruptedException e) {
                return;
            }
            Case k = running;
            if (k == null || System.nanoTime() - since < 150_000_000_000L) {
                continue;
            }
            StringBuilder sb = new StringBuilder();
            for (StackTraceElement e : main.getStackTrace()) {
                sb.append(e).append('\n');
            }
            try {
                k.fail(prop + ":hang", sb.toString());
            } catch (Stop s) {
                // recorded
            }
            try {
                finish();
            } catch (IOException e) {
                e.printStackTrace();
            }
            Runtime.getRuntime().halt(0);
        }
    }

    void finish() throws IOException {
        StringBuilder sb = new StringBuilder("{\"evaluations\":" + evals + ",\"distinct\":" + distinct.size() + ",\"counters\":{");
        String sep = "";
        for (Map.Entry<String, Long> e : counters.entrySet()) {
            sb.append(sep).append(q(e.getKey())).append(':').append(e.getValue());
            sep = ",";
        }
        sb.append("},\"samples\":[").append(String.join(",", samples)).append("],\"violations\":[").append(String.join(",", violations));
        sb.append("],\"violation_counts\":{");
        sep = "";
        for (Map.Entry<String, Integer> e : vseen.entrySet()) {
            sb.append(sep).append(q(e.getKey())).append(':').append(e.getValue());
            sep = ",";
        }
        sb.append("},\"inconclusive\":[],\"rule\":\"\",\"assumptions\":null}");
        Files.write(Paths.get(out), sb.toString().getBytes());
    }

    public static void main(String[] a) throws Exception {
        Mon m = new Mon();
        for (int i = 0; i + 1 < a.length; i += 2) {
            switch (a[i]) {
                case "-prop": m.prop = a[i + 1]; break;
                case "-tier": m.tier = a[i + 1]; break;
                case "-seed": m.seed = Long.parseLong(a[i + 1]); break;
                case "-only": m.only = a[i + 1]; break;
                case "-out": m.out = a[i + 1]; break;
                case "-data": m.data = a[i + 1]; break;
                default: throw new IllegalArgumentException(a[i]);
            }
        }
        System.setOut(new PrintStream(System.err));
        Thread main = Thread.currentThread();
        Thread dog = new Thread(() -> m.watch(main));
        dog.setDaemon(true);
        dog.start();
        Class<?> c = Class.forName("h." + m.prop.substring(0, 1));
        c.getMethod("run", Mon.class).invoke(null, m);
        m.running = null;
        m.finish();
    }
}
