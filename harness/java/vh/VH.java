package vh;

import java.nio.charset.StandardCharsets;

/** Monitoring runtime of the Java side: event log, seeded values, canonical forms (as harness/common/vh.rs). */
public final class VH {
    public static native void log0(byte[] line);
    public static native void flush();
    public static native void setSeed(long s);
    public static native long alive();
    public static native long born();
    public static native long overDropped();
    public static native void poolClear();
    public static native void setTag(int t);
    static native void logAlive();
    public static native int drops(long ticket);
    /** Everything unreachable is finalized, nothing may be left. */
    public static void allFreed(long expected) throws InterruptedException {
        for (int i = 0; i < 200 && alive() > expected; ++i) { System.gc(); System.runFinalization(); Thread.sleep(i / 4); }
        if (alive() != expected) logAlive();
        if (overDropped() != 0) log("! objects dropped more than once: " + overDropped());
    }

    public static void log(String s) { log0(s.getBytes(StandardCharsets.UTF_8)); }

    public static final class R {
        long s;
        public R(long seed) { s = seed; }
        public long next() {
            s += 0x9E3779B97F4A7C15L;
            long z = s;
            z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
            z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
            return z ^ (z >>> 31);
        }
        public int below(int n) { return (int) Long.remainderUnsigned(next(), n); }
        public boolean chance(int n) { return below(n) == 0; }
        /** any value of a two's complement number of that many bits; boundaries are frequent */
        long bits(int n) {
            long mask = n == 64 ? -1L : (1L << n) - 1;
            long v;
            switch (below(8)) {
                case 0: v = 1L << (n - 1); break;
                case 1: v = (1L << (n - 1)) - 1; break;
                case 2: v = 1L << below(n); break;
                case 3: v = (1L << below(n)) - 1; break;
                case 4: v = -below(3); break;
                case 5: v = below(4); break;
                default: v = next();
            }
            return v & mask;
        }
        public byte i8() { return (byte) bits(8); }
        public short u8() { return (short) bits(8); }
        public short i16() { return (short) bits(16); }
        public int u16() { return (int) bits(16); }
        public int i32() { return (int) bits(32); }
        public long u32() { return bits(32); }
        public long i64() { return bits(64); }
        public long u64() { return bits(63); }
        public boolean bool() { return below(2) == 0; }
        public float f32() {
            switch (below(10)) {
                case 0: return 0f;
                case 1: return -0f;
                case 2: return Float.POSITIVE_INFINITY;
                case 3: return Float.NEGATIVE_INFINITY;
                case 4: return Float.NaN;
                case 5: return Float.MIN_NORMAL / 2;
                case 6: return Float.MAX_VALUE;
                case 7: return (float) (int) next();
                default: return Float.intBitsToFloat((int) next());
            }
        }
        public double f64() {
            switch (below(10)) {
                case 0: return 0;
                case 1: return -0.0;
                case 2: return Double.POSITIVE_INFINITY;
                case 3: return Double.NEGATIVE_INFINITY;
                case 4: return Double.NaN;
                case 5: return Double.MIN_NORMAL / 2;
                case 6: return Double.MAX_VALUE;
                case 7: return (double) next();
                default: return Double.longBitsToDouble(next());
            }
        }
        public int len() {
            switch (below(8)) {
                case 0: return 0;
                case 1: return 1;
                case 2: return below(300) % 49;
                default: return below(7);
            }
        }
        int cp() {
            switch (below(8)) {
                case 0: return 0;
                case 1: return below(0x80);
                case 2: return 0x80 + below(0x780);
                case 3: return 0x800 + below(0xD000);
                case 4: return 0xE000 + below(0x2000);
                case 5: return 0x10000 + below(0x100000);
                default: return 'a' + below(26);
            }
        }
        public String str() {
            StringBuilder b = new StringBuilder();
            for (int n = len(); n > 0; --n) b.appendCodePoint(cp());
            return b.toString();
        }
        public byte[] i8s() { byte[] a = new byte[len()]; for (int i = 0; i < a.length; ++i) a[i] = i8(); return a; }
        public short[] i16s() { short[] a = new short[len()]; for (int i = 0; i < a.length; ++i) a[i] = i16(); return a; }
        public int[] i32s() { int[] a = new int[len()]; for (int i = 0; i < a.length; ++i) a[i] = i32(); return a; }
        public long[] i64s() { long[] a = new long[len()]; for (int i = 0; i < a.length; ++i) a[i] = i64(); return a; }
        public float[] f32s() { float[] a = new float[len()]; for (int i = 0; i < a.length; ++i) a[i] = f32(); return a; }
        public double[] f64s() { double[] a = new double[len()]; for (int i = 0; i < a.length; ++i) a[i] = f64(); return a; }
        public interface G<T> { T get(); }
        /** null stands for None */
        public <T> T opt(G<T> g) { return chance(3) ? null : g.get(); }
    }

    // the static type decides the form: a generated method of another type does not get the same text
    public static String c(byte x) { return Byte.toString(x); }
    public static String c(short x) { return Short.toString(x); }
    public static String c(int x) { return Integer.toString(x); }
    public static String c(long x) { return Long.toString(x); }
    public static String c(boolean x) { return x ? "T" : "F"; }
    public static String c(float x) { return Float.isNaN(x) ? "nan" : String.format("f%08x", Float.floatToRawIntBits(x)); }
    public static String c(double x) { return Double.isNaN(x) ? "nan" : String.format("d%016x", Double.doubleToRawLongBits(x)); }
    public static String c(String x) {
        if (x == null) return "null";
        StringBuilder b = new StringBuilder("\"");
        // (a lone surrogate comes out as '?', and is no valid result)
        for (byte y : x.getBytes(StandardCharsets.UTF_8)) { b.append(Character.forDigit((y >> 4) & 15, 16)).append(Character.forDigit(y & 15, 16)); }
        for (int i = 0; i < x.length(); ++i)
            if (Character.isSurrogate(x.charAt(i))) {
                if (i + 1 < x.length() && Character.isSurrogatePair(x.charAt(i), x.charAt(i + 1))) ++i;
                else b.append("!lone surrogate");
            }
        return b.append('"').toString();
    }
    public interface F<T> { String of(T x); }
    public static <T> String nopt(T x, F<T> f) { return x == null ? "N" : "S(" + f.of(x) + ")"; }
    public static <T> String opt(java.util.Optional<T> x, F<T> f) { return x == null ? "null" : x.isPresent() ? "S(" + f.of(x.get()) + ")" : "N"; }
    public static String opt(java.util.OptionalInt x) { return x == null ? "null" : x.isPresent() ? "S(" + c(x.getAsInt()) + ")" : "N"; }
    public static String opt(java.util.OptionalLong x) { return x == null ? "null" : x.isPresent() ? "S(" + c(x.getAsLong()) + ")" : "N"; }
    public static String opt(java.util.OptionalDouble x) { return x == null ? "null" : x.isPresent() ? "S(" + c(x.getAsDouble()) + ")" : "N"; }
    /** an f32 is widened exactly */
    public static String optF(java.util.OptionalDouble x) {
        if (x == null || !x.isPresent()) return x == null ? "null" : "N";
        double d = x.getAsDouble();
        float f = (float) d;
        return "S(" + (Double.isNaN(d) || (double) f == d ? c(f) : "inexact " + c(d)) + ")";
    }
    interface At { String at(int i); }
    static String list(int n, At f) {
        StringBuilder b = new StringBuilder("[");
        for (int i = 0; i < n; ++i) { if (i > 0) b.append(','); b.append(f.at(i)); }
        return b.append(']').toString();
    }
    public static String c(byte[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static String c(short[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static String c(int[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static String c(long[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static String c(float[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static String c(double[] a) { return a == null ? "null" : list(a.length, i -> c(a[i])); }
    public static <T> String arr(T[] a, F<T> f) { return a == null ? "null" : list(a.length, i -> a[i] == null ? "null" : f.of(a[i])); }
    public static String c(java.util.Date d) { return d == null ? "null" : "t" + d.getTime(); }
    public static String exc(Throwable e) {
        if (e.getClass() != Exception.class) return "!exception of class " + e.getClass().getName() + " " + e.getMessage();
        return c(e.getMessage());
    }
    public static void same(int id, String what, String before, String after) {
        if (!before.equals(after)) log("! method " + id + ": " + what + " changed from " + before + " to " + after);
    }
}
