package zz;
import java.util.*;
import java.util.stream.*;
public final class R_java_util_stream_IntStream {
    static final class Range implements Iterator<Integer> { int i; final int e; Range(int i, int e) { this.i = i; this.e = e; } public boolean hasNext() { return i < e; } public Integer next() { int r = i; i = i + 1; return r; } }
    public static IntStream range(int a, int b) { return new IntS(new Range(a, b)); }
    public static IntStream rangeClosed(int a, int b) { return new IntS(new Range(a, b + 1)); }
    public static IntStream of(int... a) { return Arrays.stream(a); }
    public static IntStream of(int a) { return Arrays.stream(new int[]{a}); }
    public static IntStream empty() { return new IntS(new ArrayList<Integer>().iterator()); }
}
