package zz;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
public final class R_java_util_stream_Stream {
    public static <T> Stream<T> of(T t) { ArrayList<T> l = new ArrayList<>(); l.add(t); return new Strm<>(l.iterator()); }
    @SafeVarargs public static <T> Stream<T> of(T... t) { return new Strm<>(Arrays.asList(t).iterator()); }
    public static <T> Stream<T> ofNullable(T t) { ArrayList<T> l = new ArrayList<>(); if (t != null) l.add(t); return new Strm<>(l.iterator()); }
    public static <T> Stream<T> empty() { return new Strm<>(new ArrayList<T>().iterator()); }
    public static <T> Stream<T> concat(Stream<? extends T> a, Stream<? extends T> b) { return new Strm<>(new Strm.Cat<T>(a.iterator(), b.iterator())); }
    public static <T> Stream<T> iterate(T s, UnaryOperator<T> f) { return new Strm<>(new Strm.Iter<>(s, f)); }
    public static <T> Stream<T> generate(Supplier<? extends T> s) { return new Strm<>(new Strm.Sup<T>(s)); }
}
