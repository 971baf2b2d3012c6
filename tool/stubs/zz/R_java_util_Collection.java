package zz;
import java.util.*;
import java.util.stream.*;
public final class R_java_util_Collection {
    public static <T> Stream<T> stream(Collection<T> c) { return new Strm<>(c.iterator()); }
    public static <T> Stream<T> parallelStream(Collection<T> c) { N.event("PARALLEL", "stream"); return new Strm<>(c.iterator()); }
}
