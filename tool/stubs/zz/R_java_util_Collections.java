package zz;
import java.util.*;
public final class R_java_util_Collections {
    public static <T extends Comparable<? super T>> void sort(List<T> l) { l.sort(null); }
    public static <T> void sort(List<T> l, Comparator<? super T> c) { l.sort(c); }
    public static <T> void shuffle(List<T> l) { N.event("RANDOM", "shuffle"); }
}
