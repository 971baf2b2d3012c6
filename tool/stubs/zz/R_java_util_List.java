package zz;
import java.util.*;
public final class R_java_util_List {
    public static <T> void sort(List<T> l, Comparator<? super T> c) { Sorts.sort(l, c); }
    private static <T> List<T> mk(Object... e) { ArrayList<T> l = new ArrayList<>(); for (Object o : e) { if (o == null) throw new NullPointerException(); @SuppressWarnings("unchecked") T t = (T) o; l.add(t); } return Collections.unmodifiableList(l); }
    public static <E> List<E> of() { return mk(); }
    public static <E> List<E> of(E a) { return mk(a); }
    public static <E> List<E> of(E a, E b) { return mk(a, b); }
    public static <E> List<E> of(E a, E b, E c) { return mk(a, b, c); }
    public static <E> List<E> of(E a, E b, E c, E d) { return mk(a, b, c, d); }
    public static <E> List<E> of(E a, E b, E c, E d, E e) { return mk(a, b, c, d, e); }
    public static <E> List<E> of(E a, E b, E c, E d, E e, E f) { return mk(a, b, c, d, e, f); }
    public static <E> List<E> of(E a, E b, E c, E d, E e, E f, E g) { return mk(a, b, c, d, e, f, g); }
    public static <E> List<E> of(E a, E b, E c, E d, E e, E f, E g, E h) { return mk(a, b, c, d, e, f, g, h); }
    public static <E> List<E> of(E a, E b, E c, E d, E e, E f, E g, E h, E i) { return mk(a, b, c, d, e, f, g, h, i); }
    public static <E> List<E> of(E a, E b, E c, E d, E e, E f, E g, E h, E i, E j) { return mk(a, b, c, d, e, f, g, h, i, j); }
    @SafeVarargs public static <E> List<E> of(E... x) { return mk((Object[]) x); }
    public static <E> List<E> copyOf(Collection<? extends E> c) { return mk(c.toArray()); }
}
