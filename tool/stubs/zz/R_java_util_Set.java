package zz;
import java.util.*;
public final class R_java_util_Set {
    private static <T> Set<T> mk(boolean dup, Object... e) { LinkedHashSet<T> l = new LinkedHashSet<>(); for (Object o : e) { if (o == null) throw new NullPointerException(); @SuppressWarnings("unchecked") T t = (T) o; if (!l.add(t) && !dup) throw new IllegalArgumentException("duplicate element"); } return Collections.unmodifiableSet(l); }
    public static <E> Set<E> of() { return mk(false); }
    public static <E> Set<E> of(E a) { return mk(false, a); }
    public static <E> Set<E> of(E a, E b) { return mk(false, a, b); }
    public static <E> Set<E> of(E a, E b, E c) { return mk(false, a, b, c); }
    public static <E> Set<E> of(E a, E b, E c, E d) { return mk(false, a, b, c, d); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e) { return mk(false, a, b, c, d, e); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e, E f) { return mk(false, a, b, c, d, e, f); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e, E f, E g) { return mk(false, a, b, c, d, e, f, g); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e, E f, E g, E h) { return mk(false, a, b, c, d, e, f, g, h); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e, E f, E g, E h, E i) { return mk(false, a, b, c, d, e, f, g, h, i); }
    public static <E> Set<E> of(E a, E b, E c, E d, E e, E f, E g, E h, E i, E j) { return mk(false, a, b, c, d, e, f, g, h, i, j); }
    @SafeVarargs public static <E> Set<E> of(E... x) { return mk(false, (Object[]) x); }
    public static <E> Set<E> copyOf(Collection<? extends E> c) { return mk(true, c.toArray()); }
}
