package zz;
import java.util.*;
public class EnumSet<E extends Enum<E>> extends AbstractSet<E> implements Cloneable {
    final EnumMap<E, Object> m = new EnumMap<>();
    Class<E> c;
    EnumSet(Class<E> c) { this.c = c; }
    @Override public int size() { return m.n; }
    @Override public boolean contains(Object o) { return m.containsKey(o); }
    @Override public boolean add(E e) { if (e == null) throw new NullPointerException(); if (m.containsKey(e)) return false; m.put(e, Boolean.TRUE); return true; }
    @Override public boolean remove(Object o) { if (!m.containsKey(o)) return false; m.remove(o); return true; }
    @Override public void clear() { m.clear(); }
    @Override public Iterator<E> iterator() { return m.keySet().iterator(); }
    @Override public int hashCode() { return N.anyInt("hash of a set"); }
    @Override public EnumSet<E> clone() { EnumSet<E> r = new EnumSet<>(c); r.addAll(this); return r; }
    public static <E extends Enum<E>> EnumSet<E> noneOf(Class<E> c) { return new EnumSet<>(c); }
    @SuppressWarnings("unchecked") public static <E extends Enum<E>> EnumSet<E> allOf(Class<E> c) { EnumSet<E> r = new EnumSet<>(c); for (Object o : N.enumConstants(c)) r.add((E) o); return r; }
    public static <E extends Enum<E>> EnumSet<E> of(E a) { EnumSet<E> r = new EnumSet<>(a.getDeclaringClass()); r.add(a); return r; }
    public static <E extends Enum<E>> EnumSet<E> of(E a, E b) { EnumSet<E> r = of(a); r.add(b); return r; }
    public static <E extends Enum<E>> EnumSet<E> of(E a, E b, E d) { EnumSet<E> r = of(a, b); r.add(d); return r; }
    public static <E extends Enum<E>> EnumSet<E> of(E a, E b, E d, E e) { EnumSet<E> r = of(a, b, d); r.add(e); return r; }
    public static <E extends Enum<E>> EnumSet<E> of(E a, E b, E d, E e, E f) { EnumSet<E> r = of(a, b, d, e); r.add(f); return r; }
    @SafeVarargs public static <E extends Enum<E>> EnumSet<E> of(E a, E... b) { EnumSet<E> r = of(a); for (E e : b) r.add(e); return r; }
    public static <E extends Enum<E>> EnumSet<E> copyOf(Collection<E> x) { if (x instanceof EnumSet) return ((EnumSet<E>) x).clone(); Iterator<E> i = x.iterator(); if (!i.hasNext()) throw new IllegalArgumentException("Collection is empty"); EnumSet<E> r = of(i.next()); while (i.hasNext()) r.add(i.next()); return r; }
    public static <E extends Enum<E>> EnumSet<E> copyOf(EnumSet<E> x) { return x.clone(); }
    public static <E extends Enum<E>> EnumSet<E> complementOf(EnumSet<E> x) { EnumSet<E> r = allOf(x.c); r.removeAll(x); return r; }
    public static <E extends Enum<E>> EnumSet<E> range(E a, E b) { EnumSet<E> r = allOf(a.getDeclaringClass()); Iterator<E> i = r.iterator(); while (i.hasNext()) { E e = i.next(); if (e.ordinal() < a.ordinal() || e.ordinal() > b.ordinal()) i.remove(); } return r; }
}
