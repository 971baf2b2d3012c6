package zz;
import java.util.*;
public class TreeSet<E> extends AbstractSet<E> implements Set<E> {
    final TreeMap<E, Object> m;
    static final Object P = Boolean.TRUE;
    public TreeSet() { m = new TreeMap<>(); }
    public TreeSet(Comparator<? super E> c) { m = new TreeMap<>(c); } public E first() { return m.firstKey(); } public E last() { return m.lastKey(); }
    public TreeSet(Collection<? extends E> c) { this(); addAll(c); }
    @Override public int size() { return m.n; }
    @Override public boolean contains(Object o) { return m.containsKey(o); }
    @Override public boolean add(E e) { if (m.containsKey(e)) return false; m.put(e, P); return true; }
    @Override public boolean remove(Object o) { if (!m.containsKey(o)) return false; m.remove(o); return true; }
    @Override public void clear() { m.clear(); }
    @Override public Iterator<E> iterator() { return m.keySet().iterator(); }
    @Override public int hashCode() { return N.anyInt("hash of a set"); }
}
