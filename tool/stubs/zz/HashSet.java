package zz;
import java.util.*;
public class HashSet<E> extends AbstractSet<E> implements Set<E> {
    final HashMap<E, Object> m;
    static final Object P = Boolean.TRUE;
    public HashSet() { m = new HashMap<>(); }
    public HashSet(int c) { this(); } public HashSet(int c, float f) { this(); }
    public HashSet(Collection<? extends E> c) { this(); addAll(c); }
    @Override public int size() { return m.n; }
    @Override public boolean contains(Object o) { return m.containsKey(o); }
    @Override public boolean add(E e) { if (m.containsKey(e)) return false; m.put(e, P); return true; }
    @Override public boolean remove(Object o) { if (!m.containsKey(o)) return false; m.remove(o); return true; }
    @Override public void clear() { m.clear(); }
    @Override public Iterator<E> iterator() { return m.keySet().iterator(); }
    @Override public int hashCode() { return N.anyInt("hash of a set"); }
}
