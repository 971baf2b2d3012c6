package zz;
import java.util.*;
/** The caller's data map: reads are logged, entries may be optional, every mutation is reported. */
public final class ExtMap extends AbstractMap<Object, Object> {
    String name; Object[] keys; Object[] vals; boolean[] maybe;
    private boolean has(int i) { return !maybe[i] || N.choose("present " + name + " " + keys[i]); }
    @Override public Object get(Object k) {
        N.event("LOOKUP", name, k);
        for (int i = 0; i < keys.length; i++) if (keys[i].equals(k)) return has(i) ? vals[i] : null;
        return null;
    }
    @Override public boolean containsKey(Object k) {
        N.event("LOOKUP", name, k);
        for (int i = 0; i < keys.length; i++) if (keys[i].equals(k)) return has(i);
        return false;
    }
    @Override public Object getOrDefault(Object k, Object d) {
        N.event("LOOKUP", name, k);
        for (int i = 0; i < keys.length; i++) if (keys[i].equals(k)) return has(i) ? vals[i] : d;
        return d;
    }
    private ArrayList<Map.Entry<Object, Object>> list() {
        ArrayList<Map.Entry<Object, Object>> l = new ArrayList<>();
        for (int i = 0; i < keys.length; i++) if (has(i)) l.add(new ExtEntry(keys[i], vals[i], name));
        return l;
    }
    @Override public Set<Map.Entry<Object, Object>> entrySet() { N.event("SCAN", name); return new ExtSet(list(), name); }
    @Override public Set<Object> keySet() { N.event("SCAN", name); ArrayList<Object> l = new ArrayList<>(); for (Map.Entry<Object, Object> e : list()) l.add(e.getKey()); return new ExtSet(l, name); }
    @Override public Collection<Object> values() { N.event("SCAN", name); ArrayList<Object> l = new ArrayList<>(); for (Map.Entry<Object, Object> e : list()) l.add(e.getValue()); return Collections.unmodifiableList(l); }
    @Override public int size() { N.event("SCAN", name); return list().size(); }
    @Override public boolean isEmpty() { return size() == 0; }
    private void mut(String op) { N.event("MUTATE", op + " on the caller's map " + name); }
    @Override public Object put(Object k, Object v) { mut("put"); return null; }
    @Override public Object remove(Object k) { mut("remove"); return null; }
    @Override public boolean remove(Object k, Object v) { mut("remove"); return false; }
    @Override public void clear() { mut("clear"); }
    @Override public void putAll(Map<?, ?> m) { mut("putAll"); }
    @Override public Object putIfAbsent(Object k, Object v) { mut("putIfAbsent"); return get(k); }
    @Override public Object computeIfAbsent(Object k, java.util.function.Function<? super Object, ?> f) { mut("computeIfAbsent"); Object o = get(k); return o != null ? o : f.apply(k); }
    @Override public Object compute(Object k, java.util.function.BiFunction<? super Object, ? super Object, ?> f) { mut("compute"); return f.apply(k, get(k)); }
    @Override public Object computeIfPresent(Object k, java.util.function.BiFunction<? super Object, ? super Object, ?> f) { mut("computeIfPresent"); Object o = get(k); return o == null ? null : f.apply(k, o); }
    @Override public Object merge(Object k, Object v, java.util.function.BiFunction<? super Object, ? super Object, ?> f) { mut("merge"); return v; }
    @Override public Object replace(Object k, Object v) { mut("replace"); return get(k); }
    @Override public boolean replace(Object k, Object o, Object v) { mut("replace"); return false; }
    @Override public void replaceAll(java.util.function.BiFunction<? super Object, ? super Object, ?> f) { mut("replaceAll"); }
    @Override public boolean equals(Object o) { return this == o; }
    @Override public int hashCode() { return N.anyInt("hash of " + name); }
    @Override public String toString() { return "map " + name; }

    static final class ExtEntry implements Map.Entry<Object, Object> {
        final Object k, v; final String name;
        ExtEntry(Object k, Object v, String name) { this.k = k; this.v = v; this.name = name; }
        public Object getKey() { return k; }
        public Object getValue() { return v; }
        public Object setValue(Object o) { N.event("MUTATE", "setValue on the caller's map " + name); return v; }
        @Override public boolean equals(Object o) { return o instanceof Map.Entry<?, ?> e && Objects.equals(k, e.getKey()) && Objects.equals(v, e.getValue()); }
        @Override public int hashCode() { return 0; }
    }
    static final class ExtSet<T> extends AbstractSet<T> {
        final ArrayList<T> l; final String name;
        ExtSet(ArrayList<T> l, String name) { this.l = l; this.name = name; }
        @Override public int size() { return l.size(); }
        @Override public boolean remove(Object o) { N.event("MUTATE", "remove on the caller's map " + name); return false; }
        @Override public boolean removeAll(Collection<?> o) { N.event("MUTATE", "removeAll on the caller's map " + name); return false; }
        @Override public boolean retainAll(Collection<?> o) { N.event("MUTATE", "retainAll on the caller's map " + name); return false; }
        @Override public boolean removeIf(java.util.function.Predicate<? super T> f) { N.event("MUTATE", "removeIf on the caller's map " + name); return false; }
        @Override public void clear() { N.event("MUTATE", "clear on the caller's map " + name); }
        @Override public Iterator<T> iterator() {
            Iterator<T> it = l.iterator();
            return new Iterator<T>() {
                public boolean hasNext() { return it.hasNext(); }
                public T next() { return it.next(); }
                public void remove() { N.event("MUTATE", "remove on the caller's map " + name); }
            };
        }
    }
}
