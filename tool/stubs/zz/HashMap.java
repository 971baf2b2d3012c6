package zz;
import java.util.*;
import java.util.function.*;
/** java.util map semantics over an entry list. */
public class HashMap<K, V> extends AbstractMap<K, V> implements Map<K, V> {
    Object[] ks = new Object[8], vs = new Object[8];
    int n;
    public HashMap() { }
    public HashMap(int c) { if (c < 0) throw new IllegalArgumentException("Illegal initial capacity: " + c); }
    public HashMap(int c, float f) { this(c); }
    
    public HashMap(Map<? extends K, ? extends V> m) { putAll(m); }
    protected int find(Object k) {  for (int i = 0; i < n; i++) if ((ks[i] == null ? k == null : ks[i].equals(k))) return i; return -1; }
    protected void touched(int i) { }
    protected void added(K k, V v) { }
    protected int at(K k) { return n; }
    private void ins(K k, V v) {
        if (n == ks.length) { ks = Arrays.copyOf(ks, n * 2); vs = Arrays.copyOf(vs, n * 2); }
        int p = at(k);
        for (int i = n; i > p; i--) { ks[i] = ks[i - 1]; vs[i] = vs[i - 1]; }
        ks[p] = k; vs[p] = v; n = n + 1;
    }
    private void del(int p) { for (int i = p; i < n - 1; i++) { ks[i] = ks[i + 1]; vs[i] = vs[i + 1]; } ks[n - 1] = null; vs[n - 1] = null; n = n - 1; }
    @SuppressWarnings("unchecked") private V val(int i) { return (V) vs[i]; }
    @SuppressWarnings("unchecked") K key(int i) { return (K) ks[i]; }
    @Override public int size() { return n; }
    @Override public boolean isEmpty() { return n == 0; }
    @Override public V get(Object k) { int i = find(k); if (i < 0) return null; V v = val(i); touched(i); return v; }
    @Override public boolean containsKey(Object k) { return find(k) >= 0; }
    @Override public V getOrDefault(Object k, V d) { int i = find(k); if (i < 0) return d; V v = val(i); touched(i); return v; }
    @Override public V put(K k, V v) {  int i = find(k); if (i >= 0) { V o = val(i); vs[i] = v; touched(i); return o; } ins(k, v); added(k, v); return null; }
    @Override public V putIfAbsent(K k, V v) {  int i = find(k); if (i >= 0 && vs[i] != null) { V o = val(i); touched(i); return o; } if (i >= 0) { vs[i] = v; return null; } ins(k, v); added(k, v); return null; }
    @Override public V remove(Object k) { int i = find(k); if (i < 0) return null; V o = val(i); del(i); return o; }
    @Override public boolean remove(Object k, Object v) { int i = find(k); if (i < 0 || !Objects.equals(vs[i], v)) return false; del(i); return true; }
    @Override public void clear() { ks = new Object[8]; vs = new Object[8]; n = 0; }
    @Override public void putAll(Map<? extends K, ? extends V> m) { for (Map.Entry<? extends K, ? extends V> e : m.entrySet()) put(e.getKey(), e.getValue()); }
    @Override public V replace(K k, V v) { int i = find(k); if (i < 0) return null; V o = val(i); vs[i] = v; return o; }
    @Override public boolean replace(K k, V o, V v) { int i = find(k); if (i < 0 || !Objects.equals(vs[i], o)) return false; vs[i] = v; return true; }
    @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) { int i = find(k); if (i >= 0 && vs[i] != null) { V o = val(i); touched(i); return o; } V v = f.apply(k); if (v != null) { if (i >= 0) vs[i] = v; else { ins(k, v); added(k, v); } } return v; }
    @Override public V computeIfPresent(K k, BiFunction<? super K, ? super V, ? extends V> f) { int i = find(k); if (i < 0 || vs[i] == null) return null; V v = f.apply(k, val(i)); if (v == null) del(i); else vs[i] = v; return v; }
    @Override public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) { int i = find(k); V v = f.apply(k, i < 0 ? null : val(i)); if (v == null) { if (i >= 0) del(i); } else if (i >= 0) vs[i] = v; else { ins(k, v); added(k, v); } return v; }
    @Override public V merge(K k, V x, BiFunction<? super V, ? super V, ? extends V> f) { int i = find(k); V v = i < 0 || vs[i] == null ? x : f.apply(val(i), x); if (v == null) { if (i >= 0) del(i); } else if (i >= 0) vs[i] = v; else { ins(k, v); added(k, v); } return v; }
    @Override public void forEach(BiConsumer<? super K, ? super V> f) { for (int i = 0; i < n; i++) f.accept(key(i), val(i)); }
    @Override public void replaceAll(BiFunction<? super K, ? super V, ? extends V> f) { for (int i = 0; i < n; i++) vs[i] = f.apply(key(i), val(i)); }
    @SuppressWarnings({"unchecked", "rawtypes"}) @Override public Set<Map.Entry<K, V>> entrySet() { return (Set) new Entries<K, V>(this, 2); }
    @SuppressWarnings({"unchecked", "rawtypes"}) @Override public Set<K> keySet() { return (Set) new Entries<K, V>(this, 0); }
    @SuppressWarnings({"unchecked", "rawtypes"}) @Override public Collection<V> values() { return (Collection) new Entries<K, V>(this, 1); }
    @Override public int hashCode() { return N.anyInt("hash of a map"); }
    @Override public Object clone() { return new HashMap<K, V>(this); }

    static final class Entries<K, V> extends AbstractSet<Object> {
        final HashMap<K, V> m; final int mode;
        Entries(HashMap<K, V> m, int mode) { this.m = m; this.mode = mode; }
        @Override public int size() { return m.n; }
        @Override public boolean contains(Object o) { if (mode == 0) return m.containsKey(o); return super.contains(o); }
        @Override public boolean remove(Object o) { if (mode == 0) { boolean b = m.containsKey(o); m.remove(o); return b; } return super.remove(o); }
        @Override public void clear() { m.clear(); }
        @Override public boolean equals(Object o) { return this == o || (mode != 1 && super.equals(o)); }
        @Override public int hashCode() { return N.anyInt("hash of a map view"); }
        @SuppressWarnings({"unchecked", "rawtypes"}) @Override public Iterator<Object> iterator() { return (Iterator) new It<>(m, mode); }
    }
    static final class It<K, V> implements Iterator<Object> {
        final HashMap<K, V> m; final int mode; int i;
        It(HashMap<K, V> m, int mode) { this.m = m; this.mode = mode; }
        public boolean hasNext() { return i < m.n; }
        public Object next() { if (i >= m.n) throw new NoSuchElementException(); int k = i; i = i + 1; return mode == 0 ? m.ks[k] : mode == 1 ? m.vs[k] : new Ent<>(m, m.key(k), m.val(k)); }
        public void remove() { if (i == 0) throw new IllegalStateException(); i = i - 1; m.del(i); }
    }
    static final class Ent<K, V> implements Map.Entry<K, V> {
        final HashMap<K, V> m; final K k; V v;
        Ent(HashMap<K, V> m, K k, V v) { this.m = m; this.k = k; this.v = v; }
        public K getKey() { return k; }
        public V getValue() { return v; }
        public V setValue(V x) { V o = v; v = x; m.put(k, x); return o; }
        @Override public boolean equals(Object o) { return o instanceof Map.Entry<?, ?> e && Objects.equals(k, e.getKey()) && Objects.equals(v, e.getValue()); }
        @Override public int hashCode() { return N.anyInt("hash of an entry"); }
        @Override public String toString() { return k + "=" + v; }
    }
}
