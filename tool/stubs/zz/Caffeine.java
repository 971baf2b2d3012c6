package zz;
import java.util.*;
import java.util.concurrent.ConcurrentMap;
import java.util.function.*;
import com.github.benmanes.caffeine.cache.*;
import com.github.benmanes.caffeine.cache.stats.*;
/** A bounded cache: an entry may be evicted at any time, keys are compared with equals. */
public final class Caffeine<K, V> {
    boolean identity; String bound = "none"; long max = -1; Weigher<Object, Object> weigher;
    public static Caffeine<Object, Object> newBuilder() { return new Caffeine<>(); }
    public Caffeine<K, V> maximumSize(long n) { if (n < 0) throw new IllegalArgumentException("maximumSize must not be negative"); bound = "size"; max = n; N.event("CACHEMAX", "" + n); return this; }
    public Caffeine<K, V> maximumWeight(long n) { if (n < 0) throw new IllegalArgumentException("maximumWeight must not be negative"); bound = "weight"; max = n; return this; }
    @SuppressWarnings("unchecked") public <K1 extends K, V1 extends V> Caffeine<K1, V1> weigher(Weigher<? super K1, ? super V1> w) { weigher = (Weigher<Object, Object>) (Object) w; return (Caffeine<K1, V1>) this; }
    public <K1 extends K, V1 extends V> Caffeine<K1, V1> expireAfter(Expiry<? super K1, ? super V1> e) { return (Caffeine<K1, V1>) this; }
    public <K1 extends K, V1 extends V> Caffeine<K1, V1> removalListener(RemovalListener<? super K1, ? super V1> l) { return (Caffeine<K1, V1>) this; }
    public <K1 extends K, V1 extends V> Caffeine<K1, V1> evictionListener(RemovalListener<? super K1, ? super V1> l) { return (Caffeine<K1, V1>) this; }
    public Caffeine<K, V> ticker(Ticker t) { return this; }
    public Caffeine<K, V> scheduler(Scheduler t) { return this; }
    public Caffeine<K, V> initialCapacity(int n) { if (n < 0) throw new IllegalArgumentException(); return this; }
    public Caffeine<K, V> expireAfterWrite(java.time.Duration d) { return this; }
    public Caffeine<K, V> expireAfterWrite(long d, java.util.concurrent.TimeUnit u) { return this; }
    public Caffeine<K, V> expireAfterAccess(java.time.Duration d) { return this; }
    public Caffeine<K, V> expireAfterAccess(long d, java.util.concurrent.TimeUnit u) { return this; }
    public Caffeine<K, V> weakKeys() { identity = true; return this; }
    public Caffeine<K, V> weakValues() { return this; }
    public Caffeine<K, V> softValues() { return this; }
    public Caffeine<K, V> recordStats() { return this; }
    public Caffeine<K, V> executor(java.util.concurrent.Executor e) { return this; }
    @SuppressWarnings("unchecked") public <K1 extends K, V1 extends V> Cache<K1, V1> build() { N.event("CACHE", bound); return new Store<K1, V1>(identity, null, max, weigher); }
    @SuppressWarnings("unchecked") public <K1 extends K, V1 extends V> LoadingCache<K1, V1> build(CacheLoader<? super K1, V1> l) { N.event("CACHE", bound); return new Store<K1, V1>(identity, (CacheLoader<K1, V1>) l, max, weigher); }

    static final class Store<K, V> implements LoadingCache<K, V> {
        final boolean identity; final CacheLoader<K, V> loader; final long max; final Weigher<Object, Object> weigher; int[] ws = new int[8]; View<K, V> view;
        Object[] ks = new Object[8], vs = new Object[8]; int n, asked;
        Store(boolean identity, CacheLoader<K, V> loader, long max, Weigher<Object, Object> weigher) { this.weigher = weigher; this.identity = identity; this.loader = loader; this.max = max; }
        private int find(Object k) {
            if (k == null) throw new NullPointerException();
            for (int i = 0; i < n; i++) if (ks[i] != null && (ks[i] == k || (!identity && ks[i].equals(k)))) { asked = asked + 1; if (N.choose("evicted " + asked)) { ks[i] = null; vs[i] = null; return -1; } return i; }
            return -1;
        }
        private void store(K k, V v) { int i = find(k); if (i >= 0) { vs[i] = v; if (weigher != null) ws[i] = weigher.weigh(k, v); return; } if (n == ks.length) { ks = Arrays.copyOf(ks, n * 2); vs = Arrays.copyOf(vs, n * 2); ws = Arrays.copyOf(ws, n * 2); } ks[n] = k; vs[n] = v; ws[n] = weigher == null ? 1 : weigher.weigh(k, v); n = n + 1; if (max >= 0) bound(); }
        private int live() { int c = 0; for (int i = 0; i < n; i++) if (ks[i] != null) c = c + ws[i]; return c; }
        private V take(Object k) { int i = find(k); if (i < 0) return null; V o = (V) vs[i]; ks[i] = null; vs[i] = null; return o; }
        private void bound() { for (int i = 0; i < n && live() > max; i++) { ks[i] = null; vs[i] = null; } }
        @SuppressWarnings("unchecked") public V getIfPresent(Object k) { int i = find(k); if (i >= 0) N.event("CACHEHIT", "entry", vs[i]); return i < 0 ? null : (V) vs[i]; }
        public V get(K k, Function<? super K, ? extends V> f) { V v = getIfPresent(k); if (v != null) return v; v = f.apply(k); if (v != null) store(k, v); return v; }
        public V get(K k) { V v = getIfPresent(k); if (v != null) return v; try { v = loader.load(k); } catch (RuntimeException e) { throw e; } catch (Exception e) { throw new java.util.concurrent.CompletionException(e); } if (v != null) store(k, v); return v; }
        public Map<K, V> getAllPresent(Iterable<?> ks) { Map<K, V> m = new LinkedHashMap<>(); return m; }
        public Map<K, V> getAll(Iterable<? extends K> ks) { Map<K, V> m = new LinkedHashMap<>(); for (K k : ks) m.put(k, get(k)); return m; }
        public void refresh(K k) { }
        public void put(K k, V v) { if (v == null) throw new NullPointerException(); store(k, v); }
        public void putAll(Map<? extends K, ? extends V> m) { for (Map.Entry<? extends K, ? extends V> e : m.entrySet()) put(e.getKey(), e.getValue()); }
        public void invalidate(Object k) { int i = find(k); if (i >= 0) { ks[i] = null; vs[i] = null; } }
        public void invalidateAll(Iterable<?> it) { for (Object o : it) invalidate(o); }
        public void invalidateAll() { ks = new Object[8]; vs = new Object[8]; n = 0; }
        public long estimatedSize() { return n; }
        public CacheStats stats() { return null; }
        public ConcurrentMap<K, V> asMap() { if (view == null) view = new View<>(this); return view; }
        public void cleanUp() { }
        public Policy<K, V> policy() { return null; }
    }

    static final class View<K, V> extends AbstractMap<K, V> implements ConcurrentMap<K, V> {
        final Store<K, V> c;
        View(Store<K, V> c) { this.c = c; }
        private List<K> live() { List<K> l = new ArrayList<>(); for (int i = 0; i < c.n; i++) if (c.ks[i] != null) l.add((K) c.ks[i]); return l; }
        @Override public int size() { return live().size(); }
        @Override public V get(Object k) { return c.getIfPresent(k); }
        @Override public boolean containsKey(Object k) { return c.getIfPresent(k) != null; }
        @Override public V getOrDefault(Object k, V d) { V v = c.getIfPresent(k); return v == null ? d : v; }
        @Override public V put(K k, V v) { V o = c.getIfPresent(k); c.put(k, v); return o; }
        @Override public V putIfAbsent(K k, V v) { V o = c.getIfPresent(k); if (o == null) c.put(k, v); return o; }
        @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) { return c.get(k, f); }
        @Override public V remove(Object k) { return c.take(k); }
        @Override public boolean remove(Object k, Object v) { V o = c.getIfPresent(k); if (o == null || !o.equals(v)) return false; c.invalidate(k); return true; }
        @Override public V replace(K k, V v) { V o = c.getIfPresent(k); if (o != null) c.put(k, v); return o; }
        @Override public boolean replace(K k, V o, V v) { V p = c.getIfPresent(k); if (p == null || !p.equals(o)) return false; c.put(k, v); return true; }
        @Override public void clear() { c.invalidateAll(); }
        @Override public Set<K> keySet() { return new LinkedHashSet<>(live()); }
        @Override public Set<Map.Entry<K, V>> entrySet() { Set<Map.Entry<K, V>> s = new LinkedHashSet<>(); for (K k : live()) { V v = c.getIfPresent(k); if (v != null) s.add(new AbstractMap.SimpleEntry<>(k, v)); } return s; }
    }
}
