package zz;
import java.util.Map;
/** Insertion or access ordered map with the removeEldestEntry hook. */
public class LinkedHashMap<K, V> extends HashMap<K, V> {
    boolean access;
    public LinkedHashMap() { }
    public LinkedHashMap(int c) { super(c); }
    public LinkedHashMap(int c, float f) { super(c); }
    public LinkedHashMap(int c, float f, boolean a) { super(c); access = a; }
    public LinkedHashMap(Map<? extends K, ? extends V> m) { putAll(m); }
    protected boolean removeEldestEntry(Map.Entry<K, V> e) { return false; }
    @Override protected void touched(int i) { if (access) { Object k = ks[i], v = vs[i]; for (int j = i; j < n - 1; j++) { ks[j] = ks[j + 1]; vs[j] = vs[j + 1]; } ks[n - 1] = k; vs[n - 1] = v; } }
    @Override protected void added(K k, V v) { Map.Entry<K, V> e = entrySet().iterator().next(); if (removeEldestEntry(e)) remove(e.getKey()); }
}
