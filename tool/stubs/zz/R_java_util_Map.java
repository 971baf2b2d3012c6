package zz;
import java.util.*;
public final class R_java_util_Map {
    private static <K, V> Map<K, V> mk(Object... e) { LinkedHashMap<K, V> m = new LinkedHashMap<>(); for (int i = 0; i < e.length; i += 2) { if (e[i] == null || e[i + 1] == null) throw new NullPointerException(); @SuppressWarnings("unchecked") K k = (K) e[i]; @SuppressWarnings("unchecked") V v = (V) e[i + 1]; if (m.put(k, v) != null) throw new IllegalArgumentException("duplicate key"); } return Collections.unmodifiableMap(m); }
    public static <K, V> Map<K, V> of() { return mk(); }
    public static <K, V> Map<K, V> of(K k1, V v1) { return mk(k1, v1); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2) { return mk(k1, v1, k2, v2); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3) { return mk(k1, v1, k2, v2, k3, v3); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4) { return mk(k1, v1, k2, v2, k3, v3, k4, v4); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5, K k6, V v6) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5, k6, v6); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5, K k6, V v6, K k7, V v7) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5, k6, v6, k7, v7); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5, K k6, V v6, K k7, V v7, K k8, V v8) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5, k6, v6, k7, v7, k8, v8); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5, K k6, V v6, K k7, V v7, K k8, V v8, K k9, V v9) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5, k6, v6, k7, v7, k8, v8, k9, v9); }
    public static <K, V> Map<K, V> of(K k1, V v1, K k2, V v2, K k3, V v3, K k4, V v4, K k5, V v5, K k6, V v6, K k7, V v7, K k8, V v8, K k9, V v9, K k10, V v10) { return mk(k1, v1, k2, v2, k3, v3, k4, v4, k5, v5, k6, v6, k7, v7, k8, v8, k9, v9, k10, v10); }
    @SafeVarargs public static <K, V> Map<K, V> ofEntries(Map.Entry<? extends K, ? extends V>... es) { Object[] a = new Object[es.length * 2]; for (int i = 0; i < es.length; i++) { a[2 * i] = es[i].getKey(); a[2 * i + 1] = es[i].getValue(); } return mk(a); }
    public static <K, V> Map.Entry<K, V> entry(K k, V v) { if (k == null || v == null) throw new NullPointerException(); return new AbstractMap.SimpleImmutableEntry<>(k, v); }
    public static <K, V> Map<K, V> copyOf(Map<? extends K, ? extends V> m) { LinkedHashMap<K, V> r = new LinkedHashMap<>(); r.putAll(m); return Collections.unmodifiableMap(r); }
}
