package sa;

import java.util.*;

/** Structural dump of an abstract object graph: equal dumps mean equal, separately built structures. */
final class Canon {
    private final State s; private final StringBuilder b = new StringBuilder(); private final Map<Integer, Integer> seen = new HashMap<>(); private int depth;
    private Canon(State s) { this.s = s; }
    static String of(State s, V v) { Canon c = new Canon(s); c.put(v); return c.b.toString(); }

    private void put(V v) {
        if (v instanceof V.Ref r) {
            Integer k = seen.get(r.id);
            if (k != null) { b.append('@').append(k); return; }
            seen.put(r.id, seen.size());
            State.HO h = s.get(v);
            if (++depth > 40) { b.append("..."); depth--; return; }
            if (h instanceof State.Arr a) {
                b.append(a.desc).append('{');
                for (V x : a.e) { put(x == null ? V.NULL : x); b.append(','); }
                b.append('}');
            } else if (h instanceof State.Obj o) {
                b.append(o.cls).append('(');
                for (Map.Entry<String, V> e : new TreeMap<>(o.f).entrySet()) { if (e.getKey().endsWith(".modCount") || e.getKey().endsWith(".hash")) continue; b.append(e.getKey().substring(e.getKey().lastIndexOf('.') + 1)).append('='); put(e.getValue()); b.append(' '); }
                b.append(')');
            } else b.append('?');
            depth--;
        } else if (v instanceof V.Fn f) { b.append("fn ").append(f.impl).append('['); for (V x : f.captured) { put(x); b.append(','); } b.append(']'); }
        else if (v instanceof V.Im m) b.append(m.cls).append('<').append(m.key).append('>').append(m.form == null ? "" : m.form);
        else b.append(v);
    }

    /** ids of the heap objects reachable from v */
    static Set<Integer> reach(State s, V v) {
        Set<Integer> r = new HashSet<>(); Deque<V> w = new ArrayDeque<>(); w.push(v);
        while (!w.isEmpty()) {
            V x = w.pop();
            if (x instanceof V.Fn f) for (V y : f.captured) w.push(y);
            if (!(x instanceof V.Ref q) || !r.add(q.id)) continue;
            State.HO h = s.get(x);
            if (h instanceof State.Arr a) { for (V y : a.e) if (y != null) w.push(y); }
            else if (h instanceof State.Obj o) for (V y : o.f.values()) if (y != null) w.push(y);
        }
        return r;
    }

    /** which of the given texts are held by objects reachable from v */
    static Set<String> texts(State s, V v, Set<String> of) {
        Set<String> r = new TreeSet<>();
        for (int id : reach(s, v)) {
            State.HO h = s.get(id);
            Collection<V> c = h instanceof State.Arr a ? Arrays.asList(a.e) : h instanceof State.Obj o ? o.f.values() : List.of();
            for (V x : c) {
                if (x instanceof V.Im m && m.str != null && of.contains(m.str.key())) r.add(m.str.key());
                if (x instanceof V.Fn f) for (V y : f.captured) if (y instanceof V.Im m && m.str != null && of.contains(m.str.key())) r.add(m.str.key());
            }
        }
        return r;
    }
}
