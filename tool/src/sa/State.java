package sa;

import java.util.*;

/** An abstract state: heap shape, static fields, relational facts and the effect log of one partition. Copied on write. */
public final class State {
    static abstract class HO { }

    static final class Obj extends HO {
        final String cls; final Map<String, V> f;
        Obj(String cls, Map<String, V> f) { this.cls = cls; this.f = f; }
        Obj with(String k, V v) { Map<String, V> m = new LinkedHashMap<>(f); m.put(k, v); return new Obj(cls, m); }
        V get(String k) { return f.get(k); }
    }

    static final class Arr extends HO {
        final String desc; final V[] e;
        Arr(String desc, V[] e) { this.desc = desc; this.e = e; }
    }

    record Event(String kind, String text, String where, Object data) {
        @Override public String toString() { return kind + " " + text + (where == null ? "" : " at " + where); }
    }

    static final class EvList { final Event e; final EvList prev; final int n; EvList(Event e, EvList prev) { this.e = e; this.prev = prev; n = prev == null ? 1 : prev.n + 1; } }

    final Map<Integer, HO> base;
    final HashMap<Integer, HO> heap;
    final Map<String, V> sbase;
    final HashMap<String, V> statics;
    Facts facts;
    EvList events;
    int next;
    int sharedBelow; // heap ids below existed before the analysed call
    final Set<String> inited; // initialised or being initialised classes (copied lazily)
    EvList trace;
    Lk locks;
    /** a held monitor or lock */
    static final class Lk { final String key; final Lk prev; Lk(String key, Lk prev) { this.key = key; this.prev = prev; } }
    /** one access to memory that existed before the analysed call */
    record Acc(String loc, int id, Set<String> locks, boolean vol, V from, V to, boolean same) {
        Acc(String loc, int id, Set<String> locks, boolean vol) { this(loc, id, locks, vol, null, null, false); }
    }
    /** a write of one location */
    Acc write(String loc, int id, boolean vol, V from, V to) { return new Acc(loc, id, held(), vol, from, to, from != null && to != null && (from == to || Canon.of(this, from).equals(Canon.of(this, to)))); }

    static String lockKey(V v) { return v instanceof V.Ref r ? "#" + r.id : String.valueOf(v); }
    void lock(V v) { locks = new Lk(lockKey(v), locks); }
    void unlock(V v) { locks = drop(locks, lockKey(v)); }
    private static Lk drop(Lk l, String k) { return l == null ? null : l.key.equals(k) ? l.prev : new Lk(l.key, drop(l.prev, k)); }
    Set<String> held() { if (locks == null) return Set.of(); Set<String> r = new TreeSet<>(); for (Lk l = locks; l != null; l = l.prev) r.add(l.key); return r; }

    /** the static fields of classes whose name starts with the prefix */
    List<V> staticsOf(String prefix) {
        Map<String, V> m = new TreeMap<>(sbase); m.putAll(statics);
        List<V> r = new ArrayList<>();
        for (Map.Entry<String, V> e : m.entrySet()) if (e.getKey().startsWith(prefix)) r.add(e.getValue());
        return r;
    }
    State() { base = Map.of(); heap = new HashMap<>(); sbase = Map.of(); statics = new HashMap<>(); facts = Facts.EMPTY; next = 1; inited = new HashSet<>(); }

    private State(State o) {
        base = o.base; heap = new HashMap<>(o.heap); sbase = o.sbase; statics = new HashMap<>(o.statics); facts = o.facts; events = o.events; next = o.next; sharedBelow = o.sharedBelow;
        inited = new HashSet<>(o.inited); trace = o.trace; locks = o.locks;
    }

    private State(State o, Map<Integer, HO> base, Map<String, V> sbase) {
        this.base = base; this.sbase = sbase; heap = new HashMap<>(); statics = new HashMap<>(); facts = o.facts; events = o.events; next = o.next; sharedBelow = o.sharedBelow; inited = new HashSet<>(o.inited); trace = o.trace; locks = o.locks;
    }

    State copy() { return new State(this); }

    /** fold the overlay into a shared base */
    State freeze() {
        Map<Integer, HO> b = new HashMap<>(base); b.putAll(heap);
        Map<String, V> s = new HashMap<>(sbase); s.putAll(statics);
        return new State(this, b, s);
    }

    HO get(int id) { HO o = heap.get(id); return o != null ? o : base.get(id); }
    HO get(V v) { return v instanceof V.Ref r ? get(r.id) : null; }
    Obj obj(V v) { return v instanceof V.Ref r && get(r.id) instanceof Obj o ? o : null; }
    Arr arr(V v) { return v instanceof V.Ref r && get(r.id) instanceof Arr a ? a : null; }
    void set(V v, HO o) { heap.put(((V.Ref) v).id, o); }
    V.Ref alloc(HO o) { int id = next++; heap.put(id, o); return new V.Ref(id); }
    V.Ref alloc(String cls) { return alloc(new Obj(cls, new LinkedHashMap<>())); }
    void put(V ref, String field, V v) { set(ref, obj(ref).with(field, v)); }
    V.Ref array(String desc, V... e) { return alloc(new Arr(desc, e)); }
    V stat(String k) { V v = statics.get(k); return v != null ? v : sbase.get(k); }
    void setStat(String k, V v) { statics.put(k, v); }
    boolean isShared(V v) { return v instanceof V.Ref r && r.id < sharedBelow; }
    void event(String kind, String text, String where, Object data) { events = new EvList(new Event(kind, text, where, data), events); }
    void event(String kind, String text, String where) { event(kind, text, where, null); }
    void mark(String where) { trace = new EvList(new Event("", where, null, null), trace); }

    List<Event> eventList() { LinkedList<Event> l = new LinkedList<>(); for (EvList e = events; e != null; e = e.prev) l.addFirst(e.e); return l; }
    List<String> traceList() { LinkedList<String> l = new LinkedList<>(); for (EvList e = trace; e != null; e = e.prev) l.addFirst(e.e.text); return l; }
}
