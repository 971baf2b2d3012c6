package sa;

import java.util.*;

/** Polynomials over symbolic atoms with rational coefficients: the numeric term domain (equality by normal form). */
public final class Poly {
    /** A numeric unknown or an uninterpreted numeric operation; identified by its key. */
    public static final class Atom implements Comparable<Atom> {
        final String key; final Itv range; final boolean integral;
        final Object tag; // structure of derived atoms
        Atom(String key, Itv range, boolean integral, Object tag) { this.key = key; this.range = range; this.integral = integral; this.tag = tag; }
        @Override public int compareTo(Atom o) { return key.compareTo(o.key); }
        @Override public boolean equals(Object o) { return o instanceof Atom && key.equals(((Atom) o).key); }
        @Override public int hashCode() { return key.hashCode(); }
        @Override public String toString() { return key; }
    }

    static final class Mono implements Comparable<Mono> {
        final List<Atom> f; // sorted
        final String key;
        Mono(List<Atom> f) { this.f = f; StringBuilder sb = new StringBuilder(); for (Atom a : f) sb.append(sb.length() > 0 ? "*" : "").append(a.key); key = sb.toString(); }
        @Override public int compareTo(Mono o) { return key.compareTo(o.key); }
        @Override public boolean equals(Object o) { return o instanceof Mono && key.equals(((Mono) o).key); }
        @Override public int hashCode() { return key.hashCode(); }
        Mono mul(Mono o) { List<Atom> l = new ArrayList<>(f); l.addAll(o.f); Collections.sort(l); return new Mono(l); }
    }

    static final Mono UNIT = new Mono(List.of());
    public static final Poly ZERO = new Poly(new TreeMap<>()), ONE = of(1);
    final TreeMap<Mono, Rat> t;
    private String key;

    private Poly(TreeMap<Mono, Rat> t) { this.t = t; }

    public static Poly of(long v) { return of(Rat.of(v)); }
    public static Poly of(Rat v) { TreeMap<Mono, Rat> m = new TreeMap<>(); if (v.sign() != 0) m.put(UNIT, v); return new Poly(m); }
    public static Poly atom(Atom a) { TreeMap<Mono, Rat> m = new TreeMap<>(); m.put(new Mono(List.of(a)), Rat.ONE); return new Poly(m); }
    public static Poly var(String key, Itv range, boolean integral) { return atom(new Atom(key, range, integral, null)); }
    public static Poly var(String key, Itv range, boolean integral, Object tag) { return atom(new Atom(key, range, integral, tag)); }

    Poly add(Poly o) {
        TreeMap<Mono, Rat> m = new TreeMap<>(t);
        o.t.forEach((k, v) -> { Rat s = m.containsKey(k) ? m.get(k).add(v) : v; if (s.sign() == 0) m.remove(k); else m.put(k, s); });
        return new Poly(m);
    }
    static Poly mono(Mono m) { TreeMap<Mono, Rat> r = new TreeMap<>(); r.put(m, Rat.ONE); return new Poly(r); }
    Poly neg() { return scale(Rat.MINUS_ONE); }
    Poly sub(Poly o) { return add(o.neg()); }
    Poly scale(Rat k) { if (k.sign() == 0) return ZERO; TreeMap<Mono, Rat> m = new TreeMap<>(); t.forEach((a, v) -> m.put(a, v.mul(k))); return new Poly(m); }
    Poly mul(Poly o) {
        Poly r = ZERO;
        for (var a : t.entrySet()) { TreeMap<Mono, Rat> m = new TreeMap<>(); for (var b : o.t.entrySet()) m.merge(a.getKey().mul(b.getKey()), a.getValue().mul(b.getValue()), Rat::add); m.values().removeIf(v -> v.sign() == 0); r = r.add(new Poly(m)); }
        return r;
    }
    boolean isConst() { return t.isEmpty() || (t.size() == 1 && t.containsKey(UNIT)); }
    Rat constant() { Rat r = t.get(UNIT); return r == null ? Rat.ZERO : r; }
    Poly withoutConst() { if (!t.containsKey(UNIT)) return this; TreeMap<Mono, Rat> m = new TreeMap<>(t); m.remove(UNIT); return new Poly(m); }
    /** syntactically integral: integer coefficients over integral atoms */
    boolean integral() {
        for (var e : t.entrySet()) { if (!e.getValue().isInt()) return false; for (Atom a : e.getKey().f) if (!a.integral) return false; }
        return true;
    }
    Rat lead() { return t.isEmpty() ? Rat.ONE : t.lastEntry().getValue(); }
    Atom single() { if (t.size() != 1) return null; var e = t.firstEntry(); return e.getKey().f.size() == 1 && e.getValue().equals(Rat.ONE) ? e.getKey().f.get(0) : null; }
    Set<Atom> atoms() { Set<Atom> s = new TreeSet<>(); t.keySet().forEach(m -> s.addAll(m.f)); return s; }

    String key() {
        if (key == null) {
            if (t.isEmpty()) key = "0";
            else { StringBuilder sb = new StringBuilder(); for (var e : t.entrySet()) { if (sb.length() > 0) sb.append("+"); if (e.getKey().f.isEmpty()) sb.append(e.getValue()); else if (e.getValue().equals(Rat.ONE)) sb.append(e.getKey().key); else sb.append(e.getValue()).append("*").append(e.getKey().key); } key = sb.toString(); }
        }
        return key;
    }
    @Override public boolean equals(Object o) { return o instanceof Poly && t.equals(((Poly) o).t); }
    @Override public int hashCode() { return t.hashCode(); }
    @Override public String toString() { return key(); }
}
