package sa;

import java.util.*;

/**
 * The relational part of an abstract state: intervals of normalised polynomials (with exclusions), an order closure over differences,
 * and truth values of uninterpreted predicates. Immutable.
 */
public final class Facts {
    record Rng(Itv itv, Set<Rat> not) { }
    final Map<Poly, Rng> rng;
    final Map<String, Boolean> preds;
    static final Facts EMPTY = new Facts(Map.of(), Map.of());
    static final int NEG = 1, ZERO = 2, POS = 4, ANY = 7;

    private Facts(Map<Poly, Rng> rng, Map<String, Boolean> preds) { this.rng = rng; this.preds = preds; }

    private Itv atomItv(Poly.Atom a) {
        Rng r = rng.get(Poly.atom(a));
        return r == null ? a.range : a.range.meet(r.itv);
    }

    Itv itv(Poly p) {
        Itv s = Itv.pt(Rat.ZERO);
        for (var e : p.t.entrySet()) {
            Itv m = Itv.pt(Rat.ONE);
            List<Poly.Atom> f = e.getKey().f;
            if (f.size() == 2 && f.get(0).equals(f.get(1))) { Itv a = atomItv(f.get(0)); m = a.mul(a); m = m.meet(Itv.above(Rat.ZERO, false)); }
            else for (Poly.Atom a : f) m = m.equals(Itv.pt(Rat.ONE)) ? atomItv(a) : m.mul(atomItv(a));
            s = s.add(m.scale(e.getValue()));
        }
        Poly n = p.withoutConst();
        if (!n.t.isEmpty() ) {
            Rat k = n.lead();
            Rng r = rng.get(n.scale(Rat.ONE.div(k)));
            if (r != null) s = s.meet(r.itv.scale(k).add(Itv.pt(p.constant())));
        }
        return p.integral() ? s.tighten() : s;
    }

    /** the set of signs p may have (NEG|ZERO|POS) */
    int sign(Poly p) {
        if (p.isConst()) return sg(p.constant().sign());
        Itv v = itv(p);
        int s = 0;
        if (v.lo() == null || v.lo().sign() < 0) s |= NEG;
        if (v.hi() == null || v.hi().sign() > 0) s |= POS;
        if (v.contains(Rat.ZERO)) s |= ZERO;
        Poly n = p.withoutConst(); Rat k = n.lead();
        Rng r = rng.get(n.scale(Rat.ONE.div(k)));
        if (r != null && r.not.contains(p.constant().neg().div(k))) s &= ~ZERO;
        if (p.t.size() == 2 && !p.t.containsKey(Poly.UNIT)) s &= closure(p);
        return s;
    }

    static int sg(int c) { return c < 0 ? NEG : c > 0 ? POS : ZERO; }

    /** order closure for a difference m1 - m2 through the known differences */
    private int closure(Poly p) {
        var it = p.t.entrySet().iterator();
        var e1 = it.next(); var e2 = it.next();
        Rat c1 = e1.getValue(), c2 = e2.getValue();
        if (!c1.equals(c2.neg())) return ANY;
        Poly.Mono a = c1.sign() > 0 ? e1.getKey() : e2.getKey(), b = c1.sign() > 0 ? e2.getKey() : e1.getKey();
        // p ~ a - b
        int up = reach(b, a); // b <= a : 1, b < a : 2
        int dn = reach(a, b);
        int s = ANY;
        if (up == 2) s &= POS; else if (up == 1) s &= POS | ZERO;
        if (dn == 2) s &= NEG; else if (dn == 1) s &= NEG | ZERO;
        return s;
    }

    private int reach(Poly.Mono from, Poly.Mono to) {
        Map<Poly.Mono, Integer> best = new HashMap<>();
        Deque<Poly.Mono> q = new ArrayDeque<>();
        best.put(from, 1); q.add(from);
        while (!q.isEmpty()) {
            Poly.Mono x = q.poll(); int bx = best.get(x);
            for (var e : rng.entrySet()) {
                Poly d = e.getKey();
                if (d.t.size() != 2) continue;
                var it = d.t.entrySet().iterator(); var e1 = it.next(); var e2 = it.next();
                if (!e1.getValue().equals(e2.getValue().neg())) continue;
                Poly.Mono a = e1.getValue().sign() > 0 ? e1.getKey() : e2.getKey(), b = e1.getValue().sign() > 0 ? e2.getKey() : e1.getKey();
                Itv v = e.getValue().itv;
                // a - b in v
                if (b.equals(x) && v.lo() != null && v.lo().sign() >= 0) {
                    boolean strict = v.lo().sign() > 0 || v.loOpen() || e.getValue().not.contains(Rat.ZERO);
                    int nb = strict || bx == 2 ? 2 : 1; if (best.getOrDefault(a, 0) < nb) { best.put(a, nb); q.add(a); }
                }
                if (a.equals(x) && v.hi() != null && v.hi().sign() <= 0) {
                    boolean strict = v.hi().sign() < 0 || v.hiOpen() || e.getValue().not.contains(Rat.ZERO);
                    int nb = strict || bx == 2 ? 2 : 1; if (best.getOrDefault(b, 0) < nb) { best.put(b, nb); q.add(b); }
                }
            }
        }
        return from.equals(to) ? 1 : best.getOrDefault(to, 0);
    }

    /** restrict p to an interval; null when infeasible */
    Facts within(Poly p, Itv v) {
        if (p.isConst()) return v.contains(p.constant()) ? this : null;
        Itv cur = itv(p);
        Itv m = cur.meet(v);
        if (p.integral()) m = m.tighten();
        if (m.empty()) return null;
        if (m.same(cur)) return this;
        Poly n = p.withoutConst(); Rat k = n.lead();
        Poly key = n.scale(Rat.ONE.div(k));
        Itv nv = m.add(Itv.pt(p.constant().neg())).scale(Rat.ONE.div(k));
        Rng old = rng.get(key);
        Map<Poly, Rng> r = new HashMap<>(rng);
        r.put(key, new Rng(old == null ? nv : old.itv.meet(nv), old == null ? Set.of() : old.not));
        Facts f = new Facts(r, preds);
        if (nv.isPt() && key.t.size() == 2 && key.t.firstKey().f.size() == 1 && f.clash(key.t.firstKey().f.get(0))) return null;
        return f.propagate(key);
    }

    /** bounds propagation through the known linear relations, from a changed term; null when infeasible */
    private Facts propagate(Poly changed) {
        Facts f = this;
        Deque<Poly> work = new ArrayDeque<>();
        work.add(changed);
        for (int steps = 0; !work.isEmpty() && steps < 24; steps++) {
            Poly c = work.poll();
            Poly.Atom one = c.single();
            List<Poly> rel = new ArrayList<>();
            if (one == null) { rel.add(c); for (Poly d : f.rng.keySet()) if (d.t.size() == 3 && d != c) rel.add(d); }
            else for (Poly d : f.rng.keySet()) if (d.t.size() > 1 && d.t.size() < 5) for (Poly.Mono m : d.t.keySet()) if (m.f.size() == 1 && m.f.get(0).equals(one)) rel.add(d);
            for (Poly d : rel) {
                Rng r = f.rng.get(d);
                if (r == null || d.t.size() < 2 || r.itv.lo() == null && r.itv.hi() == null) continue;
                for (var e : d.t.entrySet()) {
                    if (e.getKey().f.size() != 1) continue;
                    Poly.Atom a = e.getKey().f.get(0);
                    if (a.equals(one)) continue;
                    Poly ap = Poly.atom(a);
                    Itv rest = f.itv(d.sub(ap.scale(e.getValue())));
                    Itv bound = r.itv.add(rest.scale(Rat.MINUS_ONE)).scale(Rat.ONE.div(e.getValue()));
                    Itv cur = f.atomItv(a), nw = cur.meet(bound);
                    if (a.integral) nw = nw.tighten();
                    if (nw.empty()) return null;
                    if (nw.same(cur)) continue;
                    Rng old = f.rng.get(ap);
                    Map<Poly, Rng> m = new HashMap<>(f.rng);
                    m.put(ap, new Rng(old == null ? nw : old.itv.meet(nw), old == null ? Set.of() : old.not));
                    f = new Facts(m, f.preds);
                    work.add(ap);
                }
            }
        }
        return f;
    }

    Facts notZero(Poly p) {
        if (p.isConst()) return p.constant().sign() != 0 ? this : null;
        int s = sign(p);
        if ((s & ZERO) == 0) return this;
        if (s == ZERO) return null;
        if (s == (ZERO | POS)) return within(p, Itv.POS);
        if (s == (ZERO | NEG)) return within(p, Itv.NEG);
        Poly n = p.withoutConst(); Rat k = n.lead();
        Poly key = n.scale(Rat.ONE.div(k));
        Rng old = rng.get(key);
        Set<Rat> not = new HashSet<>(old == null ? Set.of() : old.not);
        not.add(p.constant().neg().div(k));
        Map<Poly, Rng> r = new HashMap<>(rng);
        r.put(key, new Rng(old == null ? Itv.ALL : old.itv, not));
        return new Facts(r, preds);
    }

    /** assume sign(p) in set; null when infeasible */
    Facts assume(Poly p, int set) {
        int s = sign(p) & set;
        if (s == 0) return null;
        switch (s) {
            case NEG: return within(p, Itv.NEG);
            case POS: return within(p, Itv.POS);
            case ZERO: return within(p, Itv.pt(Rat.ZERO));
            case NEG | ZERO: return within(p, Itv.below(Rat.ZERO, false));
            case POS | ZERO: return within(p, Itv.above(Rat.ZERO, false));
            case NEG | POS: return notZero(p);
            default: return this;
        }
    }

    Boolean pred(String k) { return preds.get(k); }

    /** the atoms known equal to a */
    private Set<Poly.Atom> equals(Poly.Atom a) {
        Set<Poly.Atom> s = new LinkedHashSet<>();
        s.add(a);
        for (boolean go = true; go; ) {
            go = false;
            for (var e : rng.entrySet()) {
                Poly d = e.getKey();
                if (d.t.size() != 2 || !e.getValue().itv.isPt() || e.getValue().itv.lo().sign() != 0) continue;
                var it = d.t.entrySet().iterator(); var x = it.next(); var y = it.next();
                if (!x.getValue().equals(y.getValue().neg()) || x.getKey().f.size() != 1 || y.getKey().f.size() != 1) continue;
                Poly.Atom p = x.getKey().f.get(0), q = y.getKey().f.get(0);
                if (s.contains(p) && s.add(q)) go = true;
                if (s.contains(q) && s.add(p)) go = true;
            }
        }
        return s;
    }
    /** is an atom a whole number: null when open */
    Boolean intAtom(Poly.Atom a) {
        if (a.integral) return true;
        Boolean r = preds.get("int(" + a.key + ")");
        if (r != null) return r;
        for (Poly.Atom b : equals(a)) { if (b.integral) return true; r = preds.get("int(" + b.key + ")"); if (r != null) return r; }
        Itv v = atomItv(a);
        return v.isPt() ? (Boolean) v.lo().isInt() : null;
    }
    /** equal atoms disagree on being whole */
    private boolean clash(Poly.Atom a) {
        Boolean seen = null;
        for (Poly.Atom b : equals(a)) { Boolean r = b.integral ? Boolean.TRUE : preds.get("int(" + b.key + ")"); if (r == null) continue; if (seen != null && !seen.equals(r)) return true; seen = r; }
        return false;
    }

    Facts setPred(String k, boolean v) {
        Boolean o = preds.get(k);
        if (o != null) return o == v ? this : null;
        Map<String, Boolean> m = new HashMap<>(preds); m.put(k, v);
        return new Facts(rng, m);
    }

    @Override public boolean equals(Object o) { return o instanceof Facts f && f.rng.equals(rng) && f.preds.equals(preds); }
    @Override public int hashCode() { return rng.hashCode() * 31 + preds.hashCode(); }

    @Override public String toString() {
        List<String> l = new ArrayList<>();
        rng.forEach((p, r) -> l.add(pretty(p, r)));
        preds.forEach((k, v) -> l.add((v ? "" : "not ") + k));
        Collections.sort(l);
        return String.join(", ", l);
    }

    private static String pretty(Poly p, Rng r) {
        String s = p.toString();
        if (r.itv.isPt()) return s + " = " + r.itv.lo();
        String x = "";
        if (r.itv.lo() != null || r.itv.hi() != null) x = s + " in " + r.itv;
        if (!r.not.isEmpty()) x += (x.isEmpty() ? "" : ", ") + s + " not in " + r.not;
        return x;
    }
}
