package sa;

import java.util.*;

/** Finite automata over symbols: construction, determinisation, comparison. */
final class Nfa {
    static final class St { final Map<String, Set<St>> out = new TreeMap<>(); final Set<St> eps = new LinkedHashSet<>(); boolean end; void to(String sym, St t) { if (sym == null) eps.add(t); else out.computeIfAbsent(sym, k -> new LinkedHashSet<>()).add(t); } }
    final St start, fin;
    Nfa(St start, St fin) { this.start = start; this.fin = fin; }

    static Nfa sym(String s) { St a = new St(), b = new St(); a.to(s.isEmpty() ? null : s, b); return new Nfa(a, b); }
    static Nfa seq(Object... l) { St a = new St(), b = a; for (Object o : l) { Nfa n = of(o); b.to(null, n.start); b = n.fin; } return new Nfa(a, b); }
    static Nfa alt(Object... l) { St a = new St(), b = new St(); for (Object o : l) { Nfa n = of(o); a.to(null, n.start); n.fin.to(null, b); } return new Nfa(a, b); }
    static Nfa star(Object... l) { Nfa n = seq(l); St a = new St(); a.to(null, n.start); n.fin.to(null, a); return new Nfa(a, a); }
    static Nfa opt(Object... l) { return alt(seq(l), ""); }
    private static Nfa of(Object o) { return o instanceof Nfa n ? n : sym((String) o); }

    static Set<St> close(Collection<St> s) { Set<St> r = new LinkedHashSet<>(s); Deque<St> w = new ArrayDeque<>(s); while (!w.isEmpty()) for (St t : w.pop().eps) if (r.add(t)) w.push(t); return r; }
    static Set<St> step(Set<St> s, String a) { Set<St> r = new LinkedHashSet<>(); for (St t : s) { Set<St> x = t.out.get(a); if (x != null) r.addAll(x); } return close(r); }
    boolean accepts(Set<St> s) { return s.contains(fin) || s.stream().anyMatch(t -> t.end); }

    /** a shortest symbol sequence accepted by exactly one of the two, or null; states counts the product */
    static List<String> differ(Nfa a, Nfa b, int[] states) {
        record P(Set<St> x, Set<St> y, List<String> w) { }
        Set<Object> seen = new HashSet<>();
        Deque<P> q = new ArrayDeque<>();
        q.add(new P(close(List.of(a.start)), close(List.of(b.start)), List.of()));
        while (!q.isEmpty()) {
            P p = q.poll();
            if (!seen.add(List.of(p.x, p.y))) continue;
            states[0]++;
            if (a.accepts(p.x) != b.accepts(p.y)) return p.w;
            TreeSet<String> syms = new TreeSet<>();
            for (St s : p.x) syms.addAll(s.out.keySet());
            for (St s : p.y) syms.addAll(s.out.keySet());
            for (String y : syms) { List<String> w = new ArrayList<>(p.w); w.add(y); q.add(new P(step(p.x, y), step(p.y, y), w)); }
        }
        return null;
    }
}
