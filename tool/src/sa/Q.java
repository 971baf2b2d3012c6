package sa;

import java.util.*;
import java.util.function.*;

/** The specification's view of one partition: it asks questions, and every answer consistent with the partition's facts is explored. */
final class Q {
    static final class Infeasible extends RuntimeException { Infeasible() { super(null, null, false, false); } }
    Facts f;
    private final int[] script; private int pos; private final List<Integer> widths = new ArrayList<>();
    final Model m;

    private Q(Model m, Facts f, int[] script) { this.m = m; this.f = f; this.script = script; }

    private int choose(List<Facts> opts) {
        List<Integer> ok = new ArrayList<>();
        for (int i = 0; i < opts.size(); i++) if (opts.get(i) != null) ok.add(i);
        if (ok.isEmpty()) throw new Infeasible();
        int c = 0;
        if (ok.size() > 1) { c = pos < script.length ? script[pos] : 0; widths.add(ok.size()); pos++; }
        f = opts.get(ok.get(c));
        return ok.get(c);
    }

    /** -1, 0, 1 */
    int sign(Poly p) { return choose(Arrays.asList(f.assume(p, Facts.NEG), f.assume(p, Facts.ZERO), f.assume(p, Facts.POS))) - 1; }
    boolean is(Poly p, int set) { return choose(Arrays.asList(f.assume(p, set), f.assume(p, ~set & 7))) == 0; }
    /** restricts the partition to the given signs of p */
    void require(Poly p, int set) { Facts g = f.assume(p, set); if (g == null) throw new Infeasible(); f = g; }
    boolean zero(Poly p) { return is(p, Facts.ZERO); }
    boolean within(Poly p, Itv r) {
        if (f.itv(p).within(r)) return true;
        return choose(Arrays.asList(f.within(p, r), r.hi() == null ? null : f.within(p, Itv.above(r.hi(), !r.hiOpen())), r.lo() == null ? null : f.within(p, Itv.below(r.lo(), !r.loOpen())))) == 0;
    }
    boolean integral(Poly p) {
        Boolean b = Lib.isIntegral(f, p);
        if (b != null) return b;
        String k = Lib.intKey(p);
        Facts n = f.setPred(k, false);
        return choose(Arrays.asList(f.setPred(k, true), n == null ? null : n.assume(p, Facts.NEG | Facts.POS))) == 0;
    }
    boolean pred(String k) { return choose(Arrays.asList(f.setPred(k, true), f.setPred(k, false))) == 0; }

    /** all completions of a partition's facts under a specification */
    static int each(Model m, Facts f, Function<Q, Expect> spec, BiFunction<Q, Expect, Boolean> use) {
        Deque<int[]> work = new ArrayDeque<>();
        work.push(new int[0]);
        int n = 0;
        while (!work.isEmpty()) {
            int[] script = work.pop();
            Q q = new Q(m, f, script);
            Expect e;
            try { e = spec.apply(q); } catch (Infeasible x) { e = null; }
            for (int i = script.length; i < q.widths.size(); i++)
                for (int k = 1; k < q.widths.get(i); k++) { int[] s = Arrays.copyOf(script, i + 1); for (int j = script.length; j < i; j++) s[j] = 0; s[i] = k; work.push(s); }
            if (e == null) continue;
            n++;
            if (n > 5000) throw new IllegalStateException("specification branches too often");
            if (!use.apply(q, e)) return n;
        }
        return n;
    }
}
