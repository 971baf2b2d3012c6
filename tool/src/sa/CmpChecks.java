package sa;

import java.util.*;
import static sa.Dsl.*;

/** Comparison operators. */
final class CmpChecks {
    static List<Arg> numData(String n) { return List.of(Arg.intD(n), Arg.longD(n), Arg.decD(n), Arg.dblD(n), Arg.fltD(n)); }
    static List<Arg> numLits(String n) { return List.of(Arg.intL(n), Arg.longL(n), Arg.decL(n)); }
    static List<Arg> cat(List<Arg> a, List<Arg> b) { List<Arg> l = new ArrayList<>(a); l.addAll(b); return l; }

    /** operands grouped by kind; n is the variable name */
    static List<List<Arg>> families(String n) {
        return List.of(
            cat(numData(n), numLits(n)),
            List.of(Arg.strD(n), Arg.strL(n), Arg.dqL(n)),
            List.of(Arg.verD(n), Arg.verL(n)),
            List.of(Arg.boolD(n), Arg.boolL(true), Arg.boolL(false)),
            List.of(Arg.dateD(n), Arg.dateTextD(n), Arg.dateL(n)),
            List.of(Arg.dtD(n), Arg.dtTextD(n), Arg.dtL(n)));
    }

    static final class Exact extends Check {
        String explanation() { return "Abstract interpretation of BooleanExpressionEvaluator.evaluate over `l op r` for every comparison operator and every pair of operand representations of one kind (data values and literals on both sides, symbolic values): every outcome partition must return the truth value the exact order demands."; }
        void run(Ctx c) {
            List<List<Arg>> L = families("x"), R = families("y");
            for (int i = 0; i < L.size(); i++) for (Arg l : L.get(i)) for (Arg r : R.get(i)) for (int op : Spec.CMP)
                c.bool("typed comparison is exact", new Cmp(l.e(), op, r.e()), Ctx.data(l, r), q -> Spec.sameKind(q, op, l, r), l, r);
            // an operand against itself
            for (List<Arg> f : L) for (Arg l : f) if (l.data()) for (int op : Spec.CMP)
                c.bool("typed comparison is exact", new Cmp(l.e(), op, l.e()), Ctx.data(l), q -> Spec.sameKind(q, op, l, l), l);
        }
    }

    static final class OneOrder extends Check {
        String explanation() { return "Relational abstract interpretation: for every pair of operand kinds (mixed kinds included), the outcomes of `a op b` are continued, under their facts, into the evaluation of the complementary and of the mirrored comparison; every reachable combination of outcomes must be consistent."; }
        void run(Ctx c) {
            List<Arg> L = new ArrayList<>(), R = new ArrayList<>();
            for (List<Arg> f : families("x")) L.addAll(f);
            for (List<Arg> f : families("y")) R.addAll(f);
            L.add(Arg.intTextD("x")); R.add(Arg.intTextD("y")); L.add(Arg.decTextD("x")); R.add(Arg.decTextD("y"));
            for (Arg l : L) for (Arg r : R) {
                if (!l.data() && !r.data() && !c.thorough) continue;
                boolean same = Spec.family(l).equals(Spec.family(r));
                if (!same && !c.thorough && !rep(l, r)) continue;
                for (int op : new int[]{EQ, GT, GE, LT, LE}) {
                    relate(c, l, r, op, Spec.complement(op), false);
                    if (op != EQ || true) relate(c, l, r, op, Spec.mirror(op), true);
                }
            }
        }
        private boolean rep(Arg l, Arg r) { return l.data() && !Set.of("Float", "Double").contains(l.label) && !Set.of("Float", "Double").contains(r.label); }

        private void relate(Ctx c, Arg l, Arg r, int op, int op2, boolean mirror) {
            E e1 = new Cmp(l.e(), op, r.e()), e2 = mirror ? new Cmp(r.e(), op2, l.e()) : new Cmp(l.e(), op2, r.e());
            String key = e1 + " against " + e2 + Ctx.show(l, r);
            if (c.skip(key)) return;
            try {
                State s = c.m.start();
                Model.Data d = new Model.Data("data"); Ctx.data(l, r).fill(s, d);
                V data = d.build(s);
                for (Model.Res a : c.m.bool(s, e1, data)) {
                    List<Model.Res> bs = c.m.bool(a.s, e2, data);
                    c.decide(key + (a.kind.equals("value") ? " after " + a : " after failure"), mirror ? "a op b iff b mirrored-op a" : "op and its complement partition", bs, q -> {
                        if (!a.kind.equals("value")) return a.kind.equals("failure") ? Expect.FAIL : Expect.bool(false);
                        Boolean v = a.v instanceof V.Im x && x.num != null && x.num.isConst() ? x.num.constant().sign() != 0 : null;
                        return v == null ? Expect.ANY : Expect.bool(mirror == v);
                    });
                }
            } catch (Interp.Budget b) { c.undecidedScenarios++; c.undecided.add(key + ": " + b.getMessage()); }
        }
    }
}
