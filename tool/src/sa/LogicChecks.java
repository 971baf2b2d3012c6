package sa;

import java.util.*;
import java.util.function.*;
import static sa.Dsl.*;

/** Connectives, ranges, membership, presence, failures. */
final class LogicChecks {
    /** a boolean sub expression with its meaning: 1 true, 0 false, -1 failure */
    record Leaf(E e, List<Arg> args, Function<Q, Integer> val) {
        Leaf(E e, Function<Q, Integer> val, Arg... a) { this(e, List.of(a), val); }
        @Override public String toString() { return e.toString(); }
    }

    static Expect tri(int v) { return v < 0 ? Expect.FAIL : Expect.bool(v == 1); }

    static Leaf cmp(Arg l, int op, Arg r) { return new Leaf(new Cmp(l.e(), op, r.e()), q -> Spec.holds(op, q.sign(Spec.diff(q, l, r))) ? 1 : 0, l, r); }
    static Leaf not(Leaf a) { return new Leaf(new NotE(a.e instanceof Tok || a.e instanceof Par || a.e instanceof NotE ? a.e : new Par(a.e)), a.args, q -> neg(a.val.apply(q))); }
    static Leaf par(Leaf a) { return new Leaf(new Par(a.e), a.args, a.val); }
    static int neg(int v) { return v < 0 ? -1 : 1 - v; }
    static Leaf bin(Leaf a, int op, Leaf b) {
        List<Arg> l = new ArrayList<>(a.args); l.addAll(b.args);
        return new Leaf(new Bin(a.e, op, b.e), l, q -> {
            int x = a.val.apply(q);
            if (x < 0) return -1;
            if (op == AND ? x == 0 : x == 1) return x;
            return b.val.apply(q);
        });
    }

    /** leaves with names derived from n, of every form a condition can take */
    static List<Leaf> leaves(String n) {
        List<Leaf> l = new ArrayList<>();
        Arg b = Arg.boolD("b" + n), x = Arg.intD("x" + n), y = Arg.longD("y" + n), m = Arg.missing("m" + n), s = Arg.strD("s" + n);
        l.add(new Leaf(b.e(), q -> q.zero(b.p) ? 0 : 1, b));
        l.add(new Leaf(bool(true), q -> 1));
        l.add(new Leaf(bool(false), q -> 0));
        l.add(cmp(x, GT, y));
        l.add(new Leaf(m.e(), q -> -1, m));
        l.add(new Leaf(x.e(), q -> -1, x));
        l.add(new Leaf(new In(x.name, false, List.of(Arg.num(1).e(), Arg.num(7).e())), q -> q.zero(x.p.sub(Poly.of(1))) || q.zero(x.p.sub(Poly.of(7))) ? 1 : 0, x));
        l.add(new Leaf(new In(x.name, true, List.of(Arg.num(3).e())), q -> q.zero(x.p.sub(Poly.of(3))) ? 0 : 1, x));
        l.add(new Leaf(new ToE(x.name, Arg.num(3).lit, Arg.num(9).lit), q -> q.within(x.p, Itv.of(3, 9)) ? 1 : 0, x));
        l.add(cmp(s, EQ, Arg.strL("w" + n)));
        l.add(new Leaf(new Cmp(m.e(), EQ, Arg.num(5).e()), q -> -1, m));
        l.add(new Leaf(new Cmp(new Ar(x.e(), ADD, y.e()), LT, Arg.num(10).e()), q -> q.sign(x.p.add(y.p).sub(Poly.of(10))) < 0 ? 1 : 0, x, y));
        l.add(not(new Leaf(b.e(), q -> q.zero(b.p) ? 0 : 1, b)));
        l.add(not(cmp(x, LE, y)));
        l.add(not(new Leaf(m.e(), q -> -1, m)));
        return l;
    }

    static final class Truth extends Check {
        String explanation() { return "Abstract interpretation of evaluate over AND/OR/NOT combinations of every form of condition (fields, literals, comparisons, membership, ranges, negations, parentheses, arithmetic operands, failing conditions): each outcome partition must equal the three-valued left-to-right table in which the right operand matters only when the left one does not decide."; }
        List<String> assumptions() { return List.of("Chains and nests of 5 to 34 (thorough 140) connectives are included with one symbolic or failing operand at each position. Nesting beyond the enumerated shapes follows by induction: evaluateToken is applied to sub nodes that are built and evaluated independently of their context (shapes up to three connectives are enumerated)."); }
        void run(Ctx c) {
            List<Leaf> A = leaves("1"), B = leaves("2"), C = leaves("3");
            for (Leaf a : A) go(c, a);
            for (Leaf a : A) go(c, not(par(a)));
            for (Leaf a : A) go(c, not(not(a)));
            for (int op : new int[]{AND, OR}) for (Leaf a : A) for (Leaf b : B) { go(c, bin(a, op, b)); go(c, not(bin(a, op, b))); }
            List<Leaf> a3 = c.thorough ? A : few(A), b3 = c.thorough ? few(B) : few(B), c3 = few(C);
            for (int o : new int[]{AND, OR}) for (int p : new int[]{AND, OR}) for (Leaf a : a3) for (Leaf b : b3) for (Leaf d : c3) {
                go(c, bin(bin(a, o, b), p, d));          // a o b p d: left associative, one level
                go(c, bin(a, o, par(bin(b, p, d))));
                if (c.thorough) { go(c, bin(not(bin(a, o, b)), p, d)); go(c, bin(a, o, not(bin(b, p, d)))); go(c, not(bin(par(bin(a, o, b)), p, not(d)))); }
            }
            // the same field on both sides
            for (int o : new int[]{AND, OR}) { Leaf a = A.get(0), b = A.get(3); go(c, bin(a, o, not(a))); go(c, bin(b, o, not(b))); go(c, bin(a, o, a)); }
            // four leaves
            List<Leaf> D = leaves("4");
            for (int o : new int[]{AND, OR}) for (int p : new int[]{AND, OR}) for (int r : new int[]{AND, OR}) {
                Leaf a = A.get(0), b = B.get(3), d = C.get(0), e = D.get(6);
                go(c, bin(bin(bin(a, o, b), p, d), r, e)); go(c, bin(par(bin(a, o, b)), p, par(bin(d, r, e)))); go(c, bin(a, o, par(bin(b, p, par(bin(d, r, e)))))); go(c, not(bin(not(bin(a, o, b)), p, not(bin(d, r, e)))));
            }
            sizes(c);
        }
        /** long chains, deep nesting: constants with a symbolic or failing operand first, in the middle and last */
        private void sizes(Ctx c) {
            for (int n : c.thorough ? new int[]{5, 6, 8, 9, 12, 17, 34, 70, 140} : new int[]{5, 9, 12, 17, 34}) for (int op : new int[]{AND, OR}) for (int at : new int[]{-1, 0, n / 2, n - 1}) for (int what = 0; what < (at < 0 ? 1 : 4); what++) {
                List<Leaf> l = new ArrayList<>();
                Arg b = Arg.boolD("b"), m = Arg.missing("m"), x = Arg.intD("x");
                for (int i = 0; i < n; i++) { boolean v = op == AND; if (i % 2 == 0) l.add(new Leaf(bool(v), q -> v ? 1 : 0)); else l.add(cmp(Arg.num(3), v ? LT : GT, Arg.num(4))); }
                if (at >= 0) l.set(at, what == 0 ? new Leaf(b.e(), q -> q.zero(b.p) ? 0 : 1, b) : what == 1 ? new Leaf(m.e(), q -> -1, m) : what == 2 ? cmp(x, GT, Arg.num(10)) : new Leaf(bool(op != AND), q -> op != AND ? 1 : 0));
                if (at >= 0 && at < n - 1) l.set(n - 1, new Leaf(Arg.missing("gone").e(), q -> -1));
                Leaf left = l.get(0), right = l.get(n - 1), alt = l.get(0), neg = l.get(0);
                for (int i = 1; i < n; i++) { left = bin(left, op, l.get(i)); right = bin(l.get(n - 1 - i), op, par(right)); alt = bin(alt, i % 3 == 0 ? AND + OR - op : op, l.get(i)); neg = not(bin(neg, i % 2 == 0 ? AND : OR, l.get(i))); }
                go(c, left); go(c, right); go(c, alt); go(c, neg);
                if (at == 0) { Leaf nn = l.get(0); for (int i = 0; i < n; i++) nn = i % 3 == 2 ? par(nn) : not(nn); go(c, nn); }
            }
            // several symbolic operands
            for (int n : new int[]{5, 7}) for (int op : new int[]{AND, OR}) { Leaf e = null; for (int i = 0; i < n; i++) { Arg b = Arg.boolD("b" + i); Leaf f = new Leaf(b.e(), q -> q.zero(b.p) ? 0 : 1, b); e = e == null ? f : bin(e, i == n / 2 ? AND + OR - op : op, i % 2 == 0 ? f : not(f)); } go(c, e); go(c, not(e)); }
        }
        private List<Leaf> few(List<Leaf> l) { return List.of(l.get(0), l.get(3), l.get(4)); }
        private void go(Ctx c, Leaf a) { c.bool("three-valued truth table, left to right", a.e, Ctx.data(a.args.toArray(new Arg[0])), q -> tri(a.val.apply(q))); }
    }

    // ------------------------------------------------------------------------------------------------------------------ ranges

    static int tri(Expect e) { return e == Expect.FAIL ? -1 : e.truth == null ? 2 : e.truth ? 1 : 0; }

    static final class Range extends Check {
        String explanation() { return "Abstract interpretation of `field lo TO hi` for every kind of field value and bound literal: true exactly when lo <= field <= hi in the order of the comparison operators."; }
        void run(Ctx c) {
            List<Arg> F = new ArrayList<>(CmpChecks.numData("x"));
            F.add(Arg.intTextD("x")); F.add(Arg.decTextD("x")); F.add(Arg.strD("x")); F.add(Arg.boolD("x")); F.add(Arg.dateD("x")); F.add(Arg.dtD("x")); F.add(Arg.missing("x"));
            List<List<Arg>> bounds = List.of(List.of(Arg.intL("lo"), Arg.longL("lo"), Arg.decL("lo")), List.of(Arg.intL("hi"), Arg.longL("hi"), Arg.decL("hi")));
            for (Arg f : F) for (Arg lo : bounds.get(0)) for (Arg hi : bounds.get(1)) go(c, f, lo, hi);
            for (Arg f : F) { go(c, f, Arg.num(5), Arg.num(5)); go(c, f, Arg.num(9), Arg.num(2)); go(c, f, Arg.num(0), Arg.num(3000000000L)); Arg k = Arg.intL("k"); go(c, f, k, k); }
        }
        private void go(Ctx c, Arg f, Arg lo, Arg hi) {
            c.bool("range is the conjunction of >= and <=", new ToE(f.name, lo.lit, hi.lit), Ctx.data(f), q -> {
                if (f.kind.equals("MISSING")) return Expect.FAIL;
                int a = tri(Spec.compare(q, GE, f, lo));
                if (a < 0) return Expect.FAIL;
                int b = tri(Spec.compare(q, LE, f, hi));
                if (b < 0) return a == 0 ? Expect.either(Expect.FAIL, Expect.bool(false)) : Expect.FAIL;
                return Expect.bool(a == 1 && b == 1);
            }, f, lo, hi);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ IN

    /** x IN items: an element equal to x; comparisons that fail make the outcome a failure unless an equal element precedes */
    static Expect member(Q q, Arg x, List<Arg> items, boolean not) {
        boolean failed = false, hit = false;
        for (Arg i : items) {
            int v = i.kind.equals("MISSING") ? -1 : tri(Spec.compare(q, EQ, x, i));
            if (v == 2) return Expect.RETURNS;
            if (v < 0) { if (hit) break; failed = true; }
            if (v == 1) { hit = true; if (failed) return Expect.either(Expect.FAIL, Expect.bool(!not)); }
        }
        for (Arg i : items) if (i.kind.equals("MISSING")) return Expect.FAIL;
        if (failed) return Expect.FAIL;
        return Expect.bool(hit != not);
    }

    static final class Membership extends Check {
        String explanation() { return "Abstract interpretation of IN and NOT IN for every kind of field value and lists of one to three elements (literals, other fields, arithmetic) and of 6 to 34 elements with the decisive one first, in the middle and last: the outcome must be the disjunction of the element equalities, and its negation for NOT IN."; }
        void run(Ctx c) {
            List<Arg> F = new ArrayList<>();
            for (List<Arg> f : CmpChecks.families("x")) for (Arg a : f) if (a.data()) F.add(a);
            F.add(Arg.intTextD("x"));
            F.add(Arg.missing("x"));
            List<Arg> I1 = new ArrayList<>(), I2 = new ArrayList<>();
            for (List<Arg> f : CmpChecks.families("y")) I1.addAll(f);
            for (List<Arg> f : CmpChecks.families("z")) for (Arg a : f) if (!a.data() || a.label.equals("Integer") || a.label.equals("text") || c.thorough) I2.add(a);
            I1.add(Arg.missing("y"));
            for (Arg x : F) for (Arg y : I1) for (boolean not : new boolean[]{false, true}) go(c, x, not, List.of(y));
            for (Arg x : F) for (Arg y : I1) for (Arg z : I2) {
                boolean sameAll = Spec.family(y).equals(Spec.family(x)) && Spec.family(z).equals(Spec.family(x));
                if (!sameAll && !c.thorough && !(y.label.startsWith("y") && z.label.startsWith("z") || y.label.equals("Integer"))) continue;
                go(c, x, false, List.of(y, z));
                if (sameAll) go(c, x, true, List.of(y, z));
            }
            Arg x = Arg.intD("x"), y = Arg.intD("y"), z = Arg.longD("z"), w = Arg.decD("w"), n = Arg.strD("n");
            for (boolean not : new boolean[]{false, true}) {
                go(c, x, not, List.of(y, Arg.num(4), z)); go(c, z, not, List.of(Arg.num(1), Arg.num(2), Arg.num(3))); go(c, w, not, List.of(Arg.decL("p"), Arg.intL("q"), x)); go(c, n, not, List.of(Arg.strL("p"), Arg.strL("q"), Arg.strL("r")));
                go(c, n, not, List.of(Arg.strL("p"), Arg.intL("q"), Arg.dateL("r")));
                go(c, x, not, List.of(x));
                go(c, x, not, List.of(y, y));
                if (c.thorough) go(c, x, not, List.of(Arg.intL("a1"), Arg.longL("a2"), Arg.decL("a3"), Arg.intL("a4")));
                // computed elements
                boolean nt = not;
                c.bool("membership is the disjunction of equalities", new In("x", not, List.of(new Ar(y.e(), ADD, Arg.num(1).e()), new Neg(z.e()))), Ctx.data(x, y, z), q -> Expect.bool((q.zero(x.p.sub(y.p).sub(Poly.of(1))) || q.zero(x.p.add(z.p))) != nt), x, y, z);
                c.bool("membership is the disjunction of equalities", new In("x", not, List.of(new Par(y.e()), new Par(new Par(Arg.num(3).e())))), Ctx.data(x, y), q -> Expect.bool((q.zero(x.p.sub(y.p)) || q.zero(x.p.sub(Poly.of(3)))) != nt), x, y);
                c.bool("membership is the disjunction of equalities", new In("x", not, List.of(new Fun(MAX, List.of(y.e(), z.e())), Arg.num(3).e())), Ctx.data(x, y, z), q -> { Poly m = q.sign(y.p.sub(z.p)) >= 0 ? y.p : z.p; return Expect.bool((q.zero(x.p.sub(m)) || q.zero(x.p.sub(Poly.of(3)))) != nt); }, x, y, z);
            }
            sizes(c);
        }
        /** long lists: constants with the interesting item first, in the middle and last */
        private void sizes(Ctx c) {
            for (int n : c.thorough ? new int[]{5, 6, 8, 9, 12, 17, 34, 70} : new int[]{6, 9, 12, 34}) for (boolean not : new boolean[]{false, true}) {
                List<Arg> ns = new ArrayList<>(), ws = new ArrayList<>();
                for (int i = 0; i < n; i++) { ns.add(Arg.num(3L * i + 2)); ws.add(Arg.wordL("w" + i)); }
                boolean small = c.thorough ? n <= 12 : n == 9;
                if (small) {
                    for (Arg x : List.of(Arg.intD("x"), Arg.longD("x"), Arg.decD("x"), Arg.dblD("x"), Arg.intTextD("x"))) go(c, x, not, ns);
                    go(c, Arg.strD("x"), not, ws);
                }
                if (n <= 9) go(c, Arg.strD("x"), not, ns); go(c, Arg.wordD("x", "w" + (n - 1)), not, ws); go(c, Arg.wordD("x", "W0"), not, ws);
                for (int at : new int[]{0, n / 2, n - 1}) {
                    List<Arg> l = new ArrayList<>(ns); l.set(at, Arg.intD("y"));
                    if (small && c.thorough) go(c, Arg.intD("x"), not, l);
                    go(c, Arg.numD("x", 1), not, l); go(c, Arg.numD("x", 3000000000L), not, l); go(c, Arg.numD("x", 3L * at + 2), not, ns);
                    l = new ArrayList<>(ns); l.set(at, Arg.decD("y")); go(c, Arg.numD("x", 1), not, l);
                    l = new ArrayList<>(ns); l.set(at, Arg.missing("y")); go(c, Arg.numD("x", 1), not, l);
                    l = new ArrayList<>(ns); l.set(at, Arg.boolL(true)); go(c, Arg.numD("x", 1), not, l); go(c, Arg.numD("x", 2), not, l);
                    l = new ArrayList<>(ws); l.set(at, Arg.strL("y")); go(c, Arg.wordD("x", "Z"), not, l);
                    l = new ArrayList<>(ws); l.set(at, Arg.intL("y")); go(c, Arg.numD("x", 7), not, l);
                    l = new ArrayList<>(ns); l.set(at, Arg.num(3000000000L)); if (small) go(c, Arg.decD("x"), not, l); go(c, Arg.numD("x", 3000000000L), not, l);
                }
            }
        }
        private void go(Ctx c, Arg x, boolean not, List<Arg> items) {
            List<E> es = new ArrayList<>(); List<Arg> all = new ArrayList<>(List.of(x)); all.addAll(items);
            for (Arg a : items) es.add(a.e());
            c.bool("membership is the disjunction of equalities", new In(x.name, not, es), Ctx.data(all.toArray(new Arg[0])), q -> x.kind.equals("MISSING") ? Expect.FAIL : member(q, x, items, not), all.toArray());
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ CONTAINS

    static final class Contains extends Check {
        String explanation() { return "Abstract interpretation of CONTAINS_ANY and CONTAINS_ALL over lists, sets and arrays of up to three symbolic elements and argument lists of up to three elements: true exactly when some / every argument equals an element; a field that is not a collection and argument lists of mixed kinds must fail."; }
        List<String> assumptions() { return List.of("Beyond three elements, collections and argument lists of 7 and 12 (thorough 34) are analysed with one or two symbolic members; other large ones behave alike (the code treats elements uniformly through streams).", "Elements and arguments are of one kind (whole numbers, texts or truth values); elements and arguments of different kinds are compared through their texts by design and are not constrained."); }
        void run(Ctx c) {
            int max = c.thorough ? 3 : 2;
            for (String kind : List.of("int", "long", "text", "boolean"))
                for (String shape : List.of("list", "array", "set"))
                    for (int n = 0; n <= max; n++) for (int k = 1; k <= max; k++) {
                                                if (shape.equals("set") && kind.equals("boolean") && n > 1) continue;
                        for (boolean lit : new boolean[]{true, false}) for (int op : new int[]{CONTAINS_ANY, CONTAINS_ALL}) go(c, kind, shape, n, k, lit, op);
                    }
            for (int op : new int[]{CONTAINS_ANY, CONTAINS_ALL}) {
                constants(c, op);
                for (Arg f : List.of(Arg.intD("f"), Arg.longD("f"), Arg.decD("f"), Arg.dblD("f"), Arg.strD("f"), Arg.boolD("f"), Arg.verD("f"), Arg.dateD("f"), Arg.dtD("f"), Arg.missing("f")))
                    c.bool("a field that is not a collection fails", new ArrE("f", op, List.of(Arg.num(1).e())), Ctx.data(f), q -> Expect.FAIL, f);
                for (boolean lit : new boolean[]{true, false}) for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
                    if (i == j) continue;
                    for (int n = 2; n <= (c.thorough ? 4 : 3); n++) for (int at = n == 2 ? 1 : 0; at < n; at += n - 1) {
                        List<Arg> mix = new ArrayList<>(); for (int k = 0; k < n; k++) mix.add(kind(k == at ? j : i, lit, "p" + k));
                        List<E> es = new ArrayList<>(); for (Arg a : mix) es.add(a.e());
                        c.bool("arguments of different kinds fail", new ArrE("f", op, es), (s, d) -> { d.put("f", c.m.arrayList(s, List.of(Arg.intD("e").mk.apply(s)))); for (Arg a : mix) a.put(s, d); }, q -> Expect.FAIL, mix.toArray());
                    }
                }
                Arg e = Arg.intD("e");
                c.bool("a missing argument fails", new ArrE("f", op, List.of(Arg.missing("gone").e())), (s, d) -> d.put("f", c.m.arrayList(s, List.of(e.mk.apply(s)))), q -> Expect.FAIL);
                Arg y = Arg.intD("y");
                c.bool("contains compares computed arguments", new ArrE("f", op, List.of(new Ar(y.e(), ADD, Arg.num(1).e()))), (s, d) -> { d.put("f", c.m.arrayList(s, List.of(e.mk.apply(s)))); y.put(s, d); }, q -> Expect.bool(q.zero(e.p.sub(y.p).sub(Poly.of(1)))), e, y);
            }
            for (int op : new int[]{CONTAINS_ANY, CONTAINS_ALL}) sizes(c, op);
        }
        private static Arg kind(int k, boolean lit, String n) {
            switch (k) {
                case 0: return lit ? Arg.intL(n) : Arg.intD(n);
                case 1: return lit ? Arg.longL(n) : Arg.longD(n);
                case 2: return lit ? Arg.decL(n) : Arg.decD(n);
                case 3: return lit ? Arg.strL(n) : Arg.strD(n);
                case 4: return lit ? Arg.boolL(true) : Arg.boolD(n);
                case 5: return lit ? Arg.verL(n) : Arg.verD(n);
                case 6: return lit ? Arg.dateL(n) : Arg.dateD(n);
                default: return lit ? Arg.dtL(n) : Arg.dtD(n);
            }
        }
        private Arg elem(String kind, String n, boolean lit) {
            switch (kind) {
                case "int": return lit ? Arg.intL(n) : Arg.intD(n);
                case "long": return lit ? Arg.longL(n) : Arg.longD(n);
                case "text": return lit ? Arg.strL(n) : Arg.strD(n);
                default: return lit ? Arg.boolL(true) : Arg.boolD(n);
            }
        }
        private void go(Ctx c, String kind, String shape, int n, int k, boolean lit, int op) {
            List<Arg> el = new ArrayList<>(), ar = new ArrayList<>();
            for (int i = 0; i < n; i++) el.add(elem(kind, "e" + i, false));
            for (int i = 0; i < k; i++) ar.add(elem(kind, "a" + i, lit));
            List<E> es = new ArrayList<>(); for (Arg a : ar) es.add(a.e());
            c.bool("contains any/all over element equality", new ArrE("f", op, es), (s, d) -> {
                List<V> vs = new ArrayList<>(); for (Arg a : el) vs.add(a.mk.apply(s));
                d.put("f", coll(c.m, s, shape, vs));
                for (Arg a : ar) a.put(s, d);
            }, q -> {
                boolean any = false, all = true;
                for (Arg a : ar) {
                    boolean hit = false;
                    for (Arg e : el) if (kind.equals("text") ? q.zero(Lib.equality(e.text, a.text)) : q.zero(e.p.sub(a.p))) { hit = true; break; }
                    any |= hit; all &= hit;
                }
                return Expect.bool(op == CONTAINS_ANY ? any : all);
            }, kind + " " + shape + " of " + n + (lit ? ", literals" : ", fields"));
        }
        /** long collections and argument lists: the hit, or the only miss, first, in the middle and last */
        private void sizes(Ctx c, int op) {
            for (int n : c.thorough ? new int[]{5, 9, 12, 34} : new int[]{7, 12}) for (int k : c.thorough ? new int[]{1, 5, 12, 34} : new int[]{1, 12}) for (String shape : List.of("list", "array", "set")) for (boolean text : new boolean[]{false, true}) {
                if (text && shape.equals("array") && !c.thorough) continue;
                for (int at : new int[]{0, k / 2, k - 1}) for (int el : new int[]{0, n / 2, n - 1}) for (boolean sym : new boolean[]{true, false}) {
                    // CONTAINS_ANY: argument `at` alone may equal an element; CONTAINS_ALL: it alone may be absent
                    List<Arg> es = new ArrayList<>(), as = new ArrayList<>();
                    for (int i = 0; i < n; i++) es.add(val(text, i));
                    for (int i = 0; i < k; i++) as.add(val(text, op == CONTAINS_ALL ? i % n : 1000 + i));
                    if (sym) {
                        // one symbolic argument against the many elements; many arguments, one of them symbolic, against two elements
                        if (el != 0 || at != 0 && k == 1) continue;
                        Arg y = text ? Arg.strL("y") : Arg.intL("y");
                        if (k == 1) { if (n > (text ? 7 : 12)) continue; if (!text && !shape.equals("set")) es.set(n / 2, Arg.intD("z")); as.set(0, y); }
                        else { as = new ArrayList<>(op == CONTAINS_ALL ? Collections.nCopies(k, val(text, 0)) : as); as.set(at, y); es = List.of(val(text, 0), val(text, 2000)); }
                    } else if (op == CONTAINS_ANY) as.set(at, val(text, el)); else if (el == 0) as.set(at, val(text, 5000)); else if (el == n - 1) as.set(at, val(text, el)); else continue;
                    many(c, op, shape, es, as, text);
                }
            }
        }
        private static Arg val(boolean text, int i) { return text ? Arg.wordL("w" + i) : Arg.num(3L * i + 2); }
        private void many(Ctx c, int op, String shape, List<Arg> el, List<Arg> ar, boolean text) {
            List<E> es = new ArrayList<>(); for (Arg a : ar) es.add(a.e());
            c.bool("contains any/all over element equality", new ArrE("f", op, es), (s, d) -> {
                List<V> vs = new ArrayList<>(); for (Arg a : el) vs.add(a.data() ? a.mk.apply(s) : text ? V.Im.str(a.text) : V.Im.num(Lib.INTEGER, a.p));
                d.put("f", coll(c.m, s, shape, vs));
            }, q -> {
                boolean any = false, all = true;
                for (Arg a : ar) {
                    boolean hit = false;
                    for (Arg e : el) if (text ? q.zero(Lib.equality(e.text, a.text)) : q.zero(e.p.sub(a.p))) { hit = true; break; }
                    any |= hit; all &= hit;
                }
                return Expect.bool(op == CONTAINS_ANY ? any : all);
            }, shape + " " + el);
        }
        private void constants(Ctx c, int op) {
            int[][] els = {{1, 2, 3}, {5}, {}, {2, 2}, {3, 1}}, args = {{1}, {2, 3}, {4}, {1, 4}, {3, 2, 1}};
            for (String shape : List.of("list", "array", "set", "linkedset")) for (int[] e : els) for (int[] a : args) {
                if (shape.endsWith("set") && Arrays.stream(e).distinct().count() < e.length) continue;
                List<E> es = new ArrayList<>(); for (int x : a) es.add(Arg.num(x).e());
                boolean any = false, all = true;
                for (int x : a) { boolean h = false; for (int y : e) h |= x == y; any |= h; all &= h; }
                boolean want = op == CONTAINS_ANY ? any : all;
                c.bool("contains any/all over element equality", new ArrE("f", op, es), (s, d) -> { List<V> vs = new ArrayList<>(); for (int y : e) vs.add(V.Im.num(Lib.INTEGER, Poly.of(y))); d.put("f", coll(c.m, s, shape, vs)); }, q -> Expect.bool(want), shape + " " + Arrays.toString(e));
            }
        }
    }

    static V coll(Model m, State s, String shape, List<V> vs) {
        switch (shape) {
            case "array": return s.array("[Ljava/lang/Object;", vs.toArray(new V[0]));
            case "set": return m.set(s, "java/util/HashSet", vs);
            case "linkedset": return m.set(s, "java/util/LinkedHashSet", vs);
            default: return m.arrayList(s, vs);
        }
    }
}
