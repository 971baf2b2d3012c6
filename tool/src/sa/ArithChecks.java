package sa;

import java.util.*;
import java.util.function.*;
import static sa.Dsl.*;

/** Arithmetic operators and functions. */
final class ArithChecks {
    static List<Arg> whole(String n) { return List.of(Arg.intD(n), Arg.longD(n), Arg.intL(n), Arg.longL(n)); }
    static List<Arg> nums(String n) { return CmpChecks.cat(CmpChecks.numData(n), CmpChecks.numLits(n)); }
    static boolean dec(Arg... l) { for (Arg a : l) if (a.kind.equals("DECIMAL")) return true; return false; }
    static Poly apply(int op, Poly a, Poly b) { return op == ADD ? a.add(b) : op == SUBTRACT ? a.sub(b) : a.mul(b); }
    static Expect quotient(Q q, Poly a, Poly b) { return q.zero(b) ? Expect.FAIL : Expect.canon(q, Lib.rdiv(q.f, a, b, 3, "DOWN")); }
    static Expect cond(Q q, int op, Poly p) { return Expect.bool(Spec.holds(op, q.sign(p))); }

    static final class Whole extends Check {
        String explanation() { return "Abstract interpretation of + - * % and unary minus over every pairing of int and long data values and literals: each outcome partition must be the exact integer, in the narrowest of Integer, Long and BigDecimal that holds it; nested expressions and comparisons over arithmetic must use the exact intermediate values."; }
        void run(Ctx c) {
            for (Arg l : whole("x")) for (Arg r : whole("y")) {
                for (int op : new int[]{ADD, SUBTRACT, MULTIPLY}) c.arith("integer arithmetic is exact", new Ar(l.e(), op, r.e()), Ctx.data(l, r), q -> Expect.whole(q, apply(op, l.p, r.p)), l, r);
                c.arith("integer remainder is exact", new Ar(l.e(), MODULUS, r.e()), Ctx.data(l, r), q -> q.zero(r.p) ? Expect.FAIL : Expect.num(Lib.remTerm(q.f, l.p, r.p)), l, r);
                for (int op : Spec.CMP) for (int ar : c.thorough ? new int[]{ADD, SUBTRACT, MULTIPLY} : new int[]{ADD, SUBTRACT}) {
                    Arg z = Arg.longD("z");
                    if (!l.data() || !r.data()) continue;
                    c.bool("comparisons use exact arithmetic", new Cmp(new Ar(l.e(), ar, r.e()), op, z.e()), Ctx.data(l, r, z), q -> cond(q, op, apply(ar, l.p, r.p).sub(z.p)), l, r);
                    c.bool("comparisons use exact arithmetic", new Cmp(z.e(), op, new Par(new Ar(l.e(), ar, r.e()))), Ctx.data(l, r, z), q -> cond(q, op, z.p.sub(apply(ar, l.p, r.p))), l, r);
                }
            }
            for (Arg x : whole("x")) {
                c.arith("negation is exact", new Neg(x.e()), Ctx.data(x), q -> Expect.whole(q, x.p.neg()), x);
                c.arith("negation is exact", new Neg(new Par(new Neg(x.e()))), Ctx.data(x), q -> Expect.num(x.p), x);
                c.arith("a number is its own value", x.e(), Ctx.data(x), q -> Expect.num(x.p), x);
                c.arith("a number is its own value", new Par(x.e()), Ctx.data(x), q -> Expect.num(x.p), x);
                for (int op : new int[]{ADD, SUBTRACT, MULTIPLY}) {
                    if (x.data()) c.arith("integer arithmetic is exact", new Ar(x.e(), op, x.e()), Ctx.data(x), q -> Expect.whole(q, apply(op, x.p, x.p)), x);
                    for (long k : new long[]{0, 1, 2, 7, 2147483647L, 2147483648L, 4294967296L}) { Arg n = Arg.num(k); c.arith("integer arithmetic is exact", new Ar(x.e(), op, n.e()), Ctx.data(x), q -> Expect.whole(q, apply(op, x.p, n.p)), x); c.arith("integer arithmetic is exact", new Ar(n.e(), op, x.e()), Ctx.data(x), q -> Expect.whole(q, apply(op, n.p, x.p)), x); }
                }
                for (long k : new long[]{0, 1, 2, 10}) { Arg n = Arg.num(k); c.arith("integer remainder is exact", new Ar(x.e(), MODULUS, n.e()), Ctx.data(x), q -> k == 0 ? Expect.FAIL : Expect.num(Lib.remTerm(q.f, x.p, n.p)), x); }
            }
            // nesting: shapes of two and three operators
            List<Arg> A = List.of(Arg.intD("a"), Arg.longD("a")), B = List.of(Arg.intD("b"), Arg.longD("b")), D = List.of(Arg.intD("d"), Arg.intL("d"));
            for (Arg a : A) for (Arg b : B) for (Arg d : D) for (int o : new int[]{ADD, SUBTRACT, MULTIPLY}) for (int p : new int[]{ADD, SUBTRACT, MULTIPLY}) {
                c.arith("nested arithmetic is exact", new Ar(new Par(new Ar(a.e(), o, b.e())), p, d.e()), Ctx.data(a, b, d), q -> Expect.num(apply(p, apply(o, a.p, b.p), d.p)), a, b, d);
                c.arith("nested arithmetic is exact", new Ar(a.e(), o, new Par(new Ar(b.e(), p, d.e()))), Ctx.data(a, b, d), q -> Expect.num(apply(o, a.p, apply(p, b.p, d.p))), a, b, d);
                if (c.thorough || a.label.equals("Integer")) { c.arith("nested arithmetic is exact", new Neg(new Par(new Ar(a.e(), o, new Par(new Neg(b.e()))))), Ctx.data(a, b), q -> Expect.num(apply(o, a.p, b.p.neg()).neg()), a, b, p); }
            }
            // long chains
            for (int n : c.thorough ? new int[]{5, 6, 8, 9, 12, 17, 34, 70} : new int[]{5, 6, 9, 12, 17}) {
                for (int op : new int[]{ADD, SUBTRACT, MULTIPLY}) for (int at : new int[]{-1, 0, n / 2, n - 1}) {
                    E l = null, r = null; Poly lp = null, rp = null; Arg y = at == n / 2 ? Arg.longD("y") : Arg.intD("y");
                    for (int i = 0; i < n; i++) { Arg k = i == at ? y : Arg.num(op == MULTIPLY ? i % 3 + 1 : 1000003L * i + 2147483000L * (i % 2)); l = l == null ? k.e() : new Ar(l, op, k.e()); lp = lp == null ? k.p : apply(op, lp, k.p); }
                    for (int i = n - 1; i >= 0; i--) { Arg k = i == at ? y : Arg.num(op == MULTIPLY ? i % 3 + 1 : 1000003L * i + 7); r = r == null ? k.e() : new Ar(k.e(), op, new Par(r)); rp = rp == null ? k.p : apply(op, k.p, rp); }
                    Poly L = lp, R = rp;
                    c.arith("integer arithmetic is exact", l, Ctx.data(y), q -> Expect.num(L)); c.arith("integer arithmetic is exact", r, Ctx.data(y), q -> Expect.num(R));
                }
                E e = null; Poly p = Poly.ZERO; List<Arg> as = new ArrayList<>();
                for (int i = 0; i < n; i++) { Arg k = i == 2 ? Arg.longD("s" + i) : Arg.intD("s" + i); as.add(k); e = e == null ? k.e() : new Ar(e, i % 2 == 0 ? SUBTRACT : ADD, k.e()); p = e == k.e() || i == 0 ? k.p : i % 2 == 0 ? p.sub(k.p) : p.add(k.p); }
                Poly P = p; if (n <= 9) c.arith("integer arithmetic is exact", e, Ctx.data(as.toArray(new Arg[0])), q -> Expect.num(P));
                E g = as.get(0).e(); for (int i = 0; i < n; i++) g = new Neg(new Par(g));
                Poly G = n % 2 == 0 ? as.get(0).p : as.get(0).p.neg(); c.arith("negation is exact", g, Ctx.data(as.get(0)), q -> Expect.num(G));
            }
            Arg x = Arg.intD("x"), y = Arg.intD("y");
            for (int op : Spec.CMP) c.bool("comparisons use exact arithmetic", new Cmp(new Ar(x.e(), ADD, Arg.num(1).e()), op, new Ar(y.e(), MULTIPLY, Arg.num(2).e())), Ctx.data(x, y), q -> cond(q, op, x.p.add(Poly.of(1)).sub(y.p.scale(Rat.of(2)))), x, y);
        }
    }

    /** a power computed from the left operand as base and the right one as exponent (its numeric value is left open) */
    static Expect powerOf(Arg l, Arg r) {
        return new Expect() {
            String check(Model m, Q q, Model.Res x) {
                if (!x.kind.equals("value") || !(x.v instanceof V.Im n) || !Expect.NUMS.contains(n.cls) || n.num == null) return "" + x;
                String k = n.num.key(); int i = k.indexOf("pow(");
                if (i < 0 || n.num.isConst()) return "" + x;
                int depth = 0, comma = -1, end = k.length();
                for (int j = i + 4; j < k.length(); j++) { char ch = k.charAt(j); if (ch == '(') depth++; else if (ch == ')') { if (depth-- == 0) { end = j; break; } } else if (ch == ',' && depth == 0) comma = j; }
                if (comma < 0) return "" + x;
                String a = k.substring(i + 4, comma), b = k.substring(comma + 1, end);
                return a.contains(l.p.key()) && !a.contains(r.p.key()) && b.contains(r.p.key()) && !b.contains(l.p.key()) ? null : "" + x;
            }
            String show() { return "the power " + l.p + " ^ " + r.p; }
        };
    }

    static final class Decimal extends Check {
        String explanation() { return "Abstract interpretation of + - * over operand pairs with a decimal (BigDecimal, Double, Float data values, decimal literals) and of / over every numeric pair: results must be the exact decimal; quotients must be the exact quotient truncated to three decimal places, narrowed to a whole number when it is one; division by zero must fail."; }
        void run(Ctx c) {
            for (Arg l : nums("x")) for (Arg r : nums("y")) {
                if (dec(l, r)) for (int op : new int[]{ADD, SUBTRACT, MULTIPLY}) c.arith("decimal arithmetic is exact", new Ar(l.e(), op, r.e()), Ctx.data(l, r), q -> Expect.num(apply(op, l.p, r.p)), l, r);
                c.arith("quotients are truncated to three places", new Ar(l.e(), DIVIDE, r.e()), Ctx.data(l, r), q -> quotient(q, l.p, r.p), l, r);
            }
            for (Arg x : nums("x")) {
                if (dec(x)) c.arith("negation is exact", new Neg(x.e()), Ctx.data(x), q -> Expect.num(x.p.neg()), x);
                if (dec(x)) c.arith("a number is its own value", x.e(), Ctx.data(x), q -> Expect.num(x.p), x);
                for (long k : new long[]{0, 1, 2, 3, 4, 7, 10, 1000, 3000000000L}) { Arg n = Arg.num(k); c.arith("quotients are truncated to three places", new Ar(x.e(), DIVIDE, n.e()), Ctx.data(x), q -> quotient(q, x.p, n.p), x); c.arith("quotients are truncated to three places", new Ar(n.e(), DIVIDE, x.e()), Ctx.data(x), q -> quotient(q, n.p, x.p), x); }
                if (x.data()) c.arith("quotients are truncated to three places", new Ar(x.e(), DIVIDE, x.e()), Ctx.data(x), q -> q.zero(x.p) ? Expect.FAIL : Expect.RETURNS, x);
            }
            for (long a : new long[]{0, 1, 7, 10, 22, 100, 12345, 4000000000L}) for (long b : new long[]{1, 2, 3, 7, 8, 9, 16, 1000, 100000}) {
                c.arith("quotients are truncated to three places", new Ar(Arg.num(a).e(), DIVIDE, Arg.num(b).e()), (s, d) -> { }, q -> quotient(q, Poly.of(a), Poly.of(b)));
                c.arith("quotients are truncated to three places", new Ar(new Neg(Arg.num(a).e()), DIVIDE, Arg.num(b).e()), (s, d) -> { }, q -> quotient(q, Poly.of(-a), Poly.of(b)));
            }
            String pw = "a power raises the left operand to the right one";
            for (long a : new long[]{0, 1, 2, 3, 7, 10, -1, -2, -3, -10}) for (long b : new long[]{0, 1, 2, 3, 5, 9, 10, 15, 18, -1, -2, -3}) {
                Rat e = Natives.power(Poly.of(a), Poly.of(b));
                if (e == null) continue;
                E l = a < 0 ? new Neg(Arg.num(-a).e()) : Arg.num(a).e(), r = b < 0 ? new Neg(Arg.num(-b).e()) : Arg.num(b).e();
                c.arith(pw, new Ar(l, EXPONENT, r), (s, d) -> { }, q -> Expect.num(Poly.of(e)));
                c.arith(pw, new Ar(fld("x"), EXPONENT, fld("y")), (s, d) -> { d.put("x", V.Im.num(Lib.LONG, Poly.of(a))); d.put("y", V.Im.dec(Poly.of(b), "of:" + b)); }, q -> Expect.num(Poly.of(e)), a + "^" + b);
            }
            for (Arg l : nums("x")) for (Arg r : nums("y")) c.arith(pw, new Ar(l.e(), EXPONENT, r.e()), Ctx.data(l, r), q -> powerOf(l, r), l, r);
            // through nesting and comparisons
            List<Arg> X = List.of(Arg.intD("x"), Arg.longD("x"), Arg.decD("x"), Arg.dblD("x")), Y = List.of(Arg.intD("y"), Arg.decD("y"), Arg.decL("y"));
            for (Arg x : X) for (Arg y : Y) {
                for (int op : Spec.CMP) {
                    c.bool("comparisons use exact arithmetic", new Cmp(new Ar(x.e(), DIVIDE, Arg.num(4).e()), op, y.e()), Ctx.data(x, y), q -> cond(q, op, Lib.rdiv(q.f, x.p, Poly.of(4), 3, "DOWN").sub(y.p)), x, y);
                    if (dec(x, y)) for (int ar : new int[]{ADD, SUBTRACT}) { Arg z = Arg.intD("z"); c.bool("comparisons use exact arithmetic", new Cmp(new Ar(x.e(), ar, y.e()), op, z.e()), Ctx.data(x, y, z), q -> cond(q, op, apply(ar, x.p, y.p).sub(z.p)), x, y); }
                }
                for (int ar : new int[]{ADD, SUBTRACT, MULTIPLY}) {
                    c.arith("nested arithmetic is exact", new Ar(new Par(new Ar(x.e(), DIVIDE, Arg.num(8).e())), ar, y.e()), Ctx.data(x, y), q -> Expect.num(apply(ar, Lib.rdiv(q.f, x.p, Poly.of(8), 3, "DOWN"), y.p)), x, y);
                    if (dec(x, y)) c.arith("nested arithmetic is exact", new Ar(new Par(new Ar(x.e(), ar, y.e())), MULTIPLY, Arg.decL("k").e()), Ctx.data(x, y), q -> Expect.num(apply(ar, x.p, y.p).mul(Arg.decL("k").p)), x, y);
                }
            }
        }
    }

    static final class Concat extends Check {
        String explanation() { return "Abstract interpretation of + with a text, truth value or version on either side and any supported kind on the other: the result must be the text of the left operand followed by the text of the right operand."; }
        void run(Ctx c) {
            List<Arg> T = List.of(Arg.strD("x"), Arg.intTextD("x"), Arg.strL("x"), Arg.dqL("x"), Arg.verD("x"), Arg.verL("x"), Arg.boolD("x"), Arg.boolL(true), Arg.boolL(false));
            List<Arg> O = new ArrayList<>(nums("y")); O.addAll(List.of(Arg.strD("y"), Arg.intTextD("y"), Arg.decTextD("y"), Arg.strL("y"), Arg.verD("y"), Arg.verL("y"), Arg.boolD("y"), Arg.boolL(true), Arg.boolL(false)));
            for (Arg t : T) for (Arg o : O) {
                c.arith("+ joins the texts of its operands", new Ar(t.e(), ADD, o.e()), Ctx.data(t, o), q -> joined(q, t, o), t, o);
                c.arith("+ joins the texts of its operands", new Ar(o.e(), ADD, t.e()), Ctx.data(t, o), q -> joined(q, o, t), o, t);
            }
            for (String l : List.of("a", "x y", "", " ", "12", "null")) for (String r : List.of("b", "", "3", " z")) {
                c.arith("+ joins the texts of its operands", new Ar(word(Str.of(l)), ADD, word(Str.of(r))), (s, d) -> { }, q -> Expect.text(Str.of(l + r)));
                c.arith("+ joins the texts of its operands", new Ar(fld("p"), ADD, fld("q")), (s, d) -> { d.put("p", V.Im.str(Str.of(l))); d.put("q", V.Im.str(Str.of(r))); }, q -> Expect.text(Str.of(l + r)), "'" + l + "'", "'" + r + "'");
                c.arith("+ joins the texts of its operands", new Ar(word(Str.of(l)), ADD, Arg.num(5).e()), (s, d) -> { }, q -> Expect.text(Str.of(l + "5")));
            }
            Arg a = Arg.strD("a"), b = Arg.strL("b"), k = Arg.strD("k"), i = Arg.intD("i"), j = Arg.intD("j");
            c.arith("+ joins the texts of its operands", new Ar(new Ar(a.e(), ADD, b.e()), ADD, k.e()), Ctx.data(a, k), q -> sum(q, a.text.cat(b.text), a.text.cat(b.text).cat(k.text)));
            c.arith("+ joins the texts of its operands", new Ar(a.e(), ADD, new Par(new Ar(b.e(), ADD, k.e()))), Ctx.data(a, k), q -> sum(q, b.text.cat(k.text), a.text.cat(b.text).cat(k.text)));
            c.arith("+ joins the texts of its operands", new Ar(new Ar(i.e(), ADD, j.e()), ADD, a.e()), Ctx.data(a, i, j), q -> Expect.text(Str.text(i.p.add(j.p), true, null).cat(a.text)));
            c.arith("+ joins the texts of its operands", new Ar(new Ar(a.e(), ADD, i.e()), ADD, j.e()), Ctx.data(a, i, j), q -> sum(q, a.text.cat(i.text), a.text.cat(i.text).cat(j.text)));
            for (int op : new int[]{EQ, NE}) c.bool("joined texts compare as texts", new Cmp(new Ar(a.e(), ADD, b.e()), op, k.e()), Ctx.data(a, k), q -> Expect.bool((op == EQ) == q.zero(Lib.equality(a.text.cat(b.text), k.text))));
        }
        /** an intermediate text that reads as a date counts as one, and dates do not add */
        private Expect sum(Q q, Str mid, Str all) { return q.pred(mid.key() + " is a datetime") || q.pred(mid.key() + " is a date") ? Expect.FAIL : Expect.text(all); }
        private Expect joined(Q q, Arg l, Arg r) { return Expect.text(text(q, l).cat(text(q, r))); }
        private Str text(Q q, Arg a) { return a.lit != null && a.kind.equals("DECIMAL") ? Str.text(a.p, false, "dec:dlit:" + a.p.key()) : Spec.text(q, a); }
    }

    // ------------------------------------------------------------------------------------------------- functions

    /** one representation, different variables */
    static boolean distinct(List<Arg> as) {
        Set<Poly> seen = new HashSet<>();
        for (Arg a : as) if (!a.label.equals(as.get(0).label) || !seen.add(a.p)) return false;
        return true;
    }
    /** runs a function over numbers given as arguments, as one collection, and as a mixture */
    static void over(Ctx c, String rule, int fn, List<Arg> as, Function<Q, Expect> spec) {
        List<E> es = new ArrayList<>(); for (Arg a : as) es.add(a.e());
        c.arith(rule, new Fun(fn, es), Ctx.data(as.toArray(new Arg[0])), spec, as.toArray());
        boolean data = true; for (Arg a : as) data &= a.data();
        if (!data) return;
        for (String shape : as.size() < 3 || c.thorough ? List.of("list", "set") : List.of("list")) {
            if (shape.equals("set") && (as.size() < 2 || dec(as.toArray(new Arg[0])) || !distinct(as))) continue;
            c.arith(rule, new Fun(fn, List.of(fld("f"))), (s, d) -> { List<V> vs = new ArrayList<>(); for (Arg a : as) vs.add(a.mk.apply(s)); d.put("f", LogicChecks.coll(c.m, s, shape, vs)); }, spec, shape, as);
        }
        if (as.size() > 1) {
            List<E> mix = new ArrayList<>(List.of(fld("f"), as.get(as.size() - 1).e()));
            c.arith(rule, new Fun(fn, mix), (s, d) -> { List<V> vs = new ArrayList<>(); for (Arg a : as.subList(0, as.size() - 1)) vs.add(a.mk.apply(s)); d.put("f", LogicChecks.coll(c.m, s, "list", vs)); as.get(as.size() - 1).put(s, d); }, spec, "mixed", as);
        }
    }
    static List<List<Arg>> tuples(boolean thorough) {
        List<List<Arg>> r = new ArrayList<>();
        for (Arg a : nums("a")) r.add(List.of(a));
        for (Arg a : nums("a")) for (Arg b : nums("b")) r.add(List.of(a, b));
        List<String> d = List.of("Integer", "Long", "BigDecimal", "Double");
        for (Arg a : CmpChecks.numData("a")) for (Arg b : CmpChecks.numData("b")) for (Arg k : CmpChecks.numData("k")) {
            if (!d.contains(a.label) || !d.contains(b.label) || !d.contains(k.label)) continue;
            if (thorough || set(a.label, b.label, k.label).size() < 3 && !(a.label + b.label + k.label).contains("Double")) r.add(List.of(a, b, k));
        }
        r.add(List.of(Arg.intL("a"), Arg.decL("b"), Arg.longL("k")));
        r.add(List.of(Arg.intL("a"), Arg.intL("b"), Arg.intL("k")));
        return r;
    }
    static Set<String> set(String... s) { return new HashSet<>(Arrays.asList(s)); }

    static final class MinMaxSum extends Check {
        String explanation() { return "Abstract interpretation of MIN, MAX and SUM over one to four symbolic numbers of every representation and over long lists of constants with a symbolic one first, in the middle or last, given as arguments, as a collection and mixed: the result must be the exact smallest, largest or total value (whole values in the narrowest class)."; }
        List<String> assumptions() { return List.of("Beyond four values, lists of 5 to 34 (thorough 70) values are analysed with at most one symbolic value (SUM: up to 34 symbolic whole numbers); other long lists behave alike: the functions fold over the values uniformly."); }
        void run(Ctx c) {
            for (List<Arg> as : tuples(c.thorough)) go(c, as);
            Arg a = Arg.intD("a"), b = Arg.longD("b"), k = Arg.intD("k"), d = Arg.intL("d"), e = Arg.decD("e");
            go(c, List.of(a, b, k, d)); if (c.thorough) go(c, List.of(e, b, k, d)); go(c, List.of(a, a)); go(c, List.of(a, Arg.num(0))); go(c, List.of(Arg.num(5), a, Arg.num(2147483647L))); go(c, List.of(Arg.num(3000000000L), Arg.num(1)));
            for (int fn : new int[]{MIN, MAX, SUM}) {
                c.arith("extremes and totals are exact", new Fun(fn, List.of(new Ar(a.e(), ADD, b.e()), k.e())), Ctx.data(a, b, k), q -> result(q, fn, List.of(a.p.add(b.p), k.p)));
                c.arith("extremes and totals are exact", new Fun(fn, List.of(new Fun(fn, List.of(a.e(), b.e())), k.e())), Ctx.data(a, b, k), q -> result(q, fn, List.of(a.p, b.p, k.p)));
                for (int op : Spec.CMP) c.bool("comparisons use exact results", new Cmp(new Fun(fn, List.of(a.e(), b.e())), op, k.e()), Ctx.data(a, b, k), q -> { Poly p = value(q, fn, List.of(a.p, b.p)); return cond(q, op, p.sub(k.p)); });
            }
            sizes(c);
        }
        /** many values: constants with symbolic ones at the ends and in the middle; totals of many symbolic values */
        private void sizes(Ctx c) {
            for (int n : c.thorough ? new int[]{5, 6, 8, 9, 12, 17, 34, 70} : new int[]{5, 6, 9, 12, 17, 34}) {
                List<Arg> up = new ArrayList<>(), down = new ArrayList<>(), big = new ArrayList<>(), si = new ArrayList<>(), sl = new ArrayList<>(), neg = new ArrayList<>();
                for (int i = 0; i < n; i++) {
                    up.add(Arg.num(3L * i + 2)); down.add(Arg.num(3L * (n - i) + 2)); big.add(Arg.num(Integer.MAX_VALUE - i)); si.add(Arg.intD("s" + i)); sl.add(i == n / 2 ? Arg.longD("s" + i) : Arg.intD("s" + i));
                    neg.add(Arg.numD("n" + i, -3000000000L * (i % 3) - i));
                }
                go(c, up); go(c, down); go(c, big); go(c, neg);
                for (List<Arg> ss : List.of(si, sl)) over(c, "extremes and totals are exact", SUM, ss, q -> { Poly t = Poly.ZERO; for (Arg a : ss) t = t.add(a.p); return Expect.canon(q, t); });
                for (int at : new int[]{0, n / 2, n - 1}) for (Arg y : List.of(Arg.intD("y"), Arg.longD("y"), Arg.decD("y"), Arg.dblD("y"))) { List<Arg> l = new ArrayList<>(at == n / 2 ? down : up); l.set(at, y); go(c, l); }
            }
        }
        static Poly value(Q q, int fn, List<Poly> ps) {
            Poly r = ps.get(0);
            for (Poly p : ps.subList(1, ps.size())) r = fn == SUM ? r.add(p) : (q.sign(p.sub(r)) < 0) == (fn == MIN) ? p : r;
            return r;
        }
        static Expect result(Q q, int fn, List<Poly> ps) { return Expect.canon(q, value(q, fn, ps)); }
        private void go(Ctx c, List<Arg> as) {
            List<Poly> ps = new ArrayList<>(); for (Arg a : as) ps.add(a.p);
            for (int fn : new int[]{MIN, MAX, SUM}) over(c, "extremes and totals are exact", fn, as, q -> result(q, fn, ps));
        }
    }

    static final class Averages extends Check {
        String explanation() { return "Abstract interpretation of AVG, MEAN and MEDIAN over one to four symbolic numbers of every representation and over long lists of constants with a symbolic one first, in the middle or last: the average is the exact total over the count, truncated to two decimals for integers and three when a decimal is present; the median is the middle value in numeric order, for an even count the truncated half sum of the two middle values."; }
        List<String> assumptions() { return List.of("Beyond four values, lists of 5 to 34 (thorough 70) values are analysed with at most one symbolic value; other long lists behave alike: the functions fold over or sort the values uniformly."); }
        void run(Ctx c) {
            for (List<Arg> as : tuples(c.thorough)) go(c, as);
            for (int n : c.thorough ? new int[]{5, 6, 7, 8, 9, 12, 17, 34, 70} : new int[]{5, 6, 7, 8, 9, 12, 17, 34}) {
                List<Arg> up = new ArrayList<>(), mix = new ArrayList<>(), big = new ArrayList<>();
                for (int i = 0; i < n; i++) { up.add(Arg.num(3L * i + 2)); mix.add(Arg.num(7919L * (i + 1) % 101)); big.add(Arg.numD("n" + i, Long.MAX_VALUE - 7919L * (i + 1) % 101)); }
                go(c, up); go(c, mix); go(c, big);
                for (int at : new int[]{0, n / 2, n - 1}) for (Arg y : List.of(Arg.intD("y"), Arg.longD("y"), Arg.decD("y"))) { List<Arg> l = new ArrayList<>(at == n / 2 ? mix : up); l.set(at, y); go(c, l); }
            }
            Arg a = Arg.intD("a"), b = Arg.intD("b"), k = Arg.intD("k"), d = Arg.intD("d");
            go(c, List.of(a, b, k, d)); go(c, List.of(a, a, a)); go(c, List.of(Arg.num(1), a)); go(c, List.of(a, Arg.num(10), Arg.num(9)));
            for (long[] v : new long[][]{{1, 2}, {1, 2, 2}, {7, 7, 8}, {0, 0, 1}, {10, 9, 8, 7}, {3000000000L, 1}, {5, 1, 4, 2, 3}, {100, 20, 3, 10, 9, 1}}) { List<Arg> l = new ArrayList<>(); for (long x : v) l.add(Arg.num(x)); go(c, l); }
        }
        private void go(Ctx c, List<Arg> as) {
            List<Poly> ps = new ArrayList<>(); for (Arg a : as) ps.add(a.p);
            int n = as.size(); boolean dec = dec(as.toArray(new Arg[0]));
            for (int fn : new int[]{AVG, MEAN}) over(c, "averages are exact and truncated", fn, as, q -> { Poly t = Poly.ZERO; for (Poly p : ps) t = t.add(p); return Expect.canon(q, Lib.rdiv(q.f, t, Poly.of(n), dec ? 3 : 2, "DOWN")); });
            over(c, "the median is the middle value", MEDIAN, as, q -> {
                List<Poly> s = new ArrayList<>();
                for (Poly p : ps) { int i = 0; while (i < s.size() && q.sign(p.sub(s.get(i))) >= 0) i++; s.add(i, p); }
                return Expect.canon(q, n % 2 == 1 ? s.get(n / 2) : Lib.rdiv(q.f, s.get(n / 2).add(s.get(n / 2 - 1)), Poly.of(2), 2, "DOWN"));
            });
        }
    }

    static final class ModeLenInt extends Check {
        String explanation() { return "Abstract interpretation of MODE over up to four integers of one representation and over 6 to 34 integers of which one is symbolic, LEN over texts, collections and argument lists, and INT over every numeric kind: the most frequent value (the one reaching the highest count first), the text length or number of elements, the value truncated towards zero."; }
        List<String> assumptions() { return List.of("MODE is constrained for integers of one representation; it groups decimals by BigDecimal equality (scale included) by design."); }
        void run(Ctx c) {
            for (Function<String, Arg> mk : List.<Function<String, Arg>>of(Arg::intD, Arg::longD, Arg::intL, Arg::longL)) for (int n = 1; n <= (c.thorough ? 5 : 4); n++) {
                List<Arg> as = new ArrayList<>(); for (int i = 0; i < n; i++) as.add(mk.apply("v" + i));
                over(c, "mode is the most frequent value", MODE, as, q -> mode(q, as));
            }
            for (long[] v : new long[][]{{1, 2, 2}, {3, 3, 1, 1}, {1, 1, 3, 3, 3}, {9}, {4, 5, 6}, {2, 1, 1, 2, 2}}) { List<Arg> l = new ArrayList<>(); for (long x : v) l.add(Arg.num(x)); over(c, "mode is the most frequent value", MODE, l, q -> mode(q, l)); }
            for (int n : new int[]{6, 9, 12, 17, 34}) {
                List<Arg> l = new ArrayList<>(), l2 = new ArrayList<>();
                for (int i = 0; i < n; i++) { l.add(Arg.num(3L * i + 2)); l2.add(Arg.num(i < n / 2 ? 40 + i : i % 2)); }
                for (List<Arg> b : List.of(l, l2)) { over(c, "mode is the most frequent value", MODE, b, q -> mode(q, b)); for (int at : new int[]{0, n / 2, n - 1}) { List<Arg> k = new ArrayList<>(b); k.set(at, Arg.intD("y")); over(c, "mode is the most frequent value", MODE, k, q -> mode(q, k)); } }
                List<E> es = new ArrayList<>(); for (Arg a : l) es.add(a.e());
                c.arith("number of arguments", new Fun(LEN, es), Ctx.data(), q -> Expect.num(Poly.of(n)));
                for (String shape : List.of("list", "set")) c.arith("length of a collection", new Fun(LEN, List.of(fld("f"))), (s, d) -> { List<V> vs = new ArrayList<>(); for (Arg a : l) vs.add(V.Im.num(Lib.INTEGER, a.p)); d.put("f", LogicChecks.coll(c.m, s, shape, vs)); }, q -> Expect.num(Poly.of(n)), shape + " of " + n);
            }
            // LEN
            for (Arg t : List.of(Arg.strD("t"), Arg.strL("t"), Arg.dqL("t"))) c.arith("length of a text", new Fun(LEN, List.of(t.e())), Ctx.data(t), q -> Expect.num(Lib.len(t.text), Lib.INTEGER), t);
            for (String t : List.of("", "a", "hello world", "2020-01-01", "12", "null")) { c.arith("length of a text", new Fun(LEN, List.of(fld("t"))), (s, d) -> d.put("t", V.Im.str(Str.of(t))), q -> Expect.num(Poly.of(t.length())), "'" + t + "'"); if (!t.equals("2020-01-01")) c.arith("length of a text", new Fun(LEN, List.of(word(Str.of(t)))), (s, d) -> { }, q -> Expect.num(Poly.of(t.length()))); }
            for (int n = 0; n <= 3; n++) {
                int k = n;
                for (String shape : List.of("list", "set")) for (Function<String, Arg> mk : List.<Function<String, Arg>>of(Arg::intD, Arg::strD))
                    c.arith("length of a collection", new Fun(LEN, List.of(fld("f"))), (s, d) -> { List<V> vs = new ArrayList<>(); for (int i = 0; i < k; i++) vs.add(mk.apply("e" + i).mk.apply(s)); d.put("f", LogicChecks.coll(c.m, s, shape, vs)); }, q -> Expect.num(Poly.of(k)), shape + " of " + k + " " + mk.apply("e").label);
            }
            List<Arg> mix = List.of(Arg.intD("a"), Arg.strD("b"), Arg.decL("k"), Arg.boolD("d"));
            for (int n = 2; n <= 4; n++) { int k = n; List<E> es = new ArrayList<>(); for (Arg a : mix.subList(0, n)) es.add(a.e()); c.arith("number of arguments", new Fun(LEN, es), Ctx.data(mix.toArray(new Arg[0])), q -> Expect.num(Poly.of(k))); }
            for (int op : Spec.CMP) { Arg t = Arg.strD("t"); c.bool("comparisons use the length", new Cmp(new Fun(LEN, List.of(t.e())), op, Arg.num(5).e()), Ctx.data(t), q -> cond(q, op, Lib.len(t.text).sub(Poly.of(5)))); }
            // INT
            for (Arg x : nums("x")) { c.arith("truncation towards zero", new Fun(INT, List.of(x.e())), Ctx.data(x), q -> truncated(q, x.p), x); if (x.data()) c.arith("truncation towards zero", new Fun(INT, List.of(new Ar(x.e(), DIVIDE, Arg.num(2).e()))), Ctx.data(x), q -> truncated(q, Lib.rdiv(q.f, x.p, Poly.of(2), 3, "DOWN")), x); }
            for (String v : List.of("0.5", "1.999", "12.0", "7.25", "2147483648.5", "99999999999999999999.9", "-1.5", "-0.2", "-3.0")) { Rat r = Rat.of(new java.math.BigDecimal(v)); c.arith("truncation towards zero", new Fun(INT, List.of(fld("x"))), (s, d) -> d.put("x", V.Im.dec(Poly.of(r), "of:x")), q -> Expect.whole(q, Poly.of(Rat.of(r.n.divide(r.d)))), v); }
        }
        static Expect truncated(Q q, Poly p) {
            if (q.integral(p)) return Expect.whole(q, p);
            return Expect.whole(q, trunc(q, p));
        }
        /** the integer next to p towards zero, with its bounds known */
        static Poly trunc(Q q, Poly p) {
            Poly t = Lib.truncTerm(q.f, p);
            if (q.sign(p) > 0) { q.require(t, Facts.POS | Facts.ZERO); q.require(p.sub(t), Facts.POS); } else { q.require(t, Facts.NEG | Facts.ZERO); q.require(p.sub(t), Facts.NEG); }
            return t;
        }
        static Expect mode(Q q, List<Arg> as) {
            List<Poly> vals = new ArrayList<>(); List<Integer> counts = new ArrayList<>();
            int max = 0; Poly best = null;
            for (Arg a : as) {
                int i = 0; while (i < vals.size() && !q.zero(vals.get(i).sub(a.p))) i++;
                if (i == vals.size()) { vals.add(a.p); counts.add(0); }
                counts.set(i, counts.get(i) + 1);
                if (counts.get(i) > max) { max = counts.get(i); best = vals.get(i); }
            }
            return Expect.whole(q, best);
        }
    }

    static final class Days extends Check {
        String explanation() { return "Abstract interpretation of DAYS_ELAPSED over date data, date texts and date literals: the result must be today (one reading of the system clock in the system zone) minus the date, in days, as a Long."; }
        void run(Ctx c) {
            Poly today = Poly.var("today", Lib.DAYS, true);
            for (Arg d : List.of(Arg.dateD("d"), Arg.dateTextD("d"), Arg.dateL("d"))) {
                c.arith("days from the date to today", new Fun(DAYS_ELAPSED, List.of(d.e())), Ctx.data(d), q -> Expect.num(today.sub(d.p), Lib.LONG), d);
                for (int op : Spec.CMP) c.bool("comparisons use the exact day count", new Cmp(new Fun(DAYS_ELAPSED, List.of(d.e())), op, Arg.num(30).e()), Ctx.data(d), q -> cond(q, op, today.sub(d.p).sub(Poly.of(30))), d);
                Arg i = Arg.intD("i");
                for (int op : Spec.CMP) c.bool("comparisons use the exact day count", new Cmp(i.e(), op, new Fun(DAYS_ELAPSED, List.of(d.e()))), Ctx.data(d, i), q -> cond(q, op, i.p.sub(today.sub(d.p))), d);
                c.arith("days from the date to today", new Ar(new Fun(DAYS_ELAPSED, List.of(d.e())), ADD, i.e()), Ctx.data(d, i), q -> Expect.whole(q, today.sub(d.p).add(i.p)), d);
                Arg e = Arg.dateD("e");
                c.arith("exactly one date", new Fun(DAYS_ELAPSED, List.of(d.e(), e.e())), Ctx.data(d, e), q -> Expect.FAIL, d);
                c.bool("the same day for every reading", new Cmp(new Fun(DAYS_ELAPSED, List.of(d.e())), EQ, new Fun(DAYS_ELAPSED, List.of(d.e()))), Ctx.data(d), q -> Expect.bool(true), d);
            }
            for (String t : List.of("2020-02-29", "1970-01-01", "2024-12-31")) c.arith("days from the date to today", new Fun(DAYS_ELAPSED, List.of(fld("d"))), (s, x) -> x.put("d", V.Im.str(Str.of(t))), q -> Expect.num(today.sub(Poly.of(java.time.LocalDate.parse(t).toEpochDay())), Lib.LONG), t);
            // every evaluation reads the clock anew
            String rule = "every evaluation reads the clock anew";
            c.rules.add(rule);
            for (Arg d : List.of(Arg.dateD("d"), Arg.dateTextD("d"), Arg.dateL("d"))) for (boolean cached : new boolean[]{false, true}) {
                StateChecks.Sc sc = new StateChecks.Sc(" evaluated twice" + (cached ? " through a cache" : "") + ", d:" + d.label, new Fun(DAYS_ELAPSED, List.of(d.e())), true, Ctx.data(d), null, null);
                if (c.skip("" + sc)) continue;
                c.scenarios++;
                State s = c.m.start(); V x = c.m.expression(s, sc.e), t = sc.data(s);
                int k0 = StateChecks.mark(s);
                for (Model.Res r : sc.eval(c.m, s, cached, x, t)) {
                    if (!r.kind.equals("value")) continue;
                    int k = StateChecks.mark(r.s);
                    clock(c, sc, r, k0, rule);
                    for (Model.Res r2 : sc.eval(c.m, r.s.copy(), cached, x, t)) if (r2.kind.equals("value")) clock(c, sc, r2, k, rule);
                }
            }
        }
        private static void clock(Ctx c, StateChecks.Sc sc, Model.Res r, int from, String rule) {
            c.partitions++; c.obligations++;
            for (State.Event e : StateChecks.since(r.s, from)) if (e.kind().equals("CLOCK")) return;
            if (r.tainted()) { c.undecidedScenarios++; c.undecided.add(sc + ": " + r.taint()); return; }
            c.violation("" + sc, rule, "the result " + r + " does not come from a reading of the clock during this evaluation", Ctx.path(r.s));
        }
    }
}
