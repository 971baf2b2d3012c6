package sa;

import java.util.*;
import static sa.Dsl.*;

/** Presence tests, missing data, type gating. */
final class FailChecks {
    static List<Arg> kinds(String n) {
        return List.of(Arg.intD(n), Arg.longD(n), Arg.decD(n), Arg.dblD(n), Arg.fltD(n), Arg.strD(n), Arg.intTextD(n), Arg.verD(n), Arg.boolD(n), Arg.dateD(n), Arg.dateTextD(n), Arg.dtD(n), Arg.dtTextD(n));
    }
    static List<Arg> lits(String n) { return List.of(Arg.intL(n), Arg.longL(n), Arg.decL(n), Arg.strL(n), Arg.dqL(n), Arg.verL(n), Arg.boolL(true), Arg.boolL(false), Arg.dateL(n), Arg.dtL(n)); }

    /** an abstract value no literal denotes: a collection, an array, a map, a foreign object */
    static V odd(Model m, State s, String what) {
        switch (what) {
            case "list": return m.arrayList(s, List.of(V.Im.num(Lib.INTEGER, Arg.ip("el"))));
            case "empty list": return m.arrayList(s, List.of());
            case "array": return s.array("[Ljava/lang/Object;", V.Im.str(Str.atom("~el")));
            case "map": { Model.Data d = new Model.Data("inner"); d.put("k", V.Im.num(Lib.INTEGER, Arg.ip("el"))); return d.build(s); }
            default: return m.set(s, "java/util/HashSet", List.of(V.Im.num(Lib.LONG, Arg.lp("el"))));
        }
    }
    static final String[] ODD = {"list", "empty list", "array", "map", "set"};

    static final class NullCheck extends Check {
        String explanation() { return "Abstract interpretation of `operand = null` and `operand != null` (either side, every letter case of null) for operands of every kind, nested fields, absent keys, keys holding null and computed operands: the outcome must be presence alone and never depend on the value."; }
        void run(Ctx c) {
            for (String nul : c.thorough ? List.of("null", "NULL", "Null", "nULL", "nuLL") : List.of("null", "NULL", "Null")) for (boolean flip : new boolean[]{false, true}) for (int op : new int[]{EQ, NE}) {
                for (Arg a : kinds("x")) go(c, a.e(), Ctx.data(a), nul, flip, op, true, a);
                for (String o : ODD) go(c, fld("x"), (s, d) -> d.put("x", odd(c.m, s, o)), nul, flip, op, true, o);
                go(c, fld("x"), (s, d) -> { }, nul, flip, op, false, "absent");
                go(c, fld("x"), (s, d) -> d.put("x", V.NULL), nul, flip, op, false, "null value");
                for (boolean in : new boolean[]{true, false}) go(c, fld("x.y"), (s, d) -> { Model.Data n = new Model.Data("inner"); if (in) n.put("y", Arg.intD("v").mk.apply(s)); d.put("x", n.build(s)); }, nul, flip, op, in, "nested");
                go(c, fld("x.y"), (s, d) -> { Model.Data n = new Model.Data("inner"); n.put("y", V.NULL); d.put("x", n.build(s)); }, nul, flip, op, false, "nested null value");
                go(c, fld("x.y"), (s, d) -> { }, nul, flip, op, false, "nested, no outer");
                go(c, fld("x.y"), (s, d) -> d.put("x", Arg.intD("v").mk.apply(s)), nul, flip, op, false, "nested, outer is no map");
                go(c, new Par(fld("x")), Ctx.data(Arg.intD("x")), nul, flip, op, true, "parenthesised");
                for (Arg l : lits("y")) go(c, l.e(), (s, d) -> { }, nul, flip, op, true, l);
                Arg i = Arg.intD("i"), j = Arg.intD("j");
                go(c, new Ar(i.e(), ADD, j.e()), Ctx.data(i, j), nul, flip, op, true, i, j);
                go(c, new Fun(MAX, List.of(i.e(), j.e())), Ctx.data(i, j), nul, flip, op, true, i, j);
                if (!flip) go(c, new Neg(i.e()), Ctx.data(i), nul, flip, op, true, i);
                // a condition on presence combined with the value it guards
                c.bool("presence guard", new Bin(cmp(fld("x"), nul, flip, NE), AND, new Cmp(fld("x"), GT, Arg.num(5).e())), Ctx.data(i), q -> Expect.bool(false), "absent");
                Arg x = Arg.intD("x");
                c.bool("presence guard", new Bin(cmp(fld("x"), nul, flip, NE), AND, new Cmp(fld("x"), GT, Arg.num(5).e())), Ctx.data(x), q -> Expect.bool(q.sign(x.p.sub(Poly.of(5))) > 0), x);
                c.bool("presence guard", new Bin(cmp(fld("x"), nul, flip, EQ), OR, new Cmp(fld("x"), GT, Arg.num(5).e())), Ctx.data(i), q -> Expect.bool(true), "absent");
            }
            // the text 'null' is a text
            for (int op : new int[]{EQ, NE}) for (Arg a : List.of(Arg.strD("x"))) c.bool("a quoted null is a text", new Cmp(a.e(), op, word(Str.of("null"))), Ctx.data(a), q -> Expect.bool((op == EQ) == q.zero(Lib.equality(a.text, Str.of("null")))), a);
        }
        static Cmp cmp(E e, String nul, boolean flip, int op) { return flip ? new Cmp(fld(nul), op, e) : new Cmp(e, op, fld(nul)); }
        private void go(Ctx c, E e, Ctx.DataSpec d, String nul, boolean flip, int op, boolean present, Object... what) {
            c.bool("null check decides presence", cmp(e, nul, flip, op), d, q -> Expect.bool(present == (op == NE)), what);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------

    static final class Missing extends Check {
        String explanation() { return "Abstract interpretation of every operator and function with a field that the data does not provide (absent, null valued, nested below an absent or non-map value) in every operand position: each reachable outcome must be a failed Try, never a value."; }
        void run(Ctx c) {
            Map<String, Ctx.DataSpec> gone = new LinkedHashMap<>();
            gone.put("m", (s, d) -> { });
            gone.put("n", (s, d) -> d.put("n", V.NULL));
            gone.put("o.p", (s, d) -> { });
            gone.put("q.r", (s, d) -> { Model.Data in = new Model.Data("inner"); in.put("z", Arg.intD("v").mk.apply(s)); d.put("q", in.build(s)); });
            gone.put("t.u", (s, d) -> d.put("t", Arg.intD("v").mk.apply(s)));
            gone.put("a.b.c", (s, d) -> { Model.Data in = new Model.Data("inner"); in.put("b", V.Im.str(Str.atom("~v"))); d.put("a", in.build(s)); });
            List<Arg> others = new ArrayList<>(); others.addAll(kinds("x")); others.addAll(lits("y"));
            for (var g : gone.entrySet()) {
                E m = fld(g.getKey()); Ctx.DataSpec gd = g.getValue();
                List<Arg> os = g.getKey().equals("m") || c.thorough ? others : List.of(others.get(0), others.get(5), Arg.intL("y"));
                for (Arg o : os) {
                    Ctx.DataSpec d = (s, x) -> { gd.fill(s, x); o.put(s, x); };
                    for (int op : Spec.CMP) { bad(c, new Cmp(m, op, o.e()), d, o); bad(c, new Cmp(o.e(), op, m), d, o); }
                    for (int op : new int[]{ADD, SUBTRACT, MULTIPLY, DIVIDE, MODULUS, EXPONENT}) { badA(c, new Ar(m, op, o.e()), d, o); badA(c, new Ar(o.e(), op, m), d, o); bad(c, new Cmp(new Ar(m, op, o.e()), GT, Arg.num(1).e()), d, o); bad(c, new Cmp(Arg.num(1).e(), LT, new Ar(o.e(), op, m)), d, o); }
                    for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) { badA(c, new Fun(fn, List.of(m, o.e())), d, o); badA(c, new Fun(fn, List.of(o.e(), m)), d, o); }
                    bad(c, new In(g.getKey(), false, List.of(o.e())), d, o); bad(c, new In(g.getKey(), true, List.of(o.e())), d, o);
                    bad(c, new ArrE(g.getKey(), CONTAINS_ANY, List.of(o.e())), d, o); bad(c, new ArrE(g.getKey(), CONTAINS_ALL, List.of(o.e())), d, o);
                    if (o.data()) { bad(c, new In(o.name, false, List.of(m)), d, o); bad(c, new In(o.name, false, List.of(m, Arg.num(3).e())), d, o); bad(c, new In(o.name, true, List.of(Arg.strL("k").e(), m)), d, o); }
                }
                bad(c, new ToE(g.getKey(), Arg.num(1).lit, Arg.num(2).lit), gd); bad(c, new ToE(g.getKey(), Arg.decL("lo").lit, Arg.longL("hi").lit), gd);
                bad(c, m, gd); bad(c, new NotE(m), gd); bad(c, new Par(m), gd); bad(c, new NotE(new Par(m)), gd);
                badA(c, m, gd); badA(c, new Neg(m), gd); badA(c, new Par(m), gd);
                for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) { badA(c, new Fun(fn, List.of(m)), gd); bad(c, new Cmp(new Fun(fn, List.of(m)), EQ, Arg.num(1).e()), gd); }
                Arg b = Arg.boolD("b");
                Ctx.DataSpec bd = (s, d) -> { gd.fill(s, d); b.put(s, d); };
                for (int op : new int[]{AND, OR}) {
                    bad(c, new Bin(m, op, b.e()), bd); bad(c, new Bin(new Cmp(m, EQ, Arg.num(1).e()), op, b.e()), bd); bad(c, new NotE(new Par(new Bin(m, op, b.e()))), bd);
                    bad(c, new Bin(bool(op == AND), op, m), bd); bad(c, new Bin(bool(op == AND), op, new Cmp(m, NE, Arg.num(1).e())), bd);
                }
                for (String o : ODD) for (int op : Spec.CMP) bad(c, new Cmp(m, op, fld("z")), (s, d) -> { gd.fill(s, d); d.put("z", odd(c.m, s, o)); }, o);
            }
            // default field absent from the data
            for (int op : Spec.CMP) c.bool("missing data is a failure", new Cmp(new Empty(), op, Arg.num(1).e()), (s, d) -> { }, "dflt", q -> Expect.FAIL);
        }
        private void bad(Ctx c, E e, Ctx.DataSpec d, Object... w) { c.bool("missing data is a failure", e, d, q -> Expect.FAIL, w); }
        private void badA(Ctx c, E e, Ctx.DataSpec d, Object... w) { c.arith("missing data is a failure", e, d, q -> Expect.FAIL, w); }
    }

    // ------------------------------------------------------------------------------------------------------------------

    static final class Gating extends Check {
        String explanation() { return "Abstract interpretation of every operator and function over every pair of operand kinds that do not fit it (comparisons across kinds, ordering of truth values, arithmetic on texts, dates, versions and truth values, aggregates over non-numbers, conditions that are not truth values, expressions given to the other evaluator): outcomes must be the documented failure, or the documented text comparison, never an arbitrary value."; }
        void run(Ctx c) {
            List<Arg> X = new ArrayList<>(kinds("x")), Y = new ArrayList<>(kinds("y")); X.addAll(lits("x")); Y.addAll(lits("y")); X.add(Arg.decTextD("x")); Y.add(Arg.decTextD("y"));
            for (Arg x : X) for (Arg y : Y) {
                if (!x.data() && !y.data() && !c.thorough) continue;
                boolean same = Spec.family(x).equals(Spec.family(y));
                if (!same) for (int op : Spec.CMP) c.bool("operands of different kinds", new Cmp(x.e(), op, y.e()), Ctx.data(x, y), q -> Spec.compare(q, op, x, y), x, y);
                else if (x.kind.equals("BOOLEAN")) for (int op : new int[]{GT, GE, LT, LE}) c.bool("truth values are not ordered", new Cmp(x.e(), op, y.e()), Ctx.data(x, y), q -> Expect.FAIL, x, y);
                // arithmetic
                for (int op : new int[]{ADD, SUBTRACT, MULTIPLY, DIVIDE, MODULUS, EXPONENT}) if (!fits(op, x, y)) c.arith("arithmetic on unsupported kinds", new Ar(x.e(), op, y.e()), Ctx.data(x, y), q -> Expect.FAIL, x, y);
                for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) if (fn != LEN && (fn == INT || fn == DAYS_ELAPSED || !x.num() || !y.num())) c.arith("functions on unsupported kinds", new Fun(fn, List.of(x.e(), y.e())), Ctx.data(x, y), q -> Expect.FAIL, x, y);
            }
            for (Arg x : X) {
                if (!x.num()) {
                    c.arith("negation of a non-number", new Neg(x.e()), Ctx.data(x), q -> Expect.FAIL, x);
                    for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) if (fn != LEN && !(fn == DAYS_ELAPSED && x.kind.equals("DATE"))) c.arith("functions on unsupported kinds", new Fun(fn, List.of(x.e())), Ctx.data(x), q -> Expect.FAIL, x);
                } else c.arith("functions on unsupported kinds", new Fun(DAYS_ELAPSED, List.of(x.e())), Ctx.data(x), q -> Expect.FAIL, x);
                if (!x.kind.equals("BOOLEAN") && x.data()) for (E e : List.of(x.e(), new NotE(x.e()), new Par(x.e()), new Bin(x.e(), AND, bool(true)), new Bin(bool(false), OR, x.e()), new Bin(x.e(), OR, bool(true))))
                    c.bool("a condition must be a truth value", e, Ctx.data(x), q -> Expect.FAIL, x);
                else if (!x.data() && !x.kind.equals("BOOLEAN")) for (E e : List.of(x.e(), new NotE(x.e()), new Bin(x.e(), AND, bool(true)), new Bin(bool(false), OR, x.e())))
                    c.bool("a condition must be a truth value", e, Ctx.data(x), q -> Expect.FAIL, x);
                if (x.num() || x.kind.equals("STRING")) {
                    c.bool("an arithmetic result is no condition", new Ar(x.e(), ADD, Arg.num(1).e()), Ctx.data(x), q -> Expect.FAIL, x);
                    c.bool("an arithmetic result is no condition", new NotE(new Par(new Ar(x.e(), ADD, Arg.num(1).e()))), Ctx.data(x), q -> Expect.FAIL, x);
                }
                if (x.num()) { c.bool("an arithmetic result is no condition", new Fun(MAX, List.of(x.e())), Ctx.data(x), q -> Expect.FAIL, x); c.bool("an arithmetic result is no condition", new Neg(x.e()), Ctx.data(x), q -> Expect.FAIL, x); }
                c.arith("a condition is no arithmetic expression", new Cmp(x.e(), EQ, Arg.num(1).e()), Ctx.data(x), q -> Expect.FAIL, x);
                if (x.data()) {
                    c.arith("a condition is no arithmetic expression", new In(x.name, false, List.of(Arg.num(1).e())), Ctx.data(x), q -> Expect.FAIL, x);
                    c.arith("a condition is no arithmetic expression", new ToE(x.name, Arg.num(1).lit, Arg.num(4).lit), Ctx.data(x), q -> Expect.FAIL, x);
                    c.arith("a condition is no arithmetic expression", new ArrE(x.name, CONTAINS_ANY, List.of(Arg.num(1).e())), Ctx.data(x), q -> Expect.FAIL, x);
                }
            }
            Arg b = Arg.boolD("b");
            c.arith("a condition is no arithmetic expression", new Bin(b.e(), AND, b.e()), Ctx.data(b), q -> Expect.FAIL);
            c.arith("a condition is no arithmetic expression", new NotE(b.e()), Ctx.data(b), q -> Expect.FAIL);
            // collections, arrays and maps
            for (String o : ODD) {
                Ctx.DataSpec d = (s, x) -> x.put("x", odd(c.m, s, o));
                for (E e : List.of(fld("x"), new NotE(fld("x")), new Bin(fld("x"), AND, bool(true)), new Bin(bool(false), OR, fld("x")))) c.bool("a condition must be a truth value", e, d, q -> Expect.FAIL, o);
                for (int op : new int[]{GT, GE, LT, LE}) c.bool("collections are not ordered against numbers", new Cmp(fld("x"), op, Arg.num(3).e()), d, q -> Expect.FAIL, o);
                for (int op : new int[]{SUBTRACT, MULTIPLY, DIVIDE, MODULUS, EXPONENT}) { c.arith("arithmetic on unsupported kinds", new Ar(fld("x"), op, Arg.num(3).e()), d, q -> Expect.FAIL, o); c.arith("arithmetic on unsupported kinds", new Ar(Arg.num(3).e(), op, fld("x")), d, q -> Expect.FAIL, o); }
                c.arith("negation of a non-number", new Neg(fld("x")), d, q -> Expect.FAIL, o);
                c.bool("a field of a range must be a number", new ToE("x", Arg.num(1).lit, Arg.num(4).lit), d, q -> Expect.FAIL, o);
            }
            for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) {
                int f = fn;
                if (f != LEN) {
                    c.arith("functions over an empty collection", new Fun(f, List.of(fld("x"))), (s, x) -> x.put("x", odd(c.m, s, "empty list")), q -> Expect.FAIL);
                    c.arith("functions over a map", new Fun(f, List.of(fld("x"))), (s, x) -> x.put("x", odd(c.m, s, "map")), q -> Expect.FAIL);
                    for (Arg bad : List.of(Arg.strD("e"), Arg.boolD("e"), Arg.verD("e"), Arg.dtD("e"))) c.arith("functions over collections of non-numbers", new Fun(f, List.of(fld("x"))), (s, x) -> x.put("x", c.m.arrayList(s, List.of(bad.mk.apply(s), Arg.intD("i").mk.apply(s)))), q -> Expect.FAIL, bad);
                    for (Arg bad : List.of(Arg.strD("e"), Arg.boolD("e"), Arg.verD("e"), Arg.dtD("e"))) c.arith("functions over collections of non-numbers", new Fun(f, List.of(fld("x"))), (s, x) -> x.put("x", c.m.arrayList(s, List.of(Arg.intD("i").mk.apply(s), bad.mk.apply(s)))), q -> Expect.FAIL, bad);
                }
            }
            // conditions as list elements
            Arg x = Arg.intD("x"), y = Arg.intD("y");
            for (E it : List.of(new NotE(b.e()), new Bin(b.e(), OR, b.e()), new ArrE("x", CONTAINS_ANY, List.of(Arg.num(1).e())), new Par(new NotE(b.e())), new Par(new Bin(b.e(), AND, b.e())))) {
                c.bool("connectives are not list elements", new In("x", false, List.of(it)), Ctx.data(x, b), q -> Expect.FAIL);
                c.bool("connectives are not list elements", new ArrE("x", CONTAINS_ANY, List.of(it)), Ctx.data(x, b), q -> Expect.FAIL);
                for (int fn = MIN; fn <= DAYS_ELAPSED; fn++) c.arith("connectives are not list elements", new Fun(fn, List.of(it)), Ctx.data(x, b), q -> Expect.FAIL);
            }
        }
        static boolean fits(int op, Arg x, Arg y) {
            if (x.num() && y.num()) return op != MODULUS || (!x.kind.equals("DECIMAL") && !y.kind.equals("DECIMAL"));
            if (op != ADD) return false;
            for (Arg a : List.of(x, y)) if (!Spec.kind(a, "INTEGER", "LONG", "DECIMAL", "STRING", "BOOLEAN", "VERSION")) return false;
            return true;
        }
    }
}
