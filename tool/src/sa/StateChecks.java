package sa;

import java.util.*;
import java.util.function.*;
import static sa.Dsl.*;

/** Purity, sharing, failure containment, caching. */
final class StateChecks {
    /** one evaluation: an expression, the data it reads, and (optionally) its meaning */
    static final class Sc {
        final String name; final E e; final boolean arith; final Ctx.DataSpec data; final String def; final Function<Q, Expect> spec;
        Sc(String name, E e, boolean arith, Ctx.DataSpec data, String def, Function<Q, Expect> spec) { this.name = name; this.e = e; this.arith = arith; this.data = data; this.def = def; this.spec = spec; }
        @Override public String toString() { return (arith ? "arithmetic " : "boolean ") + e + name; }
        V data(State s) { Model.Data d = new Model.Data("data"); data.fill(s, d); return d.build(s); }
        List<Model.Res> eval(Model m, State s, boolean cached, V x, V data) {
            return arith ? m.arith(s, cached ? m.cachedArithEval : m.arithEval, x, data) : m.bool(s, cached ? m.cachedBoolEval : m.boolEval, x, data, def == null ? null : V.Im.str(Str.of(nm(def))));
        }
    }

    static Arg as(Arg a, String f) { return a.named(f); }

    /** every form of expression over every kind of data */
    static List<Sc> corpus(Model m, boolean full) {
        List<Sc> r = new ArrayList<>();
        for (Arg x : FailChecks.kinds("x")) {
            Arg y = Arg.intD("y");
            List<E> B = new ArrayList<>(), A = new ArrayList<>();
            for (int op : full ? Spec.CMP : new int[]{EQ, GT}) { B.add(new Cmp(x.e(), op, x.e())); B.add(new Cmp(x.e(), op, Arg.num(3).e())); B.add(new Cmp(y.e(), op, x.e())); }
            B.add(new Cmp(x.e(), NE, Arg.strL("w").e())); B.add(new Cmp(x.e(), LE, Arg.decL("d").e())); B.add(new Cmp(x.e(), EQ, Arg.verL("v").e())); B.add(new Cmp(x.e(), GE, Arg.dateL("t").e()));
            B.add(new Cmp(x.e(), EQ, fld("null"))); B.add(new Cmp(x.e(), NE, fld("null")));
            B.add(new In("x", false, List.of(Arg.num(1).e(), y.e()))); B.add(new In("x", true, List.of(Arg.strL("w").e())));
            B.add(new ToE("x", Arg.num(1).lit, Arg.decL("d").lit)); B.add(new ArrE("x", CONTAINS_ANY, List.of(Arg.num(1).e())));
            B.add(x.e()); B.add(new NotE(x.e())); B.add(new Bin(x.e(), AND, new Cmp(y.e(), GT, Arg.num(3).e()))); B.add(new Bin(new Cmp(y.e(), GT, Arg.num(3).e()), OR, x.e())); B.add(new Cmp(new Ar(x.e(), ADD, y.e()), GT, Arg.num(3).e())); B.add(new Par(new Cmp(x.e(), EQ, y.e())));
            B.add(new Cmp(new Fun(MAX, List.of(x.e(), y.e())), EQ, y.e()));
            for (int op : new int[]{ADD, SUBTRACT, MULTIPLY, DIVIDE, MODULUS, EXPONENT}) { A.add(new Ar(x.e(), op, y.e())); if (full) A.add(new Ar(Arg.num(7).e(), op, x.e())); }
            A.add(new Neg(x.e())); A.add(x.e());
            for (int f = MIN; f <= DAYS_ELAPSED; f++) { A.add(new Fun(f, List.of(x.e()))); if (full || f < MODE) A.add(new Fun(f, List.of(x.e(), y.e()))); }
            Ctx.DataSpec d = Ctx.data(x, y);
            for (E e : B) r.add(new Sc(" with x:" + x.label, e, false, d, null, null));
            for (E e : A) r.add(new Sc(" with x:" + x.label, e, true, d, null, null));
        }
        for (String o : COLL) {
            Ctx.DataSpec d = (s, t) -> { t.put("x", coll(m, s, o)); Arg.intD("y").put(s, t); };
            List<E> B = new ArrayList<>(), A = new ArrayList<>();
            for (int op : new int[]{CONTAINS_ANY, CONTAINS_ALL}) { B.add(new ArrE("x", op, List.of(Arg.num(1).e(), Arg.num(2).e()))); B.add(new ArrE("x", op, List.of(Arg.strL("w").e()))); B.add(new ArrE("x", op, List.of(fld("y")))); }
            B.add(new Cmp(fld("x"), EQ, Arg.num(1).e())); B.add(new Cmp(fld("x"), NE, fld("null"))); B.add(new In("x", false, List.of(Arg.num(1).e()))); B.add(new ToE("x", Arg.num(1).lit, Arg.num(5).lit)); B.add(fld("x")); B.add(new Cmp(fld("x.k"), GT, Arg.num(1).e())); B.add(new Cmp(new Fun(LEN, List.of(fld("x"))), GT, Arg.num(1).e()));
            for (int f = MIN; f <= DAYS_ELAPSED; f++) { A.add(new Fun(f, List.of(fld("x")))); A.add(new Fun(f, List.of(fld("y"), fld("x")))); }
            A.add(new Ar(fld("x"), ADD, Arg.num(1).e())); A.add(new Neg(fld("x"))); A.add(fld("x"));
            for (E e : B) r.add(new Sc(" with x:" + o, e, false, d, null, null));
            for (E e : A) r.add(new Sc(" with x:" + o, e, true, d, null, null));
        }
        // constants, absent fields, default field
        Ctx.DataSpec none = (s, d) -> { }, yd = Ctx.data(Arg.intD("y"));
        for (E e : List.of(bool(true), new NotE(bool(false)), new Cmp(Arg.num(1).e(), LT, Arg.num(2).e()), fld("x"), new Cmp(fld("x"), EQ, Arg.num(1).e()), new In("x", false, List.of(Arg.num(1).e())), new ToE("x", Arg.num(1).lit, Arg.num(2).lit), new ArrE("x", CONTAINS_ALL, List.of(Arg.num(1).e())))) r.add(new Sc(" without data", e, false, none, null, null));
        for (E e : List.of(new Cmp(new Empty(), GT, Arg.num(1).e()), new Bin(new Cmp(new Empty(), GT, Arg.num(1).e()), OR, new Cmp(new Empty(), LT, Arg.num(0).e())))) for (String def : new String[]{"y", "gone", null}) r.add(new Sc(" default field " + def, e, false, yd, def, null));
        for (E e : List.of(Arg.num(1).e(), Arg.strL("w").e(), Arg.dateL("t").e(), Arg.dtL("t").e(), Arg.verL("v").e(), new Ar(Arg.num(1).e(), ADD, Arg.decL("d").e()), new Fun(DAYS_ELAPSED, List.of(Arg.dateL("t").e())))) r.add(new Sc(" without data", e, true, none, null, null));
        return r;
    }
    static final String[] COLL = {"list of Integer", "list of text", "empty list", "set of Long", "Object array", "linked list", "list of BigDecimal", "map", "list holding null", "foreign object"};
    static V coll(Model m, State s, String what) {
        switch (what) {
            case "list of Integer": return m.arrayList(s, List.of(V.Im.num(Lib.INTEGER, Arg.ip("e1")), V.Im.num(Lib.INTEGER, Arg.ip("e2"))));
            case "list of BigDecimal": return m.arrayList(s, List.of(V.Im.dec(Arg.dp("e1"), "of:e1"), V.Im.num(Lib.LONG, Arg.lp("e2"))));
            case "list of text": return m.arrayList(s, List.of(V.Im.str(Str.atom("~e1")), V.Im.str(Str.atom("~e2"))));
            case "empty list": return m.arrayList(s, List.of());
            case "set of Long": return m.set(s, "java/util/HashSet", List.of(V.Im.num(Lib.LONG, Arg.lp("e1")), V.Im.num(Lib.LONG, Arg.lp("e2"))));
            case "Object array": return s.array("[Ljava/lang/Object;", V.Im.num(Lib.INTEGER, Arg.ip("e1")), V.Im.num(Lib.INTEGER, Arg.ip("e2")));
            case "list holding null": return m.arrayList(s, List.of(V.Im.num(Lib.INTEGER, Arg.ip("e1")), V.NULL));
            case "linked list": return m.arrayList(s, List.of(V.Im.num(Lib.DOUBLE, Arg.dp("e1"))));
            case "map": { Model.Data d = new Model.Data("inner"); d.put("k", V.Im.num(Lib.INTEGER, Arg.ip("e1"))); return d.build(s); }
            default: return s.alloc("java/lang/Object");
        }
    }

    static String where(State.Event e) { return e.where() == null ? "" : " at " + e.where(); }
    static State.Acc acc(State.Event e) { return e.data() instanceof State.Acc a ? a : null; }

    /** events logged after a point */
    static List<State.Event> since(State s, int n) { List<State.Event> l = s.eventList(); return l.subList(Math.min(n, l.size()), l.size()); }
    static int mark(State s) { return s.events == null ? 0 : s.events.n; }

    static abstract class Base extends Check {
        /** runs one corpus entry; budget exhaustion leaves it undecided */
        void guard(Ctx c, String key, Runnable r) {
            if (c.skip(key) || c.late(key)) return;
            c.scenarios++;
            try { r.run(); }
            catch (Interp.Budget b) { c.undecidedScenarios++; c.undecided.add(key + ": " + b.getMessage()); }
            catch (RuntimeException | StackOverflowError e) { if (e instanceof Model.Anchor a) throw a; c.failed(key, e); c.scenarios--; }
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C10

    static final class Pure extends Base {
        String explanation() { return "Effect analysis by abstract interpretation: evaluate (and parseExpression) over every form of expression and kind of data, twice on the same parsed expression; no partition may write to the caller's map, its nested maps, lists, sets or arrays, or to the parsed expression; and the outcome of an evaluation after another one (same or other expression, other data, a failing one) must be the one its own data determine."; }
        void run(Ctx c) {
            Model m = c.m;
            for (Sc sc : corpus(m, c.thorough)) guard(c, "" + sc, () -> {
                State s = m.start();
                V x = m.expression(s, sc.e);
                V d = sc.data(s);
                int from = m.base.next, to = s.next;
                s.sharedBelow = s.next;
                for (Model.Res r1 : sc.eval(m, s, true, x, d)) {
                    c.partitions++; c.obligations++;
                    writes(c, sc, r1, 0, from, to, "the caller's data");
                    State t = r1.s.copy();
                    t.sharedBelow = t.next; int k = mark(t);
                    if (r1.kind.equals("escape")) continue;
                    for (Model.Res r2 : sc.eval(m, t, true, x, d)) {
                        c.partitions++; c.obligations++;
                        writes(c, sc, r2, k, from, Integer.MAX_VALUE, "the parsed expression or the data");
                        if (!r2.tainted() && !same(r1, r2)) c.violation(sc + " twice", "an evaluation repeated on the same data has the same outcome", "first " + r1 + ", then " + r2 + (r2.s.facts.toString().isEmpty() ? "" : " when " + r2.s.facts), Ctx.path(r2.s));
                    }
                }
            });
            c.rules.add("no write to objects the caller passed in");
            c.rules.add("no write to a parsed expression after it was handed out");
            c.rules.add("an evaluation repeated on the same data has the same outcome");
            history(c);
        }
        static boolean same(Model.Res a, Model.Res b) {
            if (!a.kind.equals(b.kind)) return false;
            if (a.kind.equals("value")) return a.v instanceof V.Ref || b.v instanceof V.Ref ? Canon.of(a.s, a.v).equals(Canon.of(b.s, b.v)) : a.v.equals(b.v) || a.v instanceof V.Im p && b.v instanceof V.Im q && p.cls.equals(q.cls) && p.num != null && q.num != null && b.s.facts.sign(p.num.sub(q.num)) == Facts.ZERO;
            return Objects.equals(a.exc, b.exc);
        }
        private void writes(Ctx c, Sc sc, Model.Res r, int k, int from, int to, String what) {
            for (State.Event e : since(r.s, k)) {
                if (e.kind().equals("MUTATE")) c.violation(sc + " writes", "no write to objects the caller passed in", e.text() + where(e), Ctx.path(r.s));
                State.Acc a = acc(e);
                if (e.kind().equals("SHAREDWRITE") && a != null && a.id() >= from && a.id() < to && !a.same()) c.violation(sc + " writes", "no write to objects the caller passed in or to a parsed expression", "write to " + what + ": " + e.text() + where(e), Ctx.path(r.s));
            }
        }

        /** evaluations whose outcome is known, over data whose values carry the given suffix */
        static List<Sc> known(Model model, String u) {
            List<Sc> r = new ArrayList<>();
            Arg x = as(Arg.intD("x" + u), "x"), y = as(Arg.longD("y" + u), "y"), b = as(Arg.boolD("b" + u), "b"), t = as(Arg.strD("t" + u), "t"), d = as(Arg.decD("d" + u), "d"), v = as(Arg.verD("v" + u), "v"), e = as(Arg.dateD("e" + u), "e"), z = as(Arg.intD("z" + u), "z");
            Ctx.DataSpec ds = (s, m) -> {
                Ctx.data(x, y, b, t, d, v, e, z).fill(s, m);
                m.put("l", model.arrayList(s, List.of(x.mk.apply(s), z.mk.apply(s), z.mk.apply(s))));
                Model.Data in = new Model.Data("inner"); in.put("k", x.mk.apply(s)); m.put("m", in.build(s));
            };
            BiConsumer<E, Function<Q, Expect>> B = (ex, f) -> r.add(new Sc("", ex, false, ds, null, f)), A = (ex, f) -> r.add(new Sc("", ex, true, ds, null, f));
            for (int op : Spec.CMP) B.accept(new Cmp(x.e(), op, y.e()), q -> Expect.bool(Spec.holds(op, q.sign(x.p.sub(y.p)))));
            B.accept(new Cmp(x.e(), EQ, Arg.num(7).e()), q -> Expect.bool(q.zero(x.p.sub(Poly.of(7)))));
            B.accept(new Cmp(t.e(), EQ, word(Str.of("k"))), q -> Expect.bool(q.zero(Lib.equality(t.text, Str.of("k")))));
            B.accept(new Cmp(v.e(), GT, ver("~ver")), q -> Expect.bool(q.sign(Natives.version(v.text, Str.atom("~ver"))) > 0));
            B.accept(new Cmp(e.e(), LE, date(Poly.of(20000))), q -> Expect.bool(q.sign(e.p.sub(Poly.of(20000))) <= 0));
            B.accept(b.e(), q -> Expect.bool(!q.zero(b.p)));
            B.accept(new NotE(b.e()), q -> Expect.bool(q.zero(b.p)));
            B.accept(new Bin(b.e(), AND, new Cmp(x.e(), GT, Arg.num(3).e())), q -> Expect.bool(!q.zero(b.p) && q.sign(x.p.sub(Poly.of(3))) > 0));
            B.accept(new Bin(b.e(), OR, new Cmp(x.e(), GT, Arg.num(3).e())), q -> Expect.bool(!q.zero(b.p) || q.sign(x.p.sub(Poly.of(3))) > 0));
            B.accept(new In("x", false, List.of(Arg.num(1).e(), y.e())), q -> Expect.bool(q.zero(x.p.sub(Poly.of(1))) || q.zero(x.p.sub(y.p))));
            B.accept(new In("x", true, List.of(Arg.num(1).e(), Arg.num(2).e())), q -> Expect.bool(!q.zero(x.p.sub(Poly.of(1))) && !q.zero(x.p.sub(Poly.of(2)))));
            B.accept(new ToE("x", Arg.num(3).lit, Arg.num(9).lit), q -> Expect.bool(q.within(x.p, Itv.of(3, 9))));
            B.accept(new Cmp(new Ar(x.e(), MULTIPLY, y.e()), GT, Arg.num(3).e()), q -> Expect.bool(q.sign(x.p.mul(y.p).sub(Poly.of(3))) > 0));
            B.accept(new Cmp(new Fun(MIN, List.of(x.e(), y.e())), EQ, x.e()), q -> Expect.bool(q.sign(x.p.sub(y.p)) <= 0));
            B.accept(new Cmp(fld("gone"), EQ, Arg.num(1).e()), q -> Expect.FAIL);
            B.accept(new Cmp(x.e(), NE, fld("null")), q -> Expect.bool(true));
            B.accept(new Cmp(fld("gone"), EQ, fld("null")), q -> Expect.bool(true));
            B.accept(new Cmp(x.e(), GT, t.e()), q -> Expect.FAIL);
            A.accept(new Ar(x.e(), ADD, y.e()), q -> Expect.whole(q, x.p.add(y.p)));
            A.accept(new Ar(x.e(), SUBTRACT, Arg.num(5).e()), q -> Expect.whole(q, x.p.sub(Poly.of(5))));
            A.accept(new Ar(d.e(), MULTIPLY, x.e()), q -> Expect.num(d.p.mul(x.p)));
            A.accept(new Neg(y.e()), q -> Expect.whole(q, y.p.neg()));
            A.accept(new Fun(MAX, List.of(x.e(), y.e())), q -> Expect.whole(q, q.sign(x.p.sub(y.p)) >= 0 ? x.p : y.p));
            A.accept(new Fun(SUM, List.of(x.e(), y.e(), Arg.num(1).e())), q -> Expect.whole(q, x.p.add(y.p).add(Poly.of(1))));
            A.accept(new Ar(t.e(), ADD, x.e()), q -> Expect.text(t.text.cat(x.text)));
            A.accept(x.e(), q -> Expect.num(x.p, Lib.INTEGER));
            A.accept(fld("gone"), q -> Expect.FAIL);
            A.accept(new Ar(b.e(), MULTIPLY, x.e()), q -> Expect.FAIL);
            List<Arg> three = List.of(x, z, z), mixed = List.of(x, z);
            A.accept(new Fun(MODE, List.of(x.e(), z.e(), z.e())), q -> ArithChecks.ModeLenInt.mode(q, three));
            A.accept(new Fun(MODE, List.of(fld("l"))), q -> ArithChecks.ModeLenInt.mode(q, three));
            A.accept(new Fun(AVG, List.of(x.e(), z.e())), q -> Expect.canon(q, Lib.rdiv(q.f, x.p.add(z.p), Poly.of(2), 2, "DOWN")));
            A.accept(new Fun(MEDIAN, List.of(x.e(), z.e())), q -> Expect.canon(q, Lib.rdiv(q.f, x.p.add(z.p), Poly.of(2), 2, "DOWN")));
            A.accept(new Fun(MEDIAN, List.of(fld("l"))), q -> Expect.whole(q, z.p));
            A.accept(new Fun(LEN, List.of(t.e())), q -> Expect.num(Lib.len(t.text), Lib.INTEGER));
            A.accept(new Fun(LEN, List.of(fld("l"))), q -> Expect.num(Poly.of(3), Lib.INTEGER));
            A.accept(new Fun(SUM, List.of(fld("l"))), q -> Expect.whole(q, x.p.add(z.p).add(z.p)));
            A.accept(new Fun(INT, List.of(d.e())), q -> ArithChecks.ModeLenInt.truncated(q, d.p));
            A.accept(new Fun(DAYS_ELAPSED, List.of(e.e())), q -> Expect.num(Poly.var("today", Lib.DAYS, true).sub(e.p), Lib.LONG));
            A.accept(new Ar(x.e(), DIVIDE, Arg.num(4).e()), q -> Expect.canon(q, Lib.rdiv(q.f, x.p, Poly.of(4), 3, "DOWN")));
            int k = u.equals("1") ? 3 : 5;
            A.accept(new Ar(Arg.num(19).e(), MODULUS, Arg.num(k).e()), q -> Expect.num(Poly.of(19 % k), Lib.INTEGER));
            A.accept(new Ar(Arg.num(2).e(), EXPONENT, Arg.num(k).e()), q -> Expect.num(Poly.of(1L << k)));
            for (int op : new int[]{CONTAINS_ANY, CONTAINS_ALL}) B.accept(new ArrE("l", op, List.of(Arg.num(k).e(), Arg.num(8).e())), q -> {
                boolean has = q.zero(x.p.sub(Poly.of(k))) || q.zero(z.p.sub(Poly.of(k))), more = q.zero(x.p.sub(Poly.of(8))) || q.zero(z.p.sub(Poly.of(8)));
                return Expect.bool(op == CONTAINS_ANY ? has || more : has && more); });
            B.accept(new Cmp(fld("m.k"), GT, Arg.num(k).e()), q -> Expect.bool(q.sign(x.p.sub(Poly.of(k))) > 0));
            r.add(new Sc("", new Cmp(new Empty(), EQ, Arg.num(k).e()), false, ds, "x", q -> Expect.bool(q.zero(x.p.sub(Poly.of(k))))));
            r.add(new Sc("", new Cmp(new Empty(), EQ, Arg.num(k).e()), false, ds, "z", q -> Expect.bool(q.zero(z.p.sub(Poly.of(k))))));
            return r;
        }

        /** the caller changes the map it passed before: its entries (and, if deep, the contents of its list and inner map) become those of another */
        private static void become(State s, V d, V other, boolean deep) {
            State.Obj a = (State.Obj) s.get(d), b = (State.Obj) s.get(other);
            V[] av = ((State.Arr) s.get(a.f.get("zz/ExtMap.vals"))).e, bv = ((State.Arr) s.get(b.f.get("zz/ExtMap.vals"))).e.clone();
            if (deep) for (int i = 0; i < bv.length; i++) if (bv[i] instanceof V.Ref r && av[i] instanceof V.Ref q) {
                for (Map.Entry<String, V> e : new LinkedHashMap<>(((State.Obj) s.get(r)).f).entrySet()) s.put(q, e.getKey(), e.getValue());
                bv[i] = q;
            }
            s.put(d, "zz/ExtMap.keys", b.f.get("zz/ExtMap.keys"));
            s.put(d, "zz/ExtMap.vals", s.array("[Ljava/lang/Object;", bv));
        }

        /** the outcome of an evaluation after other evaluations */
        private void history(Ctx c) {
            Model m = c.m;
            String rule = "the outcome is the one the data of this evaluation determine, whatever was evaluated before";
            List<Sc> first = known(m, "1"), second = known(m, "2");
            for (boolean cached : new boolean[]{false, true}) for (int i = 0; i < second.size(); i++) {
                Set<Integer> before = new LinkedHashSet<>(List.of(i));
                for (int k = 0; k < first.size(); k++) if (c.thorough || k == (i + 1) % first.size() || k == (i + 7) % first.size() || k == 17 || k == 20) before.add(k);
                for (int k : before) {
                    Sc p = first.get(k), q = second.get(i);
                    c.scenario((cached ? "cached " : "") + q + " after " + p, rule, s -> {
                        V px = m.expression(s, p.e), qx = p.e.show().equals(q.e.show()) ? px : m.expression(s, q.e);
                        List<Model.Res> r = new ArrayList<>();
                        for (Model.Res a : p.eval(m, s, cached, px, p.data(s))) { State t = a.s.copy(); r.addAll(q.eval(m, t, cached, qx, q.data(t))); }
                        return r;
                    }, q.spec);
                }
                Sc p = first.get(i), q = second.get(i);
                for (boolean deep : new boolean[]{false, true}) c.scenario((cached ? "cached " : "") + q + " after the data changed" + (deep ? " inside" : ""), rule, s -> {
                    V x = m.expression(s, q.e), d = p.data(s);
                    List<Model.Res> r = new ArrayList<>();
                    for (Model.Res a : q.eval(m, s, cached, x, d)) { State t = a.s.copy(); become(t, d, q.data(t), deep); r.addAll(q.eval(m, t, cached, x, d)); }
                    return r;
                }, q.spec);
            }
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C11

    static final class Shared extends Base {
        String explanation() { return "Sharing analysis by abstract interpretation (a lockset discipline): every write that an evaluation or a parse makes to memory that existed before the call (evaluator, parser, cache, registries, static fields, parsed expressions) is collected over every form of expression and kind of data. Each must be internal to a thread-safe library class, or made under a lock common to all writes and reads of that location, or leave an equal value. Constructing further evaluators or parsers meanwhile may only replace registry entries by equal ones."; }
        List<String> assumptions() { return List.of("Caffeine caches and java.util.concurrent classes are thread safe.", "Data maps and expressions of different evaluations are not shared for writing by the callers."); }
        void run(Ctx c) {
            Model m = c.m;
            Map<String, List<Object[]>> acc = new TreeMap<>();
            List<Sc> sc = corpus(m, c.thorough);
            pass(c, sc, acc);
            c.rules.add("writes to shared memory are synchronised");
            Set<String> locked = new TreeSet<>(), vol = new TreeSet<>();
            for (Map.Entry<String, List<Object[]>> e : acc.entrySet()) {
                Set<String> common = null; boolean v = true, plain = false; Object[] at = null;
                for (Object[] o : e.getValue()) {
                    State.Acc a = (State.Acc) o[1];
                    if (common == null) common = new TreeSet<>(a.locks()); else common.retainAll(a.locks());
                    v &= a.vol();
                    if (a.locks().isEmpty() && !a.vol()) { plain = true; at = o; }
                }
                if (!common.isEmpty()) { locked.add(e.getKey()); continue; }
                if (plain && once(e.getValue())) continue;
                if (plain) { flag(c, at, "unsynchronised write to shared memory"); continue; }
                if (!v) { flag(c, e.getValue().get(0), "writes to this location hold no common lock"); continue; }
                vol.add(e.getKey());
            }
            if (vol.size() > 1) flag(c, acc.get(vol.iterator().next()).get(0), "related volatile locations are written one after the other: " + vol);
            if (!locked.isEmpty()) {
                c.rules.add("reads of lock-protected memory hold the lock");
                m.in.watch = locked;
                Map<String, List<Object[]>> rd = new TreeMap<>();
                try { reads(c, sc, locked, rd, acc); } finally { m.in.watch = null; }
            }
            c.count("shared locations written", acc.size());
            construct(c);
        }

        /** a location that is filled in once with an immutable value and never changed again */
        private static boolean once(List<Object[]> l) {
            for (Object[] o : l) { State.Acc a = (State.Acc) o[1]; if ((Integer) o[3] == 2 || !(a.from() instanceof V.Null) || !(a.to() instanceof V.Im)) return false; }
            return true;
        }

        private void flag(Ctx c, Object[] o, String why) {
            State.Event e = (State.Event) o[0];
            c.violation(e.text() + where(e), "writes to shared memory are synchronised", why + ": " + e.text() + where(e) + ", reached from " + o[2], Ctx.path((State) o[4]));
        }

        private void pass(Ctx c, List<Sc> l, Map<String, List<Object[]>> acc) {
            Model m = c.m;
            for (Sc sc : l) for (boolean cached : new boolean[]{true, false}) {
                guard(c, sc + (cached ? " cached" : ""), () -> {
                    State s = m.start(); V x = m.expression(s, sc.e), d = sc.data(s);
                    s.sharedBelow = s.next;
                    for (Model.Res r : sc.eval(m, s, cached, x, d)) {
                        c.partitions++; c.obligations++;
                        collect(r.s, 0, acc, sc, 1);
                        State t = r.s.copy(); t.sharedBelow = t.next; int k = mark(t);
                        if (!cached || r.kind.equals("escape")) continue;
                        for (Model.Res r2 : sc.eval(m, t, true, x, d)) { c.partitions++; c.obligations++; collect(r2.s, k, acc, sc, 2); }
                    }
                });
            }
        }
        private void collect(State s, int k, Map<String, List<Object[]>> acc, Sc sc, int round) {
            for (State.Event e : since(s, k)) {
                State.Acc a = acc(e);
                if (a == null || a.same() || !(e.kind().equals("SHAREDWRITE") || e.kind().equals("STATICWRITE"))) continue;
                // objects created by the first evaluation are named by their class and field
                String loc = a.id() < 0 || e.text().startsWith("state of") || a.loc().endsWith(".[]") ? a.loc() : a.loc();
                List<Object[]> l = acc.computeIfAbsent(loc, z -> new ArrayList<>());
                if (l.size() < 200) l.add(new Object[]{e, a, sc, round, s});
            }
        }
        private void reads(Ctx c, List<Sc> l, Set<String> locked, Map<String, List<Object[]>> rd, Map<String, List<Object[]>> acc) {
            Model m = c.m;
            for (Sc sc : l) guard(c, sc + " reads", () -> {
                State s = m.start(); V x = m.expression(s, sc.e), d = sc.data(s); s.sharedBelow = s.next;
                for (Model.Res r : sc.eval(m, s, true, x, d)) for (State.Event e : since(r.s, 0)) {
                    State.Acc a = acc(e);
                    if (a == null || !e.kind().equals("SHAREDREAD") || a.vol()) continue;
                    Set<String> common = new TreeSet<>(a.locks());
                    for (Object[] o : acc.get(a.loc())) common.retainAll(((State.Acc) o[1]).locks());
                    if (common.isEmpty()) c.violation("read of " + e.text() + where(e), "reads of lock-protected memory hold the lock", "unlocked read of a location that is written under a lock: " + e.text() + where(e), Ctx.path(r.s));
                }
            });
        }
        private void construct(Ctx c) {
            Model m = c.m;
            c.rules.add("construction replaces registry entries only by equal ones");
            for (String[] k : new String[][]{{Model.BP, "()V"}, {Model.CP, "(I)V"}, {Model.BE, "(L" + Model.IP + ";)V"}, {Model.AE, "(L" + Model.IP + ";)V"}}) guard(c, "construction of " + k[0], () -> {
                State s = m.start(); s.sharedBelow = s.next;
                V[] a = k[1].equals("()V") ? new V[1] : new V[]{null, k[1].equals("(I)V") ? V.I.of(10) : m.boolParser};
                for (Interp.Out o : m.in.instantiate(s, k[0], k[1], a)) {
                    c.partitions++; c.obligations++;
                    for (State.Event e : since(o.s, 0)) {
                        State.Acc x = acc(e);
                        if (x == null || x.same() || !x.locks().isEmpty() || !(e.kind().equals("SHAREDWRITE") || e.kind().equals("STATICWRITE"))) continue;
                        c.violation("construction " + e.text() + where(e), "construction replaces registry entries only by equal ones", "constructing a " + k[0].substring(k[0].lastIndexOf('/') + 1) + " changes shared memory: " + e.text() + where(e) + (x.to() == null ? "" : ", " + Canon.of(o.s, x.from()) + " becomes " + Canon.of(o.s, x.to())), Ctx.path(o.s));
                    }
                }
            });
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C12

    static final class Contained extends Base {
        String explanation() { return "Exception-flow analysis by abstract interpretation: over every form of expression and kind of data (collections, maps, foreign objects, null elements), null arguments and damaged parse trees (missing labelled parts, as left behind by the parser's error recovery), every outcome of evaluate and parseExpression must be a Try: a Success holding a Boolean (boolean evaluation), a value (arithmetic) or a node (parsing), or a Failure."; }
        List<String> assumptions() { return List.of("Exhaustion of stack or memory is not an outcome (a StackOverflowError on a deeply nested expression escapes as an Error)."); }
        void run(Ctx c) {
            Model m = c.m;
            c.rules.add("every outcome is a Try with a proper value");
            for (Sc sc : corpus(m, c.thorough)) for (boolean cached : new boolean[]{false, true}) guard(c, sc + (cached ? " cached" : ""), () -> {
                State s = m.start(); V x = m.expression(s, sc.e), d = sc.data(s);
                check(c, "" + sc, sc.eval(m, s, cached, x, d), sc.arith ? "arith" : "bool");
            });
            for (Sc sc : corpus(m, false)) if (sc.toString().contains("Integer") || sc.toString().contains("without")) guard(c, "parse " + sc, () -> {
                State s = m.start(); V x = m.expression(s, sc.e);
                check(c, "parse " + sc, m.parse(s, m.boolParser, x, null), "node");
                State u = m.start(); V y = m.expression(u, sc.e);
                check(c, "parse with default " + sc, m.parse(u, m.cachedParser, y, V.Im.str(Str.of("f"))), "node");
            });
            // null arguments
            E e = new Cmp(fld("x"), GT, Arg.num(3).e());
            for (boolean cached : new boolean[]{false, true}) {
                guard(c, "null expression" + cached, () -> {
                    State s = m.start(); V d = new Model.Data("data").build(s);
                    check(c, "null expression", m.bool(s.copy(), cached ? m.cachedBoolEval : m.boolEval, V.NULL, d, null), "fail");
                    check(c, "null expression with default field", m.bool(s.copy(), cached ? m.cachedBoolEval : m.boolEval, V.NULL, d, V.Im.str(Str.of("f"))), "fail");
                    check(c, "null expression, arithmetic", m.arith(s.copy(), cached ? m.cachedArithEval : m.arithEval, V.NULL, d), "fail");
                    check(c, "null expression, parse", m.parse(s.copy(), cached ? m.cachedParser : m.boolParser, V.NULL, null), "fail");
                });
                guard(c, "null data" + cached, () -> {
                    State s = m.start(); V x = m.expression(s, e), y = m.expression(s, new Ar(fld("x"), ADD, Arg.num(1).e()));
                    check(c, "null data", m.bool(s.copy(), cached ? m.cachedBoolEval : m.boolEval, x, V.NULL, null), "fail");
                    State u = m.start(); V z = m.expression(u, e), dd = new Model.Data("data").put("x", Arg.intD("x").mk.apply(u)).build(u);
                    check(c, "null default field", m.call(u, cached ? m.cachedBoolEval : m.boolEval, "evaluate", "(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)Lio/vavr/control/Try;", z, dd, V.NULL), "bool");
                    check(c, "null data, arithmetic", m.arith(s.copy(), cached ? m.cachedArithEval : m.arithEval, y, V.NULL), "fail");
                });
            }
            damaged(c);
        }
        private void check(Ctx c, String key, List<Model.Res> rs, String kind) {
            for (Model.Res r : rs) {
                c.partitions++; c.obligations++;
                String bad = null;
                if (r.kind.equals("escape")) bad = "an exception escapes: " + r.exc;
                else if (r.kind.equals("null")) bad = "returns null instead of a Try";
                else if (r.kind.equals("value") && kind != null) {
                    if (r.v instanceof V.Null) bad = "a Success holding null";
                    else if (kind.equals("fail")) bad = "succeeds with " + r;
                    else if (kind.equals("bool") && !(r.v instanceof V.Im x && x.cls.equals(Lib.BOOLEAN))) bad = "a boolean evaluation succeeds with " + r;
                    else if (kind.equals("node")) { String k = c.m.in.classOf(r.s, r.v); if (k == null || !k.startsWith(Model.PKG + "domain/")) bad = "parsing succeeds with " + r; }
                }
                if (bad == null) continue;
                if (r.tainted()) { c.undecided.add(key + ": " + r.taint()); c.undecidedScenarios++; continue; }
                c.violation(key, "every outcome is a Try with a proper value", bad + (r.s.facts.toString().isEmpty() ? "" : " when " + r.s.facts), Ctx.path(r.s));
            }
        }

        /** parse trees with one part missing */
        private void damaged(Ctx c) {
            Model m = c.m;
            Arg x = Arg.intD("x");
            List<E> forms = List.of(new Cmp(fld("x"), GT, Arg.num(1).e()), new Bin(fld("x"), AND, bool(true)), new NotE(fld("x")), new Par(new Cmp(fld("x"), EQ, Arg.num(1).e())), new In("x", true, List.of(Arg.num(1).e(), Arg.num(2).e())), new ToE("x", Arg.num(1).lit, Arg.num(4).lit), new ArrE("x", CONTAINS_ALL, List.of(Arg.num(1).e())),
                new Cmp(new Ar(fld("x"), ADD, new Neg(Arg.num(1).e())), LT, new Fun(MIN, List.of(fld("x"), Arg.num(2).e()))), new Ar(fld("x"), MULTIPLY, Arg.num(2).e()), new Fun(LEN, List.of(fld("x"))), fld("x"), bool(true), Arg.strL("w").e(), Arg.dateL("t").e());
            for (E e : forms) {
                State s0 = m.start(); V txt = m.expression(s0, e); V tree = s0.stat("tree:" + ((V.Im) txt).str.key());
                List<int[]> ids = new ArrayList<>();
                for (int id : new TreeSet<>(Canon.reach(s0, tree))) if (s0.get(id) instanceof State.Obj o && o.cls.startsWith(m.parserClass)) {
                    for (String f : new TreeSet<>(o.f.keySet())) {
                        String n = f.substring(f.lastIndexOf('.') + 1);
                        if (n.equals("parent") || n.equals("invokingState")) continue;
                        guard(c, "damaged " + e + " #" + id + " " + n, () -> {
                            State s = s0.copy(); s.put(new V.Ref(id), f, V.NULL);
                            V d = new Model.Data("data").put("x", x.mk.apply(s)).build(s);
                            check(c, "boolean " + e + " without " + simple(o.cls) + "." + n, m.bool(s.copy(), m.boolEval, txt, d, null), "bool");
                            check(c, "arithmetic " + e + " without " + simple(o.cls) + "." + n, m.arith(s.copy(), m.cachedArithEval, txt, d), "arith");
                        });
                    }
                }
            }
        }
        private static String simple(String c) { return c.substring(c.lastIndexOf('$') + 1); }
    }

    // ------------------------------------------------------------------------------------------------------------------ C13

    static final class Cached extends Base {
        String explanation() { return "Relational abstract interpretation: sequences of parses through one CachedBoolParser (several expressions, with and without default field, repeated, failing ones in between, with every pattern of evictions) are compared with parsing the same expression and default field without a cache: the same tree or the same failure, structurally. Retention: after more distinct expressions than the maximum the parser object reaches at most the maximum number of parsed trees (bounded stub cache, heap reachability)."; }
        void run(Ctx c) {
            Model m = c.m;
            Arg a = Arg.intL("a"), w = Arg.strL("w");
            List<E> es = List.of(new Cmp(new Empty(), EQ, a.e()), new Cmp(fld("x"), EQ, a.e()), new Bin(new Cmp(new Empty(), GT, a.e()), AND, new In("y", true, List.of(w.e()))), new Fun(MIN, List.of(fld("x"), a.e())), new NotE(fld("x")), new Ar(new Neg(fld("x")), MULTIPLY, a.e()), new Empty());
            String[] defs = {null, "f", "g", "", "x"};
            c.rules.add("a cached parse equals an uncached one");
            List<int[]> calls = new ArrayList<>();
            for (int i = 0; i < es.size(); i++) for (int k = 0; k < defs.length; k++) if (i == 0 || i == 2 || i == 6 || k < 2) calls.add(new int[]{i, k});
            for (int[] p : calls) for (int[] q : calls) {
                boolean related = p[0] == q[0] || c.thorough || (p[0] + q[0] + p[1]) % 3 == 0;
                if (!related) continue;
                seq(c, es, defs, p, q);
                if (p[0] == q[0] && p[1] != q[1] || c.thorough && (p[0] + q[0]) % 2 == 0) { seq(c, es, defs, p, q, p); seq(c, es, defs, p, q, q); }
            }
            retention(c, es);
        }
        private static String name(List<E> es, String[] defs, int[] p) { return "'" + es.get(p[0]) + "'" + (defs[p[1]] == null ? "" : "/" + (defs[p[1]].isEmpty() ? "empty" : defs[p[1]])); }
        private void seq(Ctx c, List<E> es, String[] defs, int[]... calls) {
            StringJoiner j = new StringJoiner(", then "); for (int[] p : calls) j.add(name(es, defs, p));
            String key = "" + j;
            Model m = c.m;
            guard(c, key, () -> {
                State s = m.start();
                V[] txt = new V[es.size()];
                for (int[] p : calls) if (txt[p[0]] == null) txt[p[0]] = m.expression(s, es.get(p[0]));
                int[] last = calls[calls.length - 1];
                V def = defs[last[1]] == null ? null : V.Im.str(Str.of(nm(defs[last[1]])));
                Set<String> want = new TreeSet<>();
                for (Model.Res r : m.parse(s.copy(), m.boolParser, txt[last[0]], def)) { if (r.tainted()) { c.undecidedScenarios++; c.undecided.add(key + ": " + r.taint()); return; } want.add(dump(r)); }
                List<State> st = List.of(s);
                for (int i = 0; i < calls.length; i++) {
                    int[] p = calls[i];
                    V d = defs[p[1]] == null ? null : V.Im.str(Str.of(nm(defs[p[1]])));
                    List<State> nx = new ArrayList<>();
                    for (State t : st) for (Model.Res r : m.parse(t.copy(), m.cachedParser, txt[p[0]], d)) {
                        nx.add(r.s);
                        if (i < calls.length - 1) continue;
                        c.partitions++; c.obligations++;
                        String got = dump(r);
                        if (want.contains(got)) continue;
                        if (r.tainted()) { c.undecidedScenarios++; c.undecided.add(key + ": " + r.taint()); continue; }
                        c.violation(key, "a cached parse equals an uncached one", "expected " + cut(want.toString()) + ", found " + cut(got) + (r.s.facts.toString().isEmpty() ? "" : " when " + r.s.facts), Ctx.path(r.s));
                    }
                    st = nx;
                }
            });
        }
        private static String cut(String s) { s = s.replace(Model.PKG, "").replace("java/lang/", "").replace("java/util/", ""); return s.length() > 600 ? s.substring(0, 600) + "..." : s; }
        private static String dump(Model.Res r) { return r.kind.equals("value") ? Canon.of(r.s, r.v) : r.toString(); }

        /** how many trees and texts can the parser hold on to */
        private void retention(Ctx c, List<E> es) {
            c.rules.add("a cached parser retains at most its maximum of parsed expressions");
            c.rules.add("what a cached parser retains does not grow with the number of expressions parsed");
            for (int max : c.thorough ? new int[]{0, 1, 2, 4, 7, 20} : new int[]{0, 1, 2, 4}) for (String kind : List.of("", " malformed", " mixed")) retain(c, max, kind);
        }
        private static E form(String kind, int i) {
            boolean bad = kind.equals(" malformed") || kind.equals(" mixed") && i % 2 == 1;
            return new Cmp(bad ? new Empty() : fld("x" + i), EQ, Arg.num(i).e());
        }
        private void retain(Ctx c, int max, String kind) {
            Model m = c.m;
            String key = "retention with maximum " + max + kind, bound = "a cached parser retains at most its maximum of parsed expressions";
            guard(c, key, () -> {
                State s = m.start();
                for (Interp.Out x : m.in.instantiate(s, Model.CP, "(I)V", new V[]{null, V.I.of(max)})) {
                    if (x.exc != null) { c.violation(key, bound, "the constructor fails", Ctx.path(x.s)); continue; }
                    List<State> st = List.of(x.s);
                    int n = max + (kind.isEmpty() ? 4 : 9), good = 0;
                    Set<String> texts = new TreeSet<>();
                    List<List<V>> got = new ArrayList<>(); for (State t : st) got.add(new ArrayList<>());
                    for (int i = 0; i < n; i++) {
                        List<State> nx = new ArrayList<>(); List<List<V>> ng = new ArrayList<>();
                        E e = form(kind, i);
                        if (!(((Cmp) e).l instanceof Empty)) good++;
                        for (int k = 0; k < st.size(); k++) {
                            State t = st.get(k).copy();
                            V txt = m.expression(t, e);
                            texts.add(((V.Im) txt).str.key());
                            for (Model.Res r : m.parse(t, x.ret, txt, null)) { nx.add(r.s); List<V> g = new ArrayList<>(got.get(k)); if (r.kind.equals("value")) g.add(r.v); ng.add(g); }
                        }
                        st = nx; got = ng;
                        if (st.size() > 64) { st = st.subList(0, 64); got = got.subList(0, 64); }
                    }
                    for (int k = 0; k < st.size(); k++) {
                        c.partitions++; c.obligations += 2;
                        State t = st.get(k);
                        Set<Integer> reach = new HashSet<>(Canon.reach(t, x.ret)); Set<String> held = new TreeSet<>(Canon.texts(t, x.ret, texts));
                        for (V v : t.staticsOf(Model.PKG)) { reach.addAll(Canon.reach(t, v)); held.addAll(Canon.texts(t, v, texts)); }
                        int trees = 0; for (V v : got.get(k)) if (v instanceof V.Ref r && reach.contains(r.id)) trees++;
                        Model.Res r = new Model.Res(t, "value", null, null, null);
                        String bad = null, rule = bound;
                        if (got.get(k).size() < good) bad = "parsing fails";
                        else if (trees > max) bad = "after " + n + " distinct expressions " + trees + " parsed trees are still reachable from the parser";
                        else if (held.size() > max + 3) { bad = "after " + n + " distinct" + kind + " expressions the texts of " + held.size() + " are still reachable from the parser"; rule = "what a cached parser retains does not grow with the number of expressions parsed"; }
                        if (bad == null) continue;
                        if (r.tainted()) { c.undecidedScenarios++; c.undecided.add("retention: " + r.taint()); } else c.violation(key, rule, bad, Ctx.path(t));
                    }
                }
            });
        }
    }
}
