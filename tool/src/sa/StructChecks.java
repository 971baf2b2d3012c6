package sa;

import java.util.*;
import java.util.function.*;
import org.objectweb.asm.Opcodes;
import static sa.Dsl.*;

/** Structure: parsed trees, literals, field names, data types, registries. */
final class StructChecks {
    static final String D = Model.PKG + "domain/";

    /** the value of a no-argument method of an object */
    static V get(Model m, State s, V o, String name) {
        String cls = m.in.classOf(s, o);
        for (String c = cls; c != null && m.w.get(c) != null; c = m.w.get(c).n.superName)
            for (String k : m.w.get(c).methods.keySet()) if (k.startsWith(name + "()")) {
                State t = s.copy();
                List<Interp.Out> r = m.in.invoke(t, Opcodes.INVOKEVIRTUAL, cls, name, k.substring(name.length()), new V[]{o});
                if (r.size() != 1 || r.get(0).exc != null) return new V.Top("Ljava/lang/Object;", name);
                return r.get(0).ret;
            }
        throw new Model.Anchor("method " + cls + "." + name + "()");
    }
    /** elements of a list */
    static List<V> elems(Model m, State s, V l) {
        if (l instanceof V.Null) return null;
        String cls = m.in.classOf(s, l);
        if (cls == null) return null;
        List<V> r = new ArrayList<>();
        List<Interp.Out> a = m.in.invoke(s.copy(), Opcodes.INVOKEINTERFACE, "java/util/List", "toArray", "()[Ljava/lang/Object;", new V[]{l});
        if (a.size() != 1 || a.get(0).exc != null || a.get(0).s.arr(a.get(0).ret) == null) return null;
        State u = a.get(0).s;
        for (V x : u.arr(a.get(0).ret).e) r.add(x);
        return r;
    }
    static String enumName(State s, V v) {
        State.Obj o = s.obj(v);
        if (o == null) return String.valueOf(v);
        return o.get("java/lang/Enum.name") instanceof V.Im m && m.str.isConst() ? m.str.constant() : "?";
    }
    static final Map<Integer, String> OP = Map.ofEntries(Map.entry(EQ, "EQUALS"), Map.entry(NE, "NOT_EQUAL"), Map.entry(GT, "GREATER_THAN"), Map.entry(GE, "GREATER_THAN_EQUAL"), Map.entry(LT, "LESS_THAN"), Map.entry(LE, "LESS_THAN_EQUAL"), Map.entry(ADD, "ADD"), Map.entry(SUBTRACT, "SUBTRACT"), Map.entry(MULTIPLY, "MULTIPLY"), Map.entry(DIVIDE, "DIVIDE"), Map.entry(MODULUS, "MODULUS"), Map.entry(EXPONENT, "EXPONENT"), Map.entry(CONTAINS_ALL, "CONTAINS_ALL"), Map.entry(CONTAINS_ANY, "CONTAINS_ANY"), Map.entry(AND, "AND"), Map.entry(OR, "OR"));
    static final String[] FN = {"MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED"};

    /** compares a parsed node with the expression it was parsed from */
    static final class Match {
        final Model m; final State s; final String def; int nodes;
        Match(Model m, State s, String def) { this.m = m; this.s = s; this.def = def; }

        private String cls(V n) { String c = n instanceof V.Null ? null : m.in.classOf(s, n); return c == null ? String.valueOf(n) : c.substring(c.lastIndexOf('/') + 1); }
        private String is(V n, String... want) { nodes++; for (String w : want) if (cls(n).equals(w)) return null; return "a " + cls(n) + " instead of a " + String.join(" or ", want); }
        private String text(V v, String want, String what) { return v instanceof V.Im x && x.cls.equals(Lib.S) && x.str.isConst() && x.str.constant().equals(want) ? null : what + " " + v + " instead of \"" + want + "\""; }
        private String named(V n, String getter, String want) { String k = enumName(s, get(m, s, n, getter)); return k.equals(want) ? null : getter + " " + k + " instead of " + want; }
        private static String first(Supplier<String>... l) { for (Supplier<String> x : l) { String r = x.get(); if (r != null) return r; } return null; }

        /** the value a literal token denotes */
        String value(V v, Tok t) {
            if (t.type == TRUE || t.type == FALSE) return v instanceof V.Im x && x.cls.equals(Lib.BOOLEAN) && x.num.isConst() && (x.num.constant().sign() != 0) == (t.type == TRUE) ? null : "value " + v + " instead of " + t;
            String want = litClass(t);
            if (!(v instanceof V.Im x) || !x.cls.equals(want)) return "value " + v + " of literal " + t + " instead of a " + want.substring(want.lastIndexOf('/') + 1);
            if (t.type == WORD) return x.str.equals((Str) t.tag) ? null : "text " + x.str + " instead of " + t.tag;
            if (t.type == APP_VERSION) return x.str.equals(t.text) ? null : "version " + x.str + " instead of " + t.text;
            return s.facts.sign(x.num.sub((Poly) t.tag)) == Facts.ZERO ? null : "value " + x.num + " instead of " + t.tag;
        }
        private String litClass(Tok t) {
            switch (type(t)) { case "INTEGER": return Lib.INTEGER; case "LONG": return Lib.LONG; case "DECIMAL": return Lib.BD; case "VERSION": return Lib.CV; case "DATE": return Lib.LD; case "DATETIME": return Lib.LDT; default: return Lib.S; }
        }
        String type(Tok t) {
            switch (t.type) {
                case INTEGER: return s.facts.itv((Poly) t.tag).within(Itv.INT) ? "INTEGER" : "LONG";
                case DECIMAL: return "DECIMAL"; case APP_VERSION: return "VERSION"; case TRUE: case FALSE: return "BOOLEAN"; case Dsl.DATE: return "DATE"; case Dsl.DATETIME: return "DATETIME";
                default: return "STRING";
            }
        }

        String operand(V n, E e) {
            while (e instanceof Par p) e = p.e;
            if (e instanceof Tok || e instanceof Empty) return leaf(n, e, false);
            return node(n, e);
        }
        private String leaf(V n, E e, boolean not) {
            if (e instanceof Empty) { String r = is(n, "FieldNode"); return r != null ? r : text(get(m, s, n, "getField"), nm(def), "field"); }
            Tok t = (Tok) e;
            if (t.type == FIELD) {
                String r = not ? is(n, "FieldNode", "UnaryNode") : is(n, "FieldNode");
                return r != null ? r : text(get(m, s, n, cls(n).equals("UnaryNode") ? "getValue" : "getField"), nm(t.text.constant()), "field");
            }
            return first(() -> is(n, "UnaryNode"), () -> named(n, "getDataType", type(t)), () -> value(get(m, s, n, "getValue"), t));
        }
        private String items(V n, List<E> es) {
            List<V> l = elems(m, s, get(m, s, n, "getItems"));
            if (l == null) return "unreadable items";
            if (l.size() != es.size()) return l.size() + " items instead of " + es.size();
            for (int i = 0; i < es.size(); i++) { String r = operand(l.get(i), es.get(i)); if (r != null) return "item " + (i + 1) + ": " + r; }
            return null;
        }
        private String in(String what, String r) { return r == null ? null : what + ": " + r; }

        String node(V n, E e0) {
            E e = e0;
            while (e instanceof Par p) e = p.e;
            E f = e;
            if (f instanceof Tok || f instanceof Empty) return leaf(n, f, false);
            if (f instanceof Cmp c) return first(() -> is(n, "ComparisonNode"), () -> named(n, "getOperator", OP.get(c.op)), () -> in("left of " + TXT.get(c.op), operand(get(m, s, n, "getLeft"), c.l)), () -> in("right of " + TXT.get(c.op), operand(get(m, s, n, "getRight"), c.r)), () -> c.r instanceof Tok t && t.type != FIELD ? named(n, "getDataType", type(t)) : null);
            if (f instanceof Ar a) return first(() -> is(n, "ArithmeticNode"), () -> named(n, "getOperator", OP.get(a.op)), () -> in("left of " + TXT.get(a.op), operand(get(m, s, n, "getLeft"), a.l)), () -> in("right of " + TXT.get(a.op), operand(get(m, s, n, "getRight"), a.r)));
            if (f instanceof Neg a) return first(() -> is(n, "ArithmeticNode"), () -> named(n, "getOperator", "UNARY"), () -> in("operand of -", operand(get(m, s, n, "getLeft"), a.e)), () -> get(m, s, n, "getRight") instanceof V.Null ? null : "a second operand of unary -");
            if (f instanceof Bin b) return first(() -> is(n, "BooleanNode"), () -> named(n, "getOperator", OP.get(b.op)), () -> in("left of " + TXT.get(b.op), operand(get(m, s, n, "getLeft"), b.l)), () -> in("right of " + TXT.get(b.op), operand(get(m, s, n, "getRight"), b.r)));
            if (f instanceof NotE b) { E x = b.e; while (x instanceof Par p) x = p.e; E y = x; return first(() -> is(n, "BooleanNode"), () -> named(n, "getOperator", "NOT"), () -> in("operand of NOT", y instanceof Tok ? leaf(get(m, s, n, "getLeft"), y, true) : operand(get(m, s, n, "getLeft"), y)), () -> get(m, s, n, "getRight") instanceof V.Null ? null : "a second operand of NOT"); }
            if (f instanceof In i) {
                if (!i.not) return first(() -> is(n, "InNode"), () -> text(get(m, s, n, "getField"), nm(i.field), "field"), () -> items(n, i.items));
                return first(() -> is(n, "BooleanNode"), () -> named(n, "getOperator", "NOT"), () -> { V k = get(m, s, n, "getLeft"); return first(() -> is(k, "InNode"), () -> text(get(m, s, k, "getField"), nm(i.field), "field"), () -> items(k, i.items)); });
            }
            if (f instanceof ArrE i) return first(() -> is(n, "ArrayNode"), () -> named(n, "getOperator", OP.get(i.op)), () -> text(get(m, s, n, "getField"), nm(i.field), "field"), () -> items(n, i.items));
            if (f instanceof Fun i) return first(() -> is(n, "ArithmeticFunctionNode"), () -> named(n, "getFunctionType", FN[i.fn - MIN]), () -> items(n, i.items));
            if (f instanceof ToE t) return first(() -> is(n, "NumericRangeNode"), () -> text(get(m, s, n, "getField"), nm(t.field), "field"), () -> in("lower bound", value(get(m, s, n, "getFromValue"), t.lo)), () -> in("upper bound", value(get(m, s, n, "getToValue"), t.hi)), () -> named(n, "getFromDataType", type(t.lo)), () -> named(n, "getToDataType", type(t.hi)));
            throw new IllegalStateException();
        }
    }

    /** does the expression contain an operand left out, or a condition inside a list? */
    static boolean empty(E e) { return any(e, x -> x instanceof Empty); }
    static boolean nothing(E e) { while (e instanceof Par p) e = p.e; return e instanceof Empty; }
    static boolean oddItem(E e) { return any(e, x -> list(x) != null && list(x).stream().anyMatch(i -> { while (i instanceof Par p) i = p.e; return i instanceof NotE || i instanceof Bin || i instanceof ArrE || i instanceof Cmp || i instanceof In || i instanceof ToE; })); }
    private static List<E> list(E e) { return e instanceof In i ? i.items : e instanceof ArrE a ? a.items : e instanceof Fun f ? f.items : null; }
    static boolean any(E e, Predicate<E> p) {
        if (p.test(e)) return true;
        for (E k : kids(e)) if (any(k, p)) return true;
        return false;
    }
    static List<E> kids(E e) {
        if (e instanceof Par p) return List.of(p.e);
        if (e instanceof NotE p) return List.of(p.e);
        if (e instanceof Neg p) return List.of(p.e);
        if (e instanceof Bin b) return List.of(b.l, b.r);
        if (e instanceof Cmp b) return List.of(b.l, b.r);
        if (e instanceof Ar b) return List.of(b.l, b.r);
        if (list(e) != null) return list(e);
        return List.of();
    }

    abstract static class Base extends StateChecks.Base {
        /** parses and compares */
        int parse(Ctx c, String rule, E e, String def) { return parse(c, rule, e, e, def); }
        /** parses text and compares the tree with e */
        int parse(Ctx c, String rule, E text, E e, String def) {
            int[] n = new int[1];
            guard(c, "parse " + text + (def == null ? "" : " default field '" + def + "'"), () -> {
                Model m = c.m; State s = m.start(); V x = m.expression(s, text);
                String key = "parse " + text + (def == null ? "" : " default field '" + def + "'");
                c.rules.add(rule);
                for (Model.Res r : m.parse(s, m.boolParser, x, def == null ? null : V.Im.str(Str.of(nm(def))))) {
                    c.partitions++;
                    boolean blank = def == null || def.isBlank();
                    String bad;
                    Match k = new Match(m, r.s, def);
                    if (blank && empty(e)) bad = r.kind.equals("failure") ? null : "an omitted operand without a default field gives " + r;
                    else if (r.kind.equals("failure") && (oddItem(e) || nothing(e))) bad = null;
                    else if (!r.kind.equals("value")) bad = "no tree: " + r;
                    else bad = k.node(r.v, e);
                    if (bad == null) for (State.Event v : r.s.eventList()) if (v.kind().equals("ALTERED")) bad = v.text();
                    c.obligations += Math.max(1, k.nodes); n[0] += k.nodes;
                    if (bad == null) continue;
                    if (r.tainted()) { c.undecidedScenarios++; c.undecided.add(key + ": " + r.taint()); continue; }
                    c.violation(key, rule, bad, Ctx.path(r.s));
                }
            });
            return n[0];
        }
    }

    /** forms of sub expressions */
    static List<E> forms() {
        Arg a = Arg.intL("a"), w = Arg.strL("w");
        return List.of(fld("p"), Arg.intL("i").e(), new Par(fld("q.r")), new Cmp(fld("c"), GT, a.e()), new Ar(fld("d"), SUBTRACT, a.e()), new Neg(fld("e")), new Fun(MIN, List.of(fld("f"), a.e(), new Neg(fld("ff")))), new In("g", false, List.of(a.e(), w.e())), new In("h", true, List.of(w.e(), fld("hh"))), new ToE("k", Arg.intL("lo").lit, Arg.decL("hi").lit), new ArrE("l", CONTAINS_ALL, List.of(w.e(), a.e())), new NotE(fld("n")), new Bin(fld("o"), OR, new Cmp(fld("oo"), EQ, w.e())), bool(true), new Par(new Ar(fld("r"), DIVIDE, new Par(new Ar(fld("s"), ADD, a.e())))), new NotE(new Par(new Bin(fld("t"), AND, fld("u")))), new Empty());
    }
    static List<E> literals() {
        return List.of(Arg.intL("i").e(), Arg.longL("l").e(), Arg.decL("d").e(), Arg.strL("w").e(), Arg.dqL("w").e(), Arg.verL("v").e(), bool(true), bool(false), Arg.dateL("t").e(), Arg.dtL("u").e(), Arg.num(0).e(), Arg.num(Integer.MAX_VALUE).e(), Arg.num(1L + Integer.MAX_VALUE).e(), Arg.num(Long.MAX_VALUE).e());
    }
    /** every construct holding the given sub expression, one construct per position */
    static List<E> around(E x) {
        Arg a = Arg.intL("a0");
        List<E> r = new ArrayList<>(List.of(new Par(x), new NotE(x), new Neg(x), new Cmp(x, LE, fld("y")), new Cmp(fld("y"), NE, x), new Ar(x, MODULUS, fld("y")), new Ar(fld("y"), EXPONENT, x), new Bin(x, AND, fld("y")), new Bin(fld("y"), OR, x),
            new In("y", false, List.of(x)), new In("y", true, List.of(a.e(), x, fld("z"))), new ArrE("y", CONTAINS_ANY, List.of(x, a.e())), new Fun(MAX, List.of(x)), new Fun(LEN, List.of(fld("z"), x, a.e()))));
        return r;
    }

    // ------------------------------------------------------------------------------------------------------------------ C17

    static final class Tree extends Base {
        String explanation() { return "Translation validation by abstract interpretation: the tree returned by parseExpression is compared, through its public getters, with the expression the parse tree was built from: node kinds, operators, fields, operands on their own side, list items in order, nothing lost, invented or exchanged. Every construct holds every form of sub expression in every position, and every pair of forms where it has two."; }
        void run(Ctx c) {
            String rule = "the parsed tree has the structure of the expression";
            int n = 0;
            List<E> fs = forms();
            for (E f : fs) { if (!(f instanceof Empty)) n += parse(c, rule, f, null); for (E g : around(f)) n += parse(c, rule, g, "dflt"); }
            for (E f : fs) for (E g : fs) {
                n += parse(c, rule, new Bin(f, AND, g), "dflt"); n += parse(c, rule, new Ar(f, SUBTRACT, g), "dflt"); n += parse(c, rule, new Cmp(f, LT, g), "dflt");
                n += parse(c, rule, new Fun(SUM, List.of(f, g)), "dflt"); n += parse(c, rule, new In("y", false, List.of(f, fld("m"), g)), "dflt");
                if (c.thorough) { n += parse(c, rule, new Bin(new Par(new Bin(f, OR, g)), AND, new NotE(f)), "dflt"); n += parse(c, rule, new ArrE("y", CONTAINS_ALL, List.of(f, g)), "dflt"); for (E h : around(f)) n += parse(c, rule, new Bin(h, OR, g), "dflt"); }
            }
            for (int op : OP.keySet()) {
                E e = op == CONTAINS_ALL || op == CONTAINS_ANY ? new ArrE("x", op, List.of(fld("y"), fld("z"))) : op == AND || op == OR ? new Bin(fld("x"), op, fld("y")) : op >= ADD && op <= EXPONENT ? new Ar(fld("x"), op, fld("y")) : new Cmp(fld("x"), op, fld("y"));
                n += parse(c, rule, e, null);
            }
            for (int f = MIN; f <= DAYS_ELAPSED; f++) n += parse(c, rule, new Fun(f, List.of(fld("x"), fld("y"), fld("z"))), null);
            // spellings of keywords
            String[][] ways = {{"AND", "and", "&&"}, {"OR", "or", "||"}, {"NOT", "not"}, {"IN", "in"}, {"TO", "to"}, {"CONTAINS_ALL", "contains_all"}, {"CONTAINS_ANY", "contains_any"}};
            List<String[]> all = new ArrayList<>(Arrays.asList(ways));
            for (int f = MIN; f <= DAYS_ELAPSED; f++) { String t = TXT.get(f); all.add(new String[]{t.toLowerCase(Locale.ROOT), t.toUpperCase(Locale.ROOT)}); }
            for (String[] w : all) {
                int t = 0; for (Map.Entry<Integer, String> k : TXT.entrySet()) if (k.getValue().equalsIgnoreCase(w[0])) t = k.getKey();
                for (String v : w) for (E f : List.of(fld("p"), new Cmp(fld("c"), GT, Arg.num(1).e()), new Fun(MIN, List.of(fld("f"), fld("g"))))) {
                    List<E> es = t == AND || t == OR ? List.of(new Bin(f, t, fld("y")), new NotE(new Par(new Bin(fld("y"), t, f)))) : t == NOT ? List.of(new NotE(new Par(f)), new In("x", true, List.of(f, fld("y")))) : t == IN ? List.of(new In("x", false, List.of(f)), new In("x", true, List.of(f, fld("y"))))
                        : t == TO ? List.of(new ToE("x", Arg.num(1).lit, Arg.num(9).lit)) : t == CONTAINS_ALL || t == CONTAINS_ANY ? List.of(new ArrE("x", t, List.of(f)), new ArrE("x", t, List.of(fld("y"), f))) : List.of(new Fun(t, List.of(f)), new Cmp(fld("y"), LT, new Fun(t, List.of(f, fld("y")))));
                    for (E e : es) n += parse(c, rule, new Alt(e, Map.of(t, v)), e, null);
                }
            }
            // many items, long chains
            for (int k : c.thorough ? new int[]{5, 8, 9, 11, 13, 17, 20, 33, 65, 130} : new int[]{5, 9, 13, 20, 40}) {
                List<E> items = new ArrayList<>(), names = new ArrayList<>();
                for (int i = 0; i < k; i++) { items.add(Arg.num(3L * i + 2).e()); names.add(fld("q" + i)); }
                for (List<E> l : List.of(items, names)) {
                    for (E e : List.of(new In("x", false, l), new In("x", true, l), new ArrE("x", CONTAINS_ANY, l), new ArrE("x", CONTAINS_ALL, l), new Fun(MAX, l), new Fun(SUM, l), new Cmp(new Fun(LEN, l), GT, fld("x")))) n += parse(c, rule, e, "dflt");
                }
                for (int op : new int[]{AND, OR}) for (boolean right : new boolean[]{false, true}) { E e = names.get(0), m = names.get(0); for (E f : names.subList(1, k)) { e = right ? new Bin(f, op, new Par(e)) : new Bin(e, op, f); m = right ? new Bin(new NotE(f), op == AND ? OR : AND, new Par(m)) : new Bin(m, f == names.get(k / 2) ? op : op == AND ? OR : AND, new Cmp(f, GT, fld("x"))); } n += parse(c, rule, e, "dflt"); n += parse(c, rule, m, "dflt"); }
                for (int op : new int[]{ADD, SUBTRACT, MULTIPLY, DIVIDE}) { E e = names.get(0); for (E f : names.subList(1, k)) e = new Ar(e, op, f); n += parse(c, rule, e, "dflt"); }
            }
            // the same operand more than once
            for (int k : c.thorough ? new int[]{2, 3, 4, 5, 6, 9, 17, 40} : new int[]{2, 3, 5, 6, 17}) for (int pattern = 0; pattern < 4; pattern++) {
                List<E> nums = new ArrayList<>(), names = new ArrayList<>(), words = new ArrayList<>(), sums = new ArrayList<>();
                for (int i = 0; i < k; i++) { int j = pattern == 0 ? 1 : pattern == 1 ? i / 2 : pattern == 2 ? i % 2 : i < k / 2 ? i : 0; nums.add(Arg.num(j).e()); names.add(fld("q" + j)); words.add(word(Str.of("w" + j), '\'')); sums.add(new Ar(fld("q" + j), ADD, Arg.num(1).e())); }
                for (List<E> l : List.of(nums, names, words, sums)) {
                    for (E e : List.of(new In("x", false, l), new ArrE("x", CONTAINS_ANY, l), new ArrE("x", CONTAINS_ALL, l), new Fun(AVG, l), new Fun(MODE, l), new Fun(LEN, l))) n += parse(c, rule, e, "dflt");
                    for (int op : new int[]{AND, OR, ADD, SUBTRACT, DIVIDE}) { E e = l.get(0); for (E f : l.subList(1, k)) e = op == AND || op == OR ? new Bin(e, op, new Cmp(f, EQ, f)) : new Ar(e, op, new Par(f)); n += parse(c, rule, e, "dflt"); }
                }
            }
            for (E f : fs) if (!(f instanceof Empty)) for (E e : List.of(new Bin(f, AND, f), new Bin(f, OR, new NotE(f)), new Cmp(f, EQ, f), new Cmp(f, LT, f), new Ar(f, SUBTRACT, f), new Ar(f, DIVIDE, f), new Fun(MIN, List.of(f, f)), new In("x", false, List.of(f, f)))) n += parse(c, rule, e, "dflt");
            // deep nesting
            for (int k : c.thorough ? new int[]{4, 7, 12, 20, 35, 60} : new int[]{4, 12, 30}) for (E f : List.of(fld("x"), Arg.num(3).e(), bool(true), new Cmp(fld("x"), GT, Arg.num(1).e()), new Fun(MIN, List.of(fld("x"), fld("y"))))) {
                E par = f, not = f, neg = f, fun = f, cmp = f, notp = f;
                for (int i = 0; i < k; i++) { par = new Par(par); not = new NotE(not instanceof Cmp ? new Par(not) : not); notp = new NotE(new Par(notp)); neg = new Neg(i == 0 ? new Par(neg) : neg); fun = new Fun(MAX + i % 3, List.of(fld("a" + i), fun, fld("b" + i))); cmp = new Bin(new Par(new Cmp(fld("c" + i), GT, fld("d" + i))), i % 2 == 0 ? AND : OR, new Par(cmp)); }
                for (E e : List.of(par, not, notp, neg, fun, cmp, new Bin(par, AND, not), new Ar(par, SUBTRACT, par), new In("x", false, List.of(par, fun)))) n += parse(c, rule, e, "dflt");
            }
            // three levels
            for (E f : fs) for (E g : around(f)) for (E h : c.thorough ? around(g) : List.of(new Bin(g, AND, f), new Cmp(f, GT, g), new Par(new NotE(g)))) n += parse(c, rule, h, "dflt");
            c.count("nodes compared", n);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C16

    static final class Literals extends Base {
        String explanation() { return "Translation validation by abstract interpretation: for every kind of literal with a symbolic value and every position a literal may stand in, the parsed tree holds the literal's type and exact value: whole numbers Integer if they fit, else Long, else a failure; decimals exactly; quoted texts without their own pair of quotes and otherwise unchanged; truth values, versions, dates and datetimes as written."; }
        void run(Ctx c) {
            String rule = "a literal has the type and value its token denotes";
            int n = 0;
            List<E> ls = new ArrayList<>(literals());
            ls.add(new Tok(TRUE, Str.of("TRUE"), true)); ls.add(new Tok(FALSE, Str.of("FALSE"), false));
            for (String b : new String[]{"", " ", "it's", "'", "''", "'a'", "\"b\"", "say \"hi\"", " padded ", "true", "12", "null", "a\\'b", "2020-01-01", "1.2.3", "TAB\tX", "AND", "\u00e9\u4e2d"}) { ls.add(word(Str.of(b), '\'')); ls.add(word(Str.of(b), '"')); }
            for (E l : ls) {
                n += parse(c, rule, l, null);
                for (E g : around(l)) n += parse(c, rule, g, null);
                for (E k : c.thorough ? ls : literals()) if (k != l) { n += parse(c, rule, new In("x", false, List.of(l, k)), null); n += parse(c, rule, new Cmp(l, EQ, k), null); n += parse(c, rule, new Fun(MAX, List.of(k, fld("y"), l)), null); }
            }
            for (Arg a : List.of(Arg.intL("a"), Arg.longL("a"), Arg.decL("a"), Arg.num(0))) for (Arg b : List.of(Arg.intL("b"), Arg.longL("b"), Arg.decL("b"), Arg.num(7))) n += parse(c, rule, new ToE("x", a.lit, b.lit), null);
            c.count("nodes compared", n);
            // dates that exist, and dates that do not
            String exist = "a date literal that is no date is a failure";
            for (String t : new String[]{"2024-02-29", "1970-01-01", "9999-12-31", "0001-01-01", "2024-12-31"}) for (Tok l : List.of(new Tok(DATE, Str.of(t), Poly.of(java.time.LocalDate.parse(t).toEpochDay())), new Tok(DATETIME, Str.of(t + " 00:00:00"), Poly.of(java.time.LocalDate.parse(t).toEpochDay()).scale(Rat.of(86400))), new Tok(DATETIME, Str.of(t + " 23:59:59"), Poly.of(java.time.LocalDate.parse(t).toEpochDay()).scale(Rat.of(86400)).add(Poly.of(86399)))))
                for (E e : List.of(l, new Cmp(fld("x"), GT, l), new In("x", false, List.of(l)))) n += parse(c, rule, e, null);
            for (String t : new String[]{"2023-02-29", "2024-02-30", "2024-04-31", "2024-13-01", "2024-00-10", "2024-01-00", "2024-01-32", "9999-99-99", "2024-01-01 24:00:00", "2024-01-01 10:60:00", "2024-01-01 10:00:60", "2023-02-30 10:00:00", "2024-13-01 00:00:00"}) {
                Tok l = new Tok(t.length() > 10 ? DATETIME : DATE, Str.of(t), null);
                for (E e : List.of(l, new Cmp(fld("x"), GT, l), new Cmp(l, EQ, fld("x")), new In("x", false, List.of(Arg.num(1).e(), l)), new NotE(l), new Fun(DAYS_ELAPSED, List.of(l)))) c.scenario("parse " + e, exist, s -> c.m.parse(s, c.m.boolParser, c.m.expression(s, e), null), q -> Expect.FAIL);
            }
            // beyond long
            Poly big = Poly.var("big", new Itv(Rat.of(Long.MAX_VALUE), true, null, true), true);
            for (E e : List.of(ilit(big), new Cmp(fld("x"), GT, ilit(big)), new In("x", false, List.of(Arg.num(1).e(), ilit(big))), new Ar(ilit(big), ADD, fld("x")), new NotE(ilit(big)), new ToE("x", ilit(big), ilit(big)), new Fun(MIN, List.of(ilit(big)))))
                c.scenario("parse " + e, "a whole number beyond long is never replaced by another value", s -> c.m.parse(s, c.m.boolParser, c.m.expression(s, e), null), q -> Expect.FAIL);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C18

    static final class DefaultField extends Base {
        String explanation() { return "Translation validation and abstract interpretation: an operand left out stands for the default field in every position and in every construct, a written field always for itself, whatever the default field is; without a default field (none, empty or blank) an omitted operand is a failure. The same for whole evaluations with symbolic data under both names."; }
        void run(Ctx c) {
            String rule = "an omitted operand is the default field, a written one is itself";
            int n = 0;
            E o = new Empty();
            List<E> es = new ArrayList<>(around(o));
            for (E f : forms()) { es.add(new Bin(new Cmp(o, GT, Arg.num(1).e()), AND, f)); es.add(new Bin(f, OR, new Cmp(o, LT, Arg.num(1).e()))); es.add(new Cmp(o, NE, f)); es.add(new Ar(o, ADD, f)); }
            for (E f : forms()) if (!(f instanceof Empty)) es.add(f);
            for (E e : es) for (String def : new String[]{null, "f", "", "   ", "a.b", "x", "a.x", "x.b", "X", "xx", "y.x.y", "null", "a.y"}) n += parse(c, rule, e, def);
            c.count("nodes compared", n);
            Arg f = Arg.intD("f"), x = Arg.longD("x"), y = Arg.intD("y");
            Ctx.DataSpec d = Ctx.data(f, x, y);
            String r2 = "evaluation with a default field reads that field where the operand is omitted";
            for (int op : Spec.CMP) {
                c.bool(r2, new Cmp(o, op, Arg.num(7).e()), d, "f", q -> Expect.bool(Spec.holds(op, q.sign(f.p.sub(Poly.of(7))))));
                c.bool(r2, new Cmp(o, op, y.e()), d, "x", q -> Expect.bool(Spec.holds(op, q.sign(x.p.sub(y.p)))));
                c.bool(r2, new Cmp(x.e(), op, Arg.num(7).e()), d, "f", q -> Expect.bool(Spec.holds(op, q.sign(x.p.sub(Poly.of(7))))));
            }
            c.bool(r2, new Bin(new Cmp(o, GT, Arg.num(1).e()), AND, new Cmp(x.e(), LT, Arg.num(9).e())), d, "f", q -> Expect.bool(q.sign(f.p.sub(Poly.of(1))) > 0 && q.sign(x.p.sub(Poly.of(9))) < 0));
            c.bool(r2, new Cmp(o, GT, new Ar(y.e(), ADD, x.e())), d, "f", q -> Expect.bool(q.sign(f.p.sub(y.p.add(x.p))) > 0));
            for (E e : List.of(new In("x", false, List.of(Arg.num(1).e(), y.e())), new In("x", true, List.of(Arg.num(1).e(), y.e())))) c.bool(r2, e, d, "f", q -> Expect.bool(((In) e).not != (q.zero(x.p.sub(Poly.of(1))) || q.zero(x.p.sub(y.p)))));
            c.bool(r2, new ToE("x", Arg.num(3).lit, Arg.num(9).lit), d, "f", q -> Expect.bool(q.within(x.p, Itv.of(3, 9))));
            for (String g : new String[]{"gone", null, "", " "}) c.bool(r2, new Cmp(o, GT, Arg.num(1).e()), d, g, q -> Expect.FAIL);
            c.bool(r2, new Cmp(fld("gone"), GT, Arg.num(1).e()), d, "f", q -> Expect.FAIL);
            c.bool(r2, new In("gone", false, List.of(Arg.num(1).e())), d, "f", q -> Expect.FAIL);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C19

    static final class Nested extends Base {
        String explanation() { return "Abstract interpretation: a field name with dots is looked up through nested maps, one segment per level, never another key; with decoy entries (same last or first segment, the full dotted text as a key, entries of sibling maps) holding other symbolic values, and with every level absent, null or not a map. Every construct that reads a field."; }
        void run(Ctx c) {
            Model m = c.m;
            String rule = "a dotted name reads the value reached by following its segments";
            for (String name : new String[]{"a", "a.b", "a.b.c", "a.b.c.d", "a.a", "a.b.a", "a.a.a.a.a", "a.b.c.d.e.f", "a.0", "a.1.b", "a.b.2", "p.q.r.s.t.u.v.w.x", "k1.k2.k3.k4.k5.k6.k7.k8.k9.k10.k11.k12"}) {
                Arg v = Arg.intD("v");
                Ctx.DataSpec full = (s, d) -> build(m, s, d, name.split("\\."), 0, v.mk.apply(s));
                reads(c, rule, name, "", full, v);
                String[] seg = name.split("\\.");
                for (int cut = 0; cut < seg.length; cut++) if (c.thorough || seg.length < 8 || cut % 3 == 2 || cut == seg.length - 1) for (String how : new String[]{"absent", "null", "text", "number", "list", "array", "list of maps", "array of maps"}) {
                    int k = cut; String h = how;
                    if (k == seg.length - 1 && !h.equals("absent") && !h.equals("null")) continue;
                    Ctx.DataSpec broken = (s, d) -> broken(m, s, d, seg, 0, k, h);
                    reads(c, rule, name, " with " + seg[k] + " at level " + (k + 1) + " " + h, broken, null);
                }
            }
        }
        /** decoys at every level */
        private static void build(Model m, State s, Model.Data d, String[] seg, int i, V v) {
            decoys(m, s, d, seg, i);
            if (i == seg.length - 1) { d.put(seg[i], v); return; }
            Model.Data k = new Model.Data(seg[i] + "#" + i);
            build(m, s, k, seg, i + 1, v);
            d.put(seg[i], k.build(s));
        }
        private static void decoys(Model m, State s, Model.Data d, String[] seg, int i) {
            Set<String> used = new HashSet<>(); used.add(seg[i]);
            String rest = String.join(".", Arrays.copyOfRange(seg, i, seg.length)), all = String.join(".", seg);
            for (String k : new String[]{seg[seg.length - 1], seg[0], all, rest, "b", "A", seg[i] + "x", ""}) if (used.add(k)) d.put(k, V.Im.num(Lib.INTEGER, Arg.ip("decoy " + k + i)));
        }
        private static void broken(Model m, State s, Model.Data d, String[] seg, int i, int cut, String how) {
            decoys(m, s, d, seg, i);
            if (i == cut) {
                if (how.equals("null")) d.put(seg[i], V.NULL);
                if (how.equals("text")) d.put(seg[i], V.Im.str(Str.atom("~t")));
                if (how.equals("number")) d.put(seg[i], V.Im.num(Lib.INTEGER, Arg.ip("n")));
                List<V> l = new ArrayList<>();
                for (int j = 0; j < 3; j++) { V o = V.Im.num(Lib.INTEGER, Arg.ip("n" + j)); if (how.endsWith("maps")) { Model.Data k = new Model.Data(seg[i] + "!" + j); for (int q = i + 1; q < seg.length; q++) k.put(String.join(".", Arrays.copyOfRange(seg, q, seg.length)), o); if (i + 1 < seg.length) k.put(seg[i + 1], o); o = k.build(s); } l.add(o); }
                if (how.startsWith("list")) d.put(seg[i], m.arrayList(s, l));
                if (how.startsWith("array")) d.put(seg[i], s.array("[Ljava/lang/Object;", l.toArray(new V[0])));
                return;
            }
            Model.Data k = new Model.Data(seg[i] + "#" + i);
            broken(m, s, k, seg, i + 1, cut, how);
            d.put(seg[i], k.build(s));
        }
        private void reads(Ctx c, String rule, String name, String how, Ctx.DataSpec d, Arg v) {
            E x = fld(name);
            Function<Function<Q, Expect>, Function<Q, Expect>> w = f -> v == null ? q -> Expect.FAIL : f;
            String[] tag = how.isEmpty() ? new String[0] : new String[]{how};
            c.bool(rule, new Cmp(x, GT, Arg.num(7).e()), d, w.apply(q -> Expect.bool(q.sign(v.p.sub(Poly.of(7))) > 0)), (Object[]) tag);
            c.bool(rule, new Cmp(Arg.num(7).e(), GT, x), d, w.apply(q -> Expect.bool(q.sign(v.p.sub(Poly.of(7))) < 0)), (Object[]) tag);
            c.bool(rule, new In(name, false, List.of(Arg.num(7).e())), d, w.apply(q -> Expect.bool(q.zero(v.p.sub(Poly.of(7))))), (Object[]) tag);
            c.bool(rule, new In(name, true, List.of(Arg.num(7).e())), d, w.apply(q -> Expect.bool(!q.zero(v.p.sub(Poly.of(7))))), (Object[]) tag);
            c.bool(rule, new ToE(name, Arg.num(3).lit, Arg.num(9).lit), d, w.apply(q -> Expect.bool(q.within(v.p, Itv.of(3, 9)))), (Object[]) tag);
            c.bool(rule, new Cmp(x, EQ, fld("null")), d, q -> Expect.bool(v == null), (Object[]) tag);
            c.arith(rule, x, d, w.apply(q -> Expect.num(v.p)), (Object[]) tag);
            c.arith(rule, new Ar(x, SUBTRACT, Arg.num(1).e()), d, w.apply(q -> Expect.num(v.p.sub(Poly.of(1)))), (Object[]) tag);
            c.arith(rule, new Neg(x), d, w.apply(q -> Expect.num(v.p.neg())), (Object[]) tag);
            c.arith(rule, new Fun(MAX, List.of(Arg.num(1).e(), x)), d, w.apply(q -> Expect.num(q.sign(v.p.sub(Poly.of(1))) > 0 ? v.p : Poly.of(1))), (Object[]) tag);
            c.bool(rule, x, d, q -> Expect.FAIL, (Object[]) tag);
            c.bool(rule, new ArrE(name, CONTAINS_ANY, List.of(Arg.num(7).e())), d, q -> Expect.FAIL, (Object[]) tag);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ registries

    static final String C = Model.PKG + "constant/", DF = Model.PKG + "datatype/DataTypeFactory", OF = Model.PKG + "operator/OperatorFactory", FF = Model.PKG + "function/FunctionFactory";
    static final String CMPOP = Model.PKG + "operator/comparison/AbstractOperator", AROP = Model.PKG + "operator/arithmetic/AbstractOperator", FUN = Model.PKG + "function/arithmetic/AbstractFunction", DT = Model.PKG + "datatype/AbstractDataType";

    static V stat(Model m, State s, String cls, String name, String desc, V... a) {
        World.M k = m.w.resolve(cls, name, desc);
        if (k == null) throw new Model.Anchor("method " + cls + "." + name + desc);
        List<Interp.Out> r = m.in.invoke(s, Opcodes.INVOKESTATIC, cls, name, desc, a);
        return r.size() != 1 ? new V.Top("Ljava/lang/Object;", name) : r.get(0).exc != null ? new V.Top("exception", name) : r.get(0).ret;
    }
    static List<V> constants(Model m, State s, String en) {
        V a = stat(m, s.copy(), en, "values", "()[L" + en + ";");
        if (s.arr(a) == null) { // the array was allocated in the copy
            State t = s.copy(); List<Interp.Out> r = m.in.invoke(t, Opcodes.INVOKESTATIC, en, "values", "()[L" + en + ";", new V[0]);
            List<V> l = new ArrayList<>(); for (V x : r.get(0).s.arr(r.get(0).ret).e) l.add(x); return l;
        }
        return Arrays.asList(s.arr(a).e);
    }
    /** static factory result; the state it was computed in is dropped (the call must not matter) */
    static V pure(Model m, State s, String cls, String name, String desc, V... a) { return stat(m, s.copy(), cls, name, desc, a); }
    static String simple(String c) { return c == null ? "null" : c.substring(c.lastIndexOf('/') + 1); }
    /** concrete repository classes below a class */
    static List<String> concrete(Model m, String top) {
        if (m.w.get(top) == null) throw new Model.Anchor("class " + top);
        List<String> r = new ArrayList<>();
        for (String n : m.w.repoNames) if ((m.w.get(n).n.access & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_INTERFACE | Opcodes.ACC_SYNTHETIC)) == 0 && m.w.isSub(n, top) && !n.contains("$")) r.add(n);
        return r;
    }

    // ------------------------------------------------------------------------------------------------------------------ C14

    static final class Registries extends Base {
        String explanation() { return "Enumeration of the registries as they are after construction (abstract heap): every constant of Operator, FunctionType and DataType is registered under itself, with an entry that reports that constant; every concrete operator, function and data type class is registered exactly once; symbols are distinct, are the documented ones, and resolve, in any letter case and to nothing else, to their own constant; registries handed out as lists are copies."; }
        void run(Ctx c) {
            Model m = c.m; State s = m.start();
            String rule = "every constant is registered under itself, exactly once";
            c.rules.add(rule); c.scenarios++;
            // data types
            check(c, s, C + "DataType", k -> pure(m, s, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", k), "getDataType", DT, new HashSet<>());
            check(c, s, C + "FunctionType", k -> pure(m, s, FF, "getArithmeticFunction", "(L" + C + "FunctionType;)L" + FUN + ";", k), "getFunctionType", FUN, new HashSet<>());
            // operators: logical and arithmetic
            Map<String, String> symbols = new TreeMap<>();
            Set<String> seenL = new TreeSet<>(), seenA = new TreeSet<>();
            for (V k : constants(m, s, C + "Operator")) {
                String n = enumName(s, k);
                V l = pure(m, s, OF, "getLogicalOperator", "(L" + C + "Operator;)L" + CMPOP + ";", k), a = pure(m, s, OF, "getArithmeticOperator", "(L" + C + "Operator;)L" + AROP + ";", k);
                c.obligations += 2;
                boolean hl = !(l instanceof V.Null), ha = !(a instanceof V.Null);
                if (hl == ha) { c.violation("operator " + n, rule, "operator " + n + (hl ? " is both a comparison and an arithmetic operator" : " has no implementation"), List.of()); continue; }
                V o = hl ? l : a;
                String own = enumName(s, get(m, s, o, "getOperator"));
                if (!own.equals(n)) c.violation("operator " + n, rule, "operator " + n + " is implemented by " + simple(m.in.classOf(s, o)) + ", which reports " + own, List.of());
                (hl ? seenL : seenA).add(m.in.classOf(s, o));
                V sym = get(m, s, o, "getSymbol");
                String y = sym instanceof V.Im x && x.cls.equals(Lib.S) && x.str.isConst() ? x.str.constant() : "?";
                String want = SYM.get(n);
                if (want != null && !want.equalsIgnoreCase(y)) c.violation("symbol " + n, "symbols are the documented ones", "operator " + n + " has the symbol '" + y + "' instead of '" + want + "'", List.of());
                if (want == null && !y.equals("-")) c.obligations++;
                String other = n.equals("UNARY") ? null : symbols.put(y.toLowerCase(Locale.ROOT), n);
                if (other != null) c.violation("symbol " + n, "symbols are distinct", "operators " + other + " and " + n + " share the symbol '" + y + "'", List.of());
                if (!n.equals("UNARY")) for (String q : new TreeSet<>(List.of(y, y.toUpperCase(Locale.ROOT), y.toLowerCase(Locale.ROOT), mixed(y)))) { c.obligations++; resolves(c, s, "getOperatorFromSymbol", "Operator", q, n); }
            }
            for (String q : List.of("", "==", "<>", "=>", "and", "null", "x", " =", "= ", "!", "**", "CONTAINS", "contains_any ", "I", "<= ")) { c.obligations++; if (!symbols.containsKey(q.toLowerCase(Locale.ROOT))) resolves(c, s, "getOperatorFromSymbol", "Operator", q, null); }
            all(c, seenL, CMPOP); all(c, seenA, AROP);
            for (V k : constants(m, s, C + "FunctionType")) { String n = enumName(s, k); for (String q : List.of(n, n.toLowerCase(Locale.ROOT), mixed(n))) { c.obligations++; resolves(c, s, "getArrayFunctionFromSymbol", "FunctionType", q, n); } }
            for (String q : List.of("", "mi", "minn", " min", "IN", "ABS", "days elapsed", "null")) { c.obligations++; resolves(c, s, "getArrayFunctionFromSymbol", "FunctionType", q, null); }
            for (String f : FN) if (constants(m, s, C + "FunctionType").stream().noneMatch(k -> enumName(s, k).equals(f))) c.violation("function " + f, rule, "function " + f + " is gone", List.of());
            for (String f : OP.values()) if (!f.equals("AND") && !f.equals("OR") && constants(m, s, C + "Operator").stream().noneMatch(k -> enumName(s, k).equals(f))) c.violation("operator " + f, rule, "operator " + f + " is gone", List.of());
            // lists handed out
            String r2 = "lists handed out contain every entry and are not the registry itself"; c.rules.add(r2);
            list(c, s, r2, "getAllLogicalOperators", seenL); list(c, s, r2, "getAllArithmeticOperators", seenA);
        }
        static final Map<String, String> SYM = Map.ofEntries(Map.entry("EQUALS", "="), Map.entry("NOT_EQUAL", "!="), Map.entry("GREATER_THAN", ">"), Map.entry("GREATER_THAN_EQUAL", ">="), Map.entry("LESS_THAN", "<"), Map.entry("LESS_THAN_EQUAL", "<="), Map.entry("IN", "IN"), Map.entry("ADD", "+"), Map.entry("SUBTRACT", "-"), Map.entry("MULTIPLY", "*"), Map.entry("DIVIDE", "/"), Map.entry("MODULUS", "%"), Map.entry("EXPONENT", "^"), Map.entry("CONTAINS_ALL", "CONTAINS_ALL"), Map.entry("CONTAINS_ANY", "CONTAINS_ANY"));
        private static String mixed(String s) { StringBuilder b = new StringBuilder(); for (int i = 0; i < s.length(); i++) b.append(i % 2 == 0 ? Character.toUpperCase(s.charAt(i)) : Character.toLowerCase(s.charAt(i))); return b.toString(); }
        private void check(Ctx c, State s, String en, Function<V, V> entry, String self, String top, Set<String> seen) {
            for (V k : constants(c.m, s, en)) {
                String n = enumName(s, k); c.obligations++;
                V e = entry.apply(k);
                if (e instanceof V.Null) { c.violation(simple(en) + " " + n, "every constant is registered under itself, exactly once", simple(en) + "." + n + " has no implementation", List.of()); continue; }
                String own = enumName(s, get(c.m, s, e, self));
                if (!own.equals(n)) c.violation(simple(en) + " " + n, "every constant is registered under itself, exactly once", simple(en) + "." + n + " is implemented by " + simple(c.m.in.classOf(s, e)) + ", which reports " + own, List.of());
                seen.add(c.m.in.classOf(s, e));
            }
            all(c, seen, top);
        }
        private void all(Ctx c, Set<String> seen, String top) {
            for (String k : concrete(c.m, top)) { c.obligations++; boolean sub = seen.contains(k); for (String o : seen) if (c.m.w.isSub(o, k)) sub = true; if (!sub) c.violation("class " + k, "every concrete class is registered", simple(k) + " is not registered", List.of()); }
        }
        private void resolves(Ctx c, State s, String f, String en, String text, String want) {
            State t = s.copy();
            List<Interp.Out> r = c.m.in.invoke(t, Opcodes.INVOKESTATIC, C + en, f, "(Ljava/lang/String;)Ljava/util/Optional;", new V[]{V.Im.str(Str.of(text))});
            for (Interp.Out o : r) {
                if (o.exc != null) { c.violation(f + " " + text, "symbols resolve to their own constant", f + "(\"" + text + "\") throws", List.of()); continue; }
                V v = o.s.obj(o.ret) == null ? V.NULL : o.s.obj(o.ret).get("java/util/Optional.value");
                String got = v == null || v instanceof V.Null ? null : enumName(o.s, v);
                if (v instanceof V.Top) { c.undecided.add(f + " " + text); continue; }
                if (!Objects.equals(got, want)) c.violation(f + " " + text, "symbols resolve to their own constant", f + "(\"" + text + "\") is " + got + " instead of " + want, List.of());
            }
        }
        private void list(Ctx c, State s, String rule, String f, Set<String> seen) {
            State t = s.copy(); t.sharedBelow = t.next;
            List<Interp.Out> r = c.m.in.invoke(t, Opcodes.INVOKESTATIC, OF, f, "()Ljava/util/List;", new V[0]);
            for (Interp.Out o : r) {
                c.obligations++;
                List<V> l = o.exc != null ? null : elems(c.m, o.s, o.ret);
                Set<String> got = new TreeSet<>(); if (l != null) for (V v : l) got.add(c.m.in.classOf(o.s, v));
                if (l == null || !got.equals(seen)) c.violation(f, rule, f + " lists " + got + " instead of " + seen, List.of());
                else if (o.ret instanceof V.Ref x && x.id < t.sharedBelow && !String.valueOf(c.m.in.classOf(o.s, o.ret)).contains("Unmodifiable")) c.violation(f, rule, f + " hands out a shared list that callers can change", List.of());
            }
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C15

    static final class Types extends Base {
        String explanation() { return "Abstract interpretation of every registered data type over every kind of value (symbolic numbers of all widths, texts, constant odd texts, versions, truth values, dates, datetimes, collections): isValid holds exactly when getValue yields a value, the value is an instance of the type's class and denotes exactly the given value; strict validity is being an instance of the class; list containers are valid exactly when all elements are and convert element by element in order."; }
        static final Map<String, String> CLS = Map.of("STRING", Lib.S, "INTEGER", Lib.INTEGER, "LONG", Lib.LONG, "DECIMAL", Lib.BD, "VERSION", Lib.CV, "BOOLEAN", Lib.BOOLEAN, "DATE", Lib.LD, "DATETIME", Lib.LDT);
        static final String[] TEXTS = {"2024-02-29", "2023-02-29", "2024-12-31", "2024-04-31", "2024-2-9", "24-02-29", " 2024-02-29", "2024-02-29 23:59:59", "2024-02-30 00:00:00", "2024-02-29 24:00:00", "2024-02-29T10:00:00", "2024-02-29 10:00", "20240229", "", " ", "abc", "12", "-7", "+5", "12.0", "12.50", "1e3", "00012", "-0", " 5", "5 ", "0x10", "1_000", "2147483647", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "1e400", "NaN", "Infinity", "1.5d", "10L", "true", "TRUE", "tRuE", "false", "truex", "yes", "1", "null", " true", "true ", "\tfalse\n", "FALSE ", "t", "f", "0", "on", "'true'", "\t12", "12\n", "- 7", "1 000", "1,000", "1.000,5", "1 .5", ".5", "5.", "1e-3", "1E+2", "2024-02-29 ", "2024/02/29", "2024-02-29 23:59:59 ", " 2024-02-29 23:59:59", "2024-02-29  23:59:59", "2024-02-29 23:59:59.5", "2024-02-29Z", "+2024-02-29", "02-29-2024"};
        void run(Ctx c) {
            Model m = c.m;
            for (V k : constants(m, m.start(), C + "DataType")) {
                String T = enumName(m.base, k);
                if (!CLS.containsKey(T)) continue;
                for (Arg a : FailChecks.kinds("x")) one(c, k, T, a.label, a.mk, a.numeral ? Arg.of("x", "STRING", a.label, a.p, a.text, null) : a);
                for (Arg a : List.of(Arg.intTextD("x"), Arg.decTextD("x"))) one(c, k, T, a.label, a.mk, a);
                for (String t : TEXTS) one(c, k, T, "text \"" + t + "\"", s -> V.Im.str(Str.of(t)), null);
                for (String o : new String[]{"list of Integer", "empty list", "map", "foreign object"}) one(c, k, T, o, s -> StateChecks.coll(m, s, o), null);
            }
            containers(c);
        }
        private static V opt(State s, V o) { State.Obj x = s.obj(o); return x == null ? new V.Top("Ljava/lang/Object;", "result") : x.get("java/util/Optional.value"); }
        private void one(Ctx c, V k, String T, String label, Function<State, V> mk, Arg a) {
            Model m = c.m;
            guard(c, T + " of " + label, () -> {
                State s = m.start(); V v = mk.apply(s);
                V dt = pure(m, s, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", k);
                String cls = m.in.classOf(s, dt), key = T + " of " + label;
                if (cls == null) throw new Model.Anchor("registered data type " + T);
                String rule = "validity and conversion agree", exact = "conversion is exact", strict = "strict validity is being an instance";
                c.rules.addAll(List.of(rule, exact, strict));
                for (Interp.Out v1 : m.in.invoke(s.copy(), Opcodes.INVOKEVIRTUAL, cls, "isValid", "(Ljava/lang/Object;)Z", new V[]{dt, v})) {
                    if (v1.exc != null) { c.obligations++; c.violation(key, rule, "isValid throws " + simple(m.in.classOf(v1.s, v1.exc)), Ctx.path(v1.s)); continue; }
                    for (Interp.Out v2 : m.in.invoke(v1.s.copy(), Opcodes.INVOKEVIRTUAL, cls, "getValue", "(Ljava/lang/Object;)Ljava/util/Optional;", new V[]{dt, v})) {
                        c.obligations++; c.partitions++;
                        Model.Res t = new Model.Res(v2.s, "value", V.NULL, null, v2);
                        if (v2.exc != null) { bad(c, t, key, rule, "getValue throws " + simple(m.in.classOf(v2.s, v2.exc))); continue; }
                        V x = opt(v2.s, v2.ret);
                        boolean has = !(x instanceof V.Null);
                        if (x instanceof V.Top || !(v1.ret instanceof V.I b)) { bad(c, t, key, rule, "unknown outcome"); continue; }
                        int valid = v2.s.facts.sign(b.p);
                        if (has ? (valid & Facts.ZERO) != 0 : valid != Facts.ZERO) { bad(c, t, key, rule, "isValid is " + (valid == Facts.ZERO ? "false" : "true") + " but getValue is " + (has ? "" + x : "empty")); continue; }
                        if (has && !CLS.get(T).equals(m.in.classOf(v2.s, x))) { bad(c, t, key, exact, "converted to " + x); continue; }
                        exact(c, t, key, exact, T, v, a, has, x);
                    }
                    for (int st = 0; st < 2; st++) for (Interp.Out v3 : m.in.invoke(v1.s.copy(), Opcodes.INVOKEVIRTUAL, cls, "isValid", "(Ljava/lang/Object;Z)Z", new V[]{dt, v, V.I.of(st)})) {
                        c.obligations++;
                        Model.Res t = new Model.Res(v3.s, "value", V.NULL, null, v3);
                        if (v3.exc != null || !(v3.ret instanceof V.I g)) { bad(c, t, key, strict, "isValid(value, " + (st == 1) + ") has no result"); continue; }
                        int sg = v3.s.facts.sign(g.p);
                        if (st == 1) { boolean inst = CLS.get(T).equals(m.in.classOf(v3.s, v)); if (inst ? (sg & Facts.ZERO) != 0 : sg != Facts.ZERO) bad(c, t, key, strict, "strict isValid is " + !inst); }
                        else if (v3.s.facts.sign(g.p.sub(((V.I) v1.ret).p)) != Facts.ZERO && (sg & v3.s.facts.sign(((V.I) v1.ret).p) & ~0) == 0) bad(c, t, key, strict, "isValid(value, false) differs from isValid(value)");
                    }
                }
            });
        }
        private static void bad(Ctx c, Model.Res r, String key, String rule, String what) {
            if (r.tainted()) { c.undecided.add(key + ": " + r.taint()); c.undecidedScenarios++; return; }
            c.violation(key, rule, what + (r.s.facts.toString().isEmpty() ? "" : " when " + r.s.facts), Ctx.path(r.s));
        }
        private void exact(Ctx c, Model.Res r, String key, String rule, String T, V v, Arg a, boolean has, V x) {
            Facts f = r.s.facts;
            V.Im vi = v instanceof V.Im q ? q : null, xi = has ? (V.Im) x : null;
            if (CLS.get(T).equals(c.m.in.classOf(r.s, v))) { if (!has || !x.equals(v)) bad(c, r, key, rule, "an instance of the class becomes " + (has ? x : "empty")); return; }
            Poly p = a != null && (a.num() || a.numeral) ? a.p : null; boolean must = p != null;
            if (vi != null && vi.cls.equals(Lib.S) && vi.str.isConst()) {
                String t = vi.str.constant();
                try { p = Poly.of(Rat.of(new java.math.BigDecimal(t))); must = true; } catch (NumberFormatException e) { p = null; if (has && List.of("INTEGER", "LONG", "DECIMAL").contains(T)) bad(c, r, key, rule, "a text that is no number becomes " + x); }
                if (T.equals("BOOLEAN")) { Boolean w = t.equalsIgnoreCase("true") ? Boolean.TRUE : t.equalsIgnoreCase("false") ? Boolean.FALSE : null; if (has != (w != null) || has && (xi.num.constant().sign() != 0) != w) bad(c, r, key, rule, "text '" + t + "' becomes " + (has ? x : "empty")); return; }
                if (T.equals("DATE") || T.equals("DATETIME")) {
                    Poly w = null;
                    try { w = T.equals("DATE") ? Poly.of(java.time.LocalDate.parse(t, java.time.format.DateTimeFormatter.ISO_LOCAL_DATE).toEpochDay()) : t.matches("....-..-.. ..:..:..") ? Poly.of(java.time.LocalDateTime.parse(t.replace(' ', 'T')).toEpochSecond(java.time.ZoneOffset.UTC)) : null; } catch (java.time.DateTimeException e) { /* no date */ }
                    if (has != (w != null) || has && f.sign(xi.num.sub(w)) != Facts.ZERO) bad(c, r, key, rule, "text '" + t + "' becomes " + (has ? x : "empty"));
                    return;
                }
            }
            switch (T) {
                case "INTEGER": case "LONG": {
                    if (!must) { if (has && a != null && !a.kind.equals("STRING")) bad(c, r, key, rule, "a " + a.label + " becomes " + x); return; }
                    Itv w = T.equals("INTEGER") ? Itv.INT : Itv.LONG; Poly q = p;
                    if (has) { if (f.sign(xi.num.sub(p)) != Facts.ZERO) bad(c, r, key, rule, "the number " + p + " becomes " + x); return; }
                    Q.each(c.m, f, k -> { return k.integral(q) && k.within(q, w) ? Expect.FAIL : Expect.ANY; }, (k, e) -> { if (e == Expect.FAIL) bad(c, r, key, rule, "the number " + q + " is rejected although it fits"); return e != Expect.FAIL; });
                    return;
                }
                case "DECIMAL": if (must) { if (!has) bad(c, r, key, rule, "the number " + p + " is rejected"); else if (f.sign(xi.num.sub(p)) != Facts.ZERO) bad(c, r, key, rule, "the number " + p + " becomes " + x); } else if (has && a != null && !a.kind.equals("STRING")) bad(c, r, key, rule, "a " + a.label + " becomes " + x); return;
                case "STRING": if (!has) bad(c, r, key, rule, "every value has a text"); else if (a != null && a.text != null && a.num() && !a.kind.equals("DECIMAL") && !xi.str.equals(a.text)) bad(c, r, key, rule, "text " + xi.str + " instead of " + a.text); return;
                case "VERSION": if (vi != null && vi.cls.equals(Lib.S)) { if (!has || !xi.str.equals(vi.str)) bad(c, r, key, rule, "text " + vi.str + " becomes " + (has ? x : "empty")); } return;
                case "DATE": case "DATETIME": {
                    boolean same = a != null && a.kind.equals(T) && a.label.endsWith("text");
                    if (same && (!has || f.sign(xi.num.sub(a.p)) != Facts.ZERO)) bad(c, r, key, rule, "the " + a.label + " becomes " + (has ? x : "empty"));
                    if (!same && has && a != null && !a.kind.equals("STRING")) bad(c, r, key, rule, "a " + a.label + " becomes " + x);
                    return;
                }
                case "BOOLEAN": if (has && a != null && !a.kind.equals("STRING")) bad(c, r, key, rule, "a " + a.label + " becomes " + x); return;
                default:
            }
        }

        private void containers(Ctx c) {
            Model m = c.m;
            String en = C + "ContainerDataType";
            List<Interp.Out> vals = m.in.invoke(m.start(), Opcodes.INVOKESTATIC, en, "values", "()[L" + en + ";", new V[0]);
            State s0 = vals.get(0).s;
            for (V k : s0.arr(vals.get(0).ret).e) {
                boolean list = enumName(s0, k).equals("LIST");
                for (String T : List.of("STRING", "INTEGER", "DECIMAL", "BOOLEAN")) {
                    V dt = constants(m, m.start(), C + "DataType").stream().filter(x -> enumName(m.base, x).equals(T)).findFirst().orElseThrow(() -> new Model.Anchor("DataType." + T));
                    for (String o : new String[]{"list of Integer", "list of text", "empty list", "set of Long", "Object array", "list of BigDecimal", "map", "foreign object", "number", "text"}) guard(c, "container " + list + T + o, () -> {
                        State s = s0.copy(); String cls = m.in.classOf(s, k);
                        V v = o.equals("number") ? V.Im.num(Lib.INTEGER, Arg.ip("n")) : o.equals("text") ? V.Im.str(Str.atom("~t")) : StateChecks.coll(m, s, o);
                        boolean coll = o.contains("list") || o.contains("set") || o.contains("array");
                        String key = (list ? "LIST " : "PRIMITIVE ") + T + " of " + o, rule = "a list is valid exactly when all its elements are";
                        c.rules.add(rule);
                        for (Interp.Out v1 : m.in.invoke(s.copy(), Opcodes.INVOKEVIRTUAL, cls, "isValid", "(L" + C + "DataType;Ljava/lang/Object;)Z", new V[]{k, dt, v})) {
                            c.obligations++; c.partitions++;
                            Model.Res t = new Model.Res(v1.s, "value", V.NULL, null, v1);
                            if (v1.exc != null || !(v1.ret instanceof V.I b)) { bad(c, t, key, rule, "isValid has no result"); continue; }
                            int sg = v1.s.facts.sign(b.p);
                            if (list && !coll) { if (sg != Facts.ZERO) bad(c, t, key, rule, "a value that is no collection is a valid list"); continue; }
                            if (!list) continue;
                            List<V> es = contents(m, v1.s, v);
                            if (es == null) continue;
                            // element validity in the same partition
                            V type = pure(m, v1.s, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", dt);
                            List<State> ss = List.of(v1.s); boolean decided = true; int want = 1;
                            for (V e : es) {
                                List<Interp.Out> r = m.in.invoke(v1.s.copy(), Opcodes.INVOKEVIRTUAL, m.in.classOf(v1.s, type), "isValid", "(Ljava/lang/Object;)Z", new V[]{type, e});
                                Set<Integer> sgs = new TreeSet<>(); for (Interp.Out q : r) sgs.add(q.exc == null && q.ret instanceof V.I i ? q.s.facts.sign(i.p) : 7);
                                if (sgs.size() != 1) { decided = false; continue; }
                                if (sgs.iterator().next() == Facts.ZERO) { want = 0; decided = true; break; }
                            }
                            if (want == 0 ? sg != Facts.ZERO : decided && (sg & Facts.ZERO) != 0) { bad(c, t, key, rule, "isValid is " + (sg == Facts.ZERO ? "false" : "true")); continue; }
                            if (sg == Facts.ZERO) continue;
                            for (Interp.Out v2 : m.in.invoke(v1.s.copy(), Opcodes.INVOKEVIRTUAL, cls, "getValue", "(L" + C + "DataType;Ljava/lang/Object;)Ljava/util/Optional;", new V[]{k, dt, v})) {
                                c.obligations++;
                                Model.Res t2 = new Model.Res(v2.s, "value", V.NULL, null, v2);
                                List<V> l = v2.exc != null ? null : elems(m, v2.s, opt(v2.s, v2.ret));
                                String r2 = "a valid list converts element by element, in order"; c.rules.add(r2);
                                if (l == null || l.size() != es.size()) { bad(c, t2, key, r2, "converted to " + (l == null ? "nothing" : l.size() + " elements")); continue; }
                                for (int i = 0; i < l.size(); i++) if (!(l.get(i) instanceof V.Im x) || !x.cls.equals(CLS.get(T)) || ((V.Im) es.get(i)).num != null && x.num != null && v2.s.facts.sign(x.num.sub(((V.Im) es.get(i)).num)) != Facts.ZERO) bad(c, t2, key, r2, "element " + (i + 1) + " " + es.get(i) + " becomes " + l.get(i));
                            }
                        }
                    });
                }
            }
        }
        private static List<V> contents(Model m, State s, V v) {
            if (s.arr(v) != null) return Arrays.asList(s.arr(v).e);
            if (m.w.isSub(m.in.classOf(s, v), "java/util/Collection")) return elems(m, s, v);
            return null;
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ C28

    static final class Registered extends Base {
        String explanation() { return "Abstract interpretation of histories: a data type registered with DataTypeFactory.register (for every data type, before or after the first construction) is the one getDataType returns afterwards, also after any number of parsers and evaluators have been constructed and used; all other registrations stay as they were."; }
        void run(Ctx c) {
            Model m = c.m;
            String rule = "a registered data type stays registered";
            c.rules.add(rule);
            for (V k : constants(m, m.start(), C + "DataType")) {
                String T = enumName(m.base, k);
                for (int order = 0; order < 2; order++) {
                    int ord = order;
                    guard(c, "register " + T + " " + order, () -> {
                        State s = m.start();
                        V old = pure(m, s, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", k);
                        String cls = m.in.classOf(s, old);
                        if (cls == null) throw new Model.Anchor("registered data type " + T);
                        List<Interp.Out> mk = m.in.instantiate(s, cls, "()V", new V[]{null});
                        if (mk.size() != 1 || mk.get(0).exc != null) throw new Model.Anchor("constructor of " + cls);
                        V mine = mk.get(0).ret; s = mk.get(0).s;
                        List<Interp.Out> reg = m.in.invoke(s, Opcodes.INVOKESTATIC, DF, "register", "(L" + DT + ";)V", new V[]{mine});
                        for (Interp.Out o : reg) {
                            if (o.exc != null) { c.violation("register " + T, rule, "register throws " + simple(m.in.classOf(o.s, o.exc)), Ctx.path(o.s)); continue; }
                            is(c, o.s, k, T, mine, "after register");
                            State t = o.s;
                            for (String[] n : new String[][]{{Model.BP, "()V"}, {Model.CP, "(I)V"}, {Model.BE, "(L" + Model.IP + ";)V"}, {Model.AE, "(L" + Model.IP + ";)V"}}) {
                                V[] a = n[1].equals("()V") ? new V[1] : new V[]{null, n[1].equals("(I)V") ? V.I.of(10) : m.boolParser};
                                List<Interp.Out> r = m.in.instantiate(t, n[0], n[1], a);
                                if (r.size() != 1 || r.get(0).exc != null) throw new Model.Anchor("constructor of " + n[0]);
                                t = r.get(0).s;
                                is(c, t, k, T, mine, "after constructing a " + simple(n[0]));
                            }
                            E e = new Cmp(fld("x"), GT, Arg.num(3).e());
                            V x = m.expression(t, e), d = new Model.Data("data").put("x", Arg.intD("x").mk.apply(t)).build(t);
                            for (Model.Res r : m.bool(t, m.boolEval, x, d, null)) is(c, r.s, k, T, mine, "after an evaluation");
                            // the others
                            for (V q : constants(m, m.start(), C + "DataType")) if (q != k && !q.equals(k)) { c.obligations++; V was = pure(m, m.start(), DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", q), now = pure(m, t, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", q); if (!Objects.equals(m.in.classOf(t, now), m.in.classOf(m.base, was))) c.violation("register " + T + " others", rule, "registering " + T + " changes " + enumName(t, q), List.of()); }
                        }
                    });
                }
            }
        }
        private void is(Ctx c, State s, V k, String T, V mine, String when) {
            c.obligations++; c.partitions++;
            V now = pure(c.m, s, DF, "getDataType", "(L" + C + "DataType;)L" + DT + ";", k);
            if (!now.equals(mine)) c.violation("register " + T + " " + when, "a registered data type stays registered", when + " the data type registered for " + T + " is another one", Ctx.path(s));
        }
    }
}
