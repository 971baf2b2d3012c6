package sa;

import java.util.*;

/** Abstract expressions: the shapes of parse trees, with symbolic literals. */
public final class Dsl {
    static final int IN = 2, TO = 3, AND = 4, OR = 5, NOT = 6, TRUE = 7, FALSE = 8, CONTAINS_ALL = 9, CONTAINS_ANY = 10, MIN = 11, MAX = 12, AVG = 13, SUM = 14, MEAN = 15, MODE = 16, MEDIAN = 17, LEN = 18, INT = 19, DAYS_ELAPSED = 20,
        ADD = 21, SUBTRACT = 22, MULTIPLY = 23, DIVIDE = 24, MODULUS = 25, EXPONENT = 26, NE = 27, GT = 28, GE = 29, LT = 30, LE = 31, EQ = 32, LPAREN = 33, RPAREN = 34, DECIMAL = 35, APP_VERSION = 36, INTEGER = 37, DATE = 38, DATETIME = 39, WORD = 41, FIELD = 44;
    static final Map<Integer, String> TXT = new HashMap<>();
    static {
        Object[] t = {IN, "IN", TO, "TO", AND, "AND", OR, "OR", NOT, "NOT", TRUE, "true", FALSE, "false", CONTAINS_ALL, "CONTAINS_ALL", CONTAINS_ANY, "CONTAINS_ANY", MIN, "min", MAX, "max", AVG, "avg", SUM, "sum", MEAN, "mean", MODE, "mode", MEDIAN, "median", LEN, "len", INT, "int", DAYS_ELAPSED, "days_elapsed",
            ADD, "+", SUBTRACT, "-", MULTIPLY, "*", DIVIDE, "/", MODULUS, "%", EXPONENT, "^", NE, "!=", GT, ">", GE, ">=", LT, "<", LE, "<=", EQ, "=", LPAREN, "(", RPAREN, ")"};
        for (int i = 0; i < t.length; i += 2) TXT.put((Integer) t[i], (String) t[i + 1]);
    }
    static final int[] COMPARATORS = {EQ, NE, GT, GE, LT, LE};

    abstract static class E {
        abstract String show();
        @Override public String toString() { return show(); }
    }
    /** a single token operand */
    static final class Tok extends E {
        final int type; final Str text; final Object tag;
        Tok(int type, Str text, Object tag) { this.type = type; this.text = text; this.tag = tag; }
        String show() { return text.isConst() ? text.constant() : type == WORD ? "'" + text.parts.get(1).key() + "'" : text.key(); }
    }
    static final class Empty extends E { String show() { return "<empty>"; } }
    static final class Par extends E { final E e; Par(E e) { this.e = e; } String show() { return "(" + e + ")"; } }
    static final class NotE extends E { final E e; NotE(E e) { this.e = e; } String show() { return "NOT " + e; } }
    static final class Neg extends E { final E e; Neg(E e) { this.e = e; } String show() { return "-" + e; } }
    static final class Bin extends E { final E l, r; final int op; Bin(E l, int op, E r) { this.l = l; this.op = op; this.r = r; } String show() { return l + " " + TXT.get(op) + " " + r; } }
    static final class Cmp extends E { final E l, r; final int op; Cmp(E l, int op, E r) { this.l = l; this.op = op; this.r = r; } String show() { return l + " " + TXT.get(op) + " " + r; } }
    static final class Ar extends E { final E l, r; final int op; Ar(E l, int op, E r) { this.l = l; this.op = op; this.r = r; } String show() { return l + " " + TXT.get(op) + " " + r; } }
    static final class In extends E { final String field; final boolean not; final List<E> items; In(String f, boolean not, List<E> items) { field = f; this.not = not; this.items = items; } String show() { return field + (not ? " NOT IN " : " IN ") + list(items); } }
    static final class ArrE extends E { final String field; final int op; final List<E> items; ArrE(String f, int op, List<E> items) { field = f; this.op = op; this.items = items; } String show() { return field + " " + TXT.get(op) + " " + list(items); } }
    static final class ToE extends E { final String field; final Tok lo, hi; ToE(String f, Tok lo, Tok hi) { field = f; this.lo = lo; this.hi = hi; } String show() { return field + " " + lo + " TO " + hi; } }
    static final class Fun extends E { final int fn; final List<E> items; Fun(int fn, List<E> items) { this.fn = fn; this.items = items; } String show() { return TXT.get(fn) + " " + list(items); } }
    /** the same expression with other spellings of its keywords */
    static final class Alt extends E { final E e; final Map<Integer, String> txt; Alt(E e, Map<Integer, String> txt) { this.e = e; this.txt = txt; } String show() { return e + " with " + new TreeMap<>(txt).values(); } }
    static String list(List<E> l) { StringJoiner j = new StringJoiner(", ", "(", ")"); for (E e : l) j.add(e.show()); return j.toString(); }

    /** the second pass of a check: field names contain the language's keywords, texts may be empty or have blank edges */
    static boolean rough;
    private static final String[] PRE = {"NOT", "in_", "or", "max", "null_", "true", "and", "len_"};
    /** the field name n in this pass; a name that contains a keyword must mean no more than any other */
    static String nm(String n) {
        if (n == null || !rough || n.isBlank() || n.equalsIgnoreCase("null")) return n;
        StringJoiner j = new StringJoiner(".");
        for (String p : n.split("\\.", -1)) j.add(p.isEmpty() || p.equalsIgnoreCase("null") ? p : PRE[Math.floorMod(p.hashCode(), PRE.length)] + p);
        return j.toString();
    }

    // constructors used by the checks
    static Tok fld(String n) { return new Tok(FIELD, Str.of(n), null); }
    static Tok fld(Str n) { return new Tok(FIELD, n, null); }
    /** integer literal denoting p (p >= 0) */
    static Tok ilit(Poly p) { return new Tok(INTEGER, p.isConst() ? Str.of(p.constant().n.toString()) : Str.text(p, false, "ilit"), p); }
    static Tok dlit(Poly p) { return new Tok(DECIMAL, Str.text(p, false, "dlit"), p); }
    static Tok word(Str body, char q) { return new Tok(WORD, Str.of("" + q).cat(body).cat(Str.of("" + q)), body); }
    static Tok word(Str body) { return word(body, '\''); }
    static Tok ver(String atom) { return new Tok(APP_VERSION, Str.atom(atom), null); }
    static Tok date(Poly p) { return new Tok(DATE, Str.text(p, false, "date"), p); }
    static Tok datetime(Poly p) { return new Tok(DATETIME, Str.text(p, false, "datetime"), p); }
    static Tok bool(boolean b) { return new Tok(b ? TRUE : FALSE, Str.of(b ? "true" : "false"), b); }

    // ------------------------------------------------------------------------------------------------- tree construction

    /** builds the heap objects of a parse tree the way the generated parser does */
    static final class Builder {
        final Model m; final State s; final String P;
        final List<V> pendingStart = new ArrayList<>();
        V lastTok = V.NULL; int index; Map<Integer, String> alt = Map.of();
        Str txt(int type) { return Str.of(alt.getOrDefault(type, TXT.get(type))); }
        Builder(Model m, State s) { this.m = m; this.s = s; P = m.parserClass; }

        V tok(int type, Str text) {
            if (type == FIELD && text.isConst()) text = Str.of(nm(text.constant()));
            V.Ref t = s.alloc("org/antlr/v4/runtime/CommonToken");
            String c = "org/antlr/v4/runtime/CommonToken.";
            s.put(t, c + "type", V.I.of(type)); s.put(t, c + "text", V.Im.str(text)); s.put(t, c + "index", V.I.of(index)); s.put(t, c + "line", V.I.of(1)); s.put(t, c + "charPositionInLine", V.I.of(index * 4L)); s.put(t, c + "start", V.I.of(index * 4L)); s.put(t, c + "stop", V.I.of(index * 4L + 2)); s.put(t, c + "channel", V.I.of(0));
            index++;
            for (V p : pendingStart) put(p, "start", t);
            pendingStart.clear();
            lastTok = t;
            return t;
        }
        V tok(int type) { return tok(type, txt(type)); }
        void put(V o, String f, V v) { s.put(o, m.in.fld(s.obj(o).cls, f), v); }
        V ctx(String cls) {
            String n = P + "$" + cls + "Context";
            if (m.w.get(n) == null) throw new Model.Anchor("parse tree class " + n);
            V.Ref r = s.alloc(n);
            put(r, "invokingState", V.I.of(0));
            return r;
        }
        V leaf(V tok, V parent) { V.Ref r = s.alloc("org/antlr/v4/runtime/tree/TerminalNodeImpl"); put(r, "symbol", tok); put(r, "parent", parent); return r; }
        V list(List<V> l) {
            V.Ref r = s.alloc("java/util/ArrayList");
            s.put(r, "java/util/ArrayList.elementData", s.array("[Ljava/lang/Object;", l.toArray(new V[0]))); s.put(r, "java/util/ArrayList.size", V.I.of(l.size())); s.put(r, "java/util/AbstractList.modCount", V.I.of(l.size()));
            return r;
        }
        void kids(V o, V... k) { put(o, "children", k.length == 0 ? V.NULL : list(Arrays.asList(k))); for (V x : k) put(x, "parent", o); }
        V first(V o) { return s.obj(o).get(m.in.fld(s.obj(o).cls, "start")); }
        void span(V o, V start, V stop) { put(o, "start", start); put(o, "stop", stop); }

        /** rule context with a single token */
        V unit(String cls, int type, Str text) { V o = ctx(cls); V t = tok(type, text); kids(o, leaf(t, o)); span(o, t, t); return o; }

        V wordlist(List<E> items) {
            V o = ctx("Wordlist");
            List<V> k = new ArrayList<>();
            V open = tok(LPAREN); k.add(leaf(open, o));
            for (int i = 0; i < items.size(); i++) {
                if (i > 0) k.add(leaf(tok(1, Str.of(",")), o));
                V e = expr(items.get(i)); k.add(e); put(o, i == 0 ? "first" : "rest", e);
            }
            V close = tok(RPAREN); k.add(leaf(close, o));
            kids(o, k.toArray(new V[0])); span(o, open, close);
            return o;
        }

        V expr(E e) {
            if (e instanceof Alt a) { Map<Integer, String> old = alt; alt = a.txt; V r = expr(a.e); alt = old; return r; }
            if (e instanceof Tok t) {
                V o = ctx("TypesExpression"), ty = ctx("Types");
                V tk = tok(t.type, t.text);
                if (t.type == TRUE || t.type == FALSE) { V b = ctx("Bool"); kids(b, leaf(tk, b)); span(b, tk, tk); kids(ty, b); } else kids(ty, leaf(tk, ty));
                span(ty, tk, tk); kids(o, ty); span(o, tk, tk);
                return o;
            }
            if (e instanceof Empty) { V o = ctx("TypesExpression"), ty = ctx("Types"); put(ty, "stop", lastTok); put(o, "stop", lastTok); kids(o, ty); pendingStart.add(ty); pendingStart.add(o); return o; }
            if (e instanceof Par p) { V o = ctx("ParentExpression"); V a = tok(LPAREN); V x = expr(p.e); V b = tok(RPAREN); kids(o, leaf(a, o), x, leaf(b, o)); span(o, a, b); return o; }
            if (e instanceof NotE n) { V o = ctx("NotExpression"); V a = tok(NOT); V x = expr(n.e); kids(o, leaf(a, o), x); span(o, a, lastTok); return o; }
            if (e instanceof Neg n) { V o = ctx("UnaryArithmeticExpression"); V a = tok(SUBTRACT); put(o, "op", a); V x = expr(n.e); put(o, "exp", x); kids(o, leaf(a, o), x); span(o, a, lastTok); return o; }
            if (e instanceof Bin b) { V o = ctx("BinaryExpression"); V l = expr(b.l); V op = unit("Binary", b.op, txt(b.op)); V r = expr(b.r); put(o, "left", l); put(o, "op", op); put(o, "right", r); kids(o, l, op, r); span(o, first(l), lastTok); return o; }
            if (e instanceof Cmp b) { V o = ctx("ComparatorExpression"); V l = expr(b.l); V op = unit("Comparator", b.op, txt(b.op)); V r = expr(b.r); put(o, "left", l); put(o, "op", op); put(o, "right", r); kids(o, l, op, r); span(o, first(l), lastTok); return o; }
            if (e instanceof Ar b) { V o = ctx("ArithmeticExpression"); V l = expr(b.l); V op = tok(b.op); V r = expr(b.r); put(o, "left", l); put(o, "op", op); put(o, "right", r); kids(o, l, leaf(op, o), r); span(o, first(l), lastTok); return o; }
            if (e instanceof In n) {
                V o = ctx("InExpression"); List<V> k = new ArrayList<>(); V f = tok(FIELD, Str.of(n.field)); put(o, "field", f); k.add(leaf(f, o));
                if (n.not) { V t = tok(NOT); put(o, "not", t); k.add(leaf(t, o)); }
                k.add(leaf(tok(IN), o)); V d = wordlist(n.items); put(o, "data", d); k.add(d); kids(o, k.toArray(new V[0])); span(o, f, lastTok); return o; }
            if (e instanceof ArrE n) { V o = ctx("ArrayExpression"); V f = tok(FIELD, Str.of(n.field)); put(o, "field", f); V op = unit("ArrayOperators", n.op, txt(n.op)); put(o, "op", op); V d = wordlist(n.items); put(o, "data", d); kids(o, leaf(f, o), op, d); span(o, f, lastTok); return o; }
            if (e instanceof ToE n) { V o = ctx("ToExpression"); V f = tok(FIELD, Str.of(n.field)); put(o, "field", f); V a = unit("NumericTypes", n.lo.type, n.lo.text); put(o, "lower", a); V t = leaf(tok(TO), o); V b = unit("NumericTypes", n.hi.type, n.hi.text); put(o, "upper", b); kids(o, leaf(f, o), a, t, b); span(o, f, lastTok); return o; }
            if (e instanceof Fun n) { V o = ctx("ArithmeticFunctionExpression"); V a = unit("ArithmeticFunction", n.fn, txt(n.fn)); put(o, "left", a); V d = wordlist(n.items); put(o, "data", d); kids(o, a, d); span(o, first(a), lastTok); return o; }
            throw new IllegalStateException();
        }

        V parse(E e) {
            V o = ctx("Parse"); V x = expr(e); V last = lastTok; V eof = tok(-1, Str.of("<EOF>"));
            kids(o, x, leaf(eof, o)); span(o, first(x), eof);
            if (e instanceof Empty) put(o, "start", eof);
            return o;
        }
    }
}
