package sa;

import java.util.*;

/** What a specification demands of an outcome. */
abstract class Expect {
    /** null when met, otherwise what was found instead */
    abstract String check(Model m, Q q, Model.Res r);
    abstract String show();
    Boolean truth;

    static final Expect ANY = new Expect() { String check(Model m, Q q, Model.Res r) { return null; } String show() { return "anything"; } };
    static final Expect FAIL = new Expect() {
        String check(Model m, Q q, Model.Res r) { return r.kind.equals("failure") ? null : "" + r; }
        String show() { return "a failed Try"; }
    };
    static final Expect RETURNS = new Expect() {
        String check(Model m, Q q, Model.Res r) { return r.kind.equals("failure") || r.kind.equals("value") ? null : "" + r; }
        String show() { return "a Try"; }
    };
    static Expect bool(boolean b) {
        return new Expect() {
            { truth = b; }
            String check(Model m, Q q, Model.Res r) {
                if (!r.kind.equals("value")) return "" + r;
                if (!(r.v instanceof V.Im x) || !x.cls.equals(Lib.BOOLEAN)) return "" + r;
                return q.f.sign(x.num.sub(Poly.of(b ? 1 : 0))) == Facts.ZERO ? null : "" + r;
            }
            String show() { return "" + b; }
        };
    }
    static Expect either(Expect... l) {
        return new Expect() {
            String check(Model m, Q q, Model.Res r) { String x = null; for (Expect e : l) { x = e.check(m, q, r); if (x == null) return null; } return x; }
            String show() { StringJoiner j = new StringJoiner(" or "); for (Expect e : l) j.add(e.show()); return j.toString(); }
        };
    }

    static final Set<String> NUMS = Set.of(Lib.INTEGER, Lib.LONG, Lib.BD, Lib.BI, Lib.DOUBLE, Lib.FLOAT, "java/lang/Short", "java/lang/Byte");

    /** a number of exactly this value, in any numeric class */
    static Expect num(Poly p) { return num(p, null); }
    /** cls: simple class demanded, or null */
    static Expect num(Poly p, String cls) {
        return new Expect() {
            String check(Model m, Q q, Model.Res r) {
                if (!r.kind.equals("value") || !(r.v instanceof V.Im x) || !NUMS.contains(x.cls)) return "" + r;
                if (q.f.sign(x.num.sub(p)) != Facts.ZERO) return "" + r;
                if (cls != null && !x.cls.equals(cls)) return r + " (a " + x.cls.substring(x.cls.lastIndexOf('/') + 1) + ")";
                return null;
            }
            String show() { return "the number " + p + (cls == null ? "" : " as " + cls.substring(cls.lastIndexOf('/') + 1)); }
        };
    }
    /** a whole number in the narrowest of Integer, Long, BigDecimal */
    static Expect whole(Q q, Poly p) { return num(p, q.within(p, Itv.INT) ? Lib.INTEGER : q.within(p, Itv.LONG) ? Lib.LONG : Lib.BD); }
    /** canonical result: whole values narrowest, others BigDecimal */
    static Expect canon(Q q, Poly p) { return q.integral(p) ? whole(q, p) : num(p, Lib.BD); }

    static Expect text(Str s) {
        return new Expect() {
            String check(Model m, Q q, Model.Res r) {
                if (!r.kind.equals("value") || !(r.v instanceof V.Im x) || !x.cls.equals(Lib.S)) return "" + r;
                return x.str.equals(s) || q.f.sign(Lib.equality(x.str, s)) == Facts.ZERO ? null : "" + r;
            }
            String show() { return "the text " + s; }
        };
    }
    static Expect same(V v) {
        return new Expect() {
            String check(Model m, Q q, Model.Res r) { return r.kind.equals("value") && r.v.equals(v) ? null : "" + r; }
            String show() { return "the value " + v; }
        };
    }
}
