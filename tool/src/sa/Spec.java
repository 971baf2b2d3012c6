package sa;

import java.util.*;
import static sa.Dsl.*;

/** The semantics the properties demand, stated over terms. */
final class Spec {
    static final int[] CMP = {EQ, NE, GT, GE, LT, LE};

    static boolean holds(int op, int sign) {
        switch (op) { case EQ: return sign == 0; case NE: return sign != 0; case GT: return sign > 0; case GE: return sign >= 0; case LT: return sign < 0; default: return sign <= 0; }
    }
    static int mirror(int op) { switch (op) { case GT: return LT; case LT: return GT; case GE: return LE; case LE: return GE; default: return op; } }
    static int complement(int op) { switch (op) { case EQ: return NE; case NE: return EQ; case GT: return LE; case LE: return GT; case GE: return LT; default: return GE; } }

    static String family(Arg a) { return a.num() ? "NUM" : a.kind; }

    /** the text of a value */
    static Str text(Q q, Arg a) { return a.kind.equals("BOOLEAN") ? Str.of(q.zero(a.p) ? "false" : "true") : a.text; }

    /** sign of the order of two operands of one kind, or null when the kind is not ordered */
    static Poly diff(Q q, Arg l, Arg r) {
        if (l.num() || l.kind.equals("DATE") || l.kind.equals("DATETIME") || l.kind.equals("BOOLEAN")) return l.p.sub(r.p);
        if (l.kind.equals("VERSION")) return Natives.version(l.text, r.text);
        return Lib.order(l.text, r.text);
    }

    /** comparison of operands of the same kind */
    static Expect sameKind(Q q, int op, Arg l, Arg r) {
        boolean eq = op == EQ || op == NE;
        if (l.kind.equals("BOOLEAN") && !eq) return Expect.FAIL;
        if (eq && l.kind.equals("STRING")) return Expect.bool((op == EQ) == q.zero(Lib.equality(l.text, r.text)));
        return Expect.bool(holds(op, q.sign(diff(q, l, r))));
    }

    /** does a text read as a value of a numeric type */
    static boolean reads(Q q, Arg t, String type) {
        if (!t.kind.equals("STRING") || !t.numeral) return false;
        if (type.equals("DECIMAL")) return true;
        return q.integral(t.p) && q.within(t.p, type.equals("INTEGER") ? Itv.INT : Itv.LONG);
    }

    static int prio(String k) { return List.of("BOOLEAN", "VERSION", "INTEGER", "LONG", "DECIMAL", "DATE", "DATETIME", "STRING").indexOf(k); }

    /** comparison of any two operands */
    static Expect compare(Q q, int op, Arg l, Arg r) {
        if (family(l).equals(family(r)) && !(l.kind.equals("STRING") && (l.numeral || r.numeral))) return sameKind(q, op, l, r);
        boolean eq = op == EQ || op == NE;
        if (eq) {
            if (l.kind.equals("STRING") || r.kind.equals("STRING")) {
                if (l.kind.equals("DECIMAL") || r.kind.equals("DECIMAL")) return Expect.either(Expect.bool(true), Expect.bool(false)); // through the text of a decimal, whose form is free
                return Expect.bool((op == EQ) == q.zero(Lib.equality(text(q, l), text(q, r))));
            }
            if (prio(l.kind) <= 1 && prio(r.kind) <= 1) return Expect.RETURNS; // a version and a truth value are not constrained
            return Expect.FAIL;
        }
        if (l.kind.equals("BOOLEAN") || r.kind.equals("BOOLEAN")) return Expect.FAIL;
        if (l.num() && r.num()) return Expect.bool(holds(op, q.sign(l.p.sub(r.p))));
        if (l.num() || r.num()) {
            Arg n = l.num() ? l : r, t = l.num() ? r : l;
            if (!reads(q, t, n.kind)) return Expect.FAIL;
            return Expect.bool(holds(op, q.sign(l.p.sub(r.p))));
        }
        if (l.kind.equals("VERSION") || r.kind.equals("VERSION")) {
            Arg o = l.kind.equals("VERSION") ? r : l;
            if (!o.kind.equals("STRING")) return Expect.RETURNS;
            return Expect.bool(holds(op, q.sign(Natives.version(l.text, r.text))));
        }
        if ((l.kind.equals("STRING") || r.kind.equals("STRING")) && (l.kind.equals("DATETIME") || r.kind.equals("DATETIME"))) return Expect.either(Expect.bool(true), Expect.bool(false)); // through the text of a datetime, whose form is free
        if (l.kind.equals("STRING") || r.kind.equals("STRING")) return Expect.bool(holds(op, q.sign(Lib.order(text(q, l), text(q, r)))));
        return Expect.FAIL; // a date and a datetime
    }

    static boolean kind(Arg a, String... ks) { for (String k : ks) if (a.kind.equals(k)) return true; return false; }
}
