package sa;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import sa.Interp.Out;
import static sa.Lib.*;

/** Transfer functions of the JDK value classes on symbolic arguments. */
final class Natives {
    final Lib L; final Interp in;
    Natives(Lib l) { L = l; in = l.in; }

    void n(String keys, Lib.Nat f) { for (String k : keys.split(" ")) L.nats.put(k, f); }

    static Poly num(V v) { return v instanceof V.Im m ? m.num : v instanceof V.I i ? i.p : v instanceof V.J j ? j.p : v instanceof V.D d ? d.p : null; }
    static Str str(V v) { return v instanceof V.Im m ? m.str : null; }
    static String form(V v) { return v instanceof V.Im m && m.form != null ? m.form : "?"; }
    static V.Im dec(Poly p, String form) { return V.Im.dec(p, form); }
    static V.Im big(Poly p) { return V.Im.num(BI, p); }
    static V I(Poly p) { return new V.I(p); }
    static V J(Poly p) { return new V.J(p); }
    static String both(String op, V a, V b) { String f = form(a), g = form(b); return f.equals("int") && g.equals("int") ? "int" : op + "[" + f + "," + g + "]"; }
    List<Out> npe(State s) { return L.thrown(s, "java/lang/NullPointerException", null); }
    static boolean nul(V v) { return v instanceof V.Null; }

    List<Out> tri(State s, Poly d) { return in.tri(s, d); }
    /** an int of the sign of d but unknown magnitude */
    List<Out> sgn(State s, Poly d, String key) {
        if (d.isConst()) return tri(s, d);
        return L.then(tri(s, d), (t, v) -> {
            int k = ((V.I) v).p.constant().sign();
            if (k == 0) return one(t, v);
            Poly m = Poly.var("mag(" + key + ")", Itv.INT, true);
            t.facts = t.facts.assume(m, k < 0 ? Facts.NEG : Facts.POS);
            return t.facts == null ? List.of() : one(t, new V.I(m));
        });
    }
    List<Out> maxmin(State s, V a, V b, boolean max) {
        return L.cond(s, num(a).sub(num(b)), Facts.POS | Facts.ZERO, t -> one(t, max ? a : b), t -> one(t, max ? b : a));
    }
    List<Out> ret(State s, V v) { return one(s, v); }

    String mode(V v) {
        if (v instanceof V.Im m && m.konst != null) return m.konst.toString();
        if (v instanceof V.I i && i.p.isConst()) try { return java.math.RoundingMode.valueOf(i.p.constant().n.intValue()).name(); } catch (IllegalArgumentException e) { return null; }
        return null;
    }

    List<Out> round(State s, Poly p, Poly q, V scale, String mode) {
        if (!(scale instanceof V.I i) || !i.p.isConst() || mode == null) return null;
        int sc = i.p.constant().n.intValue();
        return L.cond(s, q, Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> {
            if (mode.equals("UNNECESSARY")) return L.pred(t, "exact" + sc + "(" + p.key() + "/" + q.key() + ")", u -> one(u, dec(rdiv(u.facts, p, q, sc, "DOWN"), "scale:" + sc)), u -> L.thrown(u, "java/lang/ArithmeticException", "Rounding necessary"));
            if (Boolean.TRUE.equals(isIntegral(t.facts, p)) && q.equals(Poly.ONE) && sc >= 0) return one(t, dec(p, sc == 0 ? "int" : "scale:" + sc));
            if (mode.equals("FLOOR") || mode.equals("CEILING")) { // towards zero or away from it, by the sign of the quotient
                boolean fl = mode.equals("FLOOR"); V z = scale;
                return L.cond(t, p, Facts.ZERO, u -> one(u, dec(Poly.ZERO, sc == 0 ? "int" : "scale:" + sc)), u -> L.cond(u, p, Facts.POS, x -> L.cond(x, q, Facts.POS, y -> round(y, p, q, z, fl ? "DOWN" : "UP"), y -> round(y, p, q, z, fl ? "UP" : "DOWN")),
                    x -> L.cond(x, q, Facts.POS, y -> round(y, p, q, z, fl ? "UP" : "DOWN"), y -> round(y, p, q, z, fl ? "DOWN" : "UP")))); }
            if (sc == 0 && mode.equals("DOWN") && q.isConst()) return Interp.map(L.trunc(t, p.scale(Rat.ONE.div(q.constant()))), (u, v) -> dec(num(v), "int"));
            return one(t, dec(rdiv(t.facts, p, q, sc, mode), sc == 0 ? "int" : "scale:" + sc));
        });
    }

    List<Out> exactRange(State s, Poly p, Itv r, boolean lng) {
        return L.integral(s, p, t -> L.within(t, p, r, u -> one(u, lng ? J(p) : I(p)), u -> L.thrown(u, "java/lang/ArithmeticException", "out of range")), t -> L.thrown(t, "java/lang/ArithmeticException", "Rounding necessary"));
    }

    /** a number cut to the digits of a MathContext; exact when it certainly has no more digits */
    V rounded(State s, Poly p, String form, V mc) {
        java.math.MathContext c = mc instanceof V.Im m && m.konst instanceof java.math.MathContext k ? k : null;
        if (c != null && c.getPrecision() == 0) return dec(p, form);
        if (c != null && p.isConst()) {
            Rat r = p.constant();
            return dec(Poly.of(Rat.of(new java.math.BigDecimal(r.n).divide(new java.math.BigDecimal(r.d), c))), form.equals("int") ? "mc" : form);
        }
        if (c != null && p.integral()) {
            java.math.BigInteger b = java.math.BigInteger.TEN.pow(c.getPrecision());
            if (s.facts.itv(p).within(new Itv(Rat.of(b.negate()), false, Rat.of(b), false))) return dec(p, form);
        }
        return dec(Poly.var("digits[" + ((V.Im) mc).key + "](" + p.key() + ")", Itv.ALL, false), "mc");
    }

    List<Out> toPrim(State s, V.Im m, String prim) {
        boolean fp = m.cls.equals(DOUBLE) || m.cls.equals(FLOAT);
        switch (prim) {
            case "D": case "F":
                if (fp && m.cls.equals(FLOAT) && prim.equals("D")) { if (m.num.isConst() || m.num.integral() && s.facts.itv(m.num).within(Itv.of(-(1L << 24), 1L << 24))) return one(s, L.floatToDouble(new V.D(m.num, false))); return L.pred(s, "dyadic(" + m.num.key() + ")", u -> one(u, new V.D(m.num, true)), u -> one(u, L.floatToDouble(new V.D(m.num, false)))); }
                if (fp && m.cls.equals(DOUBLE) && prim.equals("F")) return m.num.isConst() ? one(s, L.d2f(new V.D(m.num, true))) : null;
                if (fp) return one(s, new V.D(m.num, prim.equals("D")));
                if (prim.equals("D")) return m.cls.equals(INTEGER) ? one(s, new V.D(m.num, true)) : L.toDoubleV(s, m.num);
                return L.longToDouble(s, m.num, false);
            case "J": case "I": case "S": case "B":
                boolean lng = prim.equals("J");
                if (fp) return L.doubleToInt(s, m.num, lng);
                return L.then(L.trunc(s, m.num), (t, v) -> in.reduce(t, num(v), lng, false));
            default: return null;
        }
    }

    void register() {
        // ---------------- boxes
        for (String b : NUMBOX) {
            String prim = null;
            for (var e : Interp.BOX.entrySet()) if (e.getValue().equals(b)) prim = e.getKey();
            final String pr = prim;
            n(b + ".valueOf(" + pr + ")", (s, a, d) -> one(s, Interp.box(a[0], pr)));
            n(b + ".<init>(" + pr + ")", (s, a, d) -> one(s, V.Im.num(b, num(a[0]).add(Poly.ZERO))));
            n(b + ".equals", (s, a, d) -> a[1] instanceof V.Im m && m.cls.equals(b) ? L.eqTerm(s, num(a[0]).sub(m.num)) : a[1] instanceof V.Top ? null : one(s, bool(false)));
            n(b + ".hashCode()", (s, a, d) -> num(a[0]) == null ? null : b.equals(INTEGER) ? one(s, I(num(a[0]))) : one(s, I(Poly.var("hash " + b + "(" + num(a[0]).key() + ")", Itv.INT, true))));
            n(b + ".hashCode(" + pr + ")", (s, a, d) -> one(s, b.equals(INTEGER) ? a[0] : I(Poly.var("hash " + b + "(" + num(a[0]).key() + ")", Itv.INT, true))));
            n(b + ".compareTo", (s, a, d) -> nul(a[1]) ? npe(s) : a[1] instanceof V.Im m && m.cls.equals(b) ? tri(s, num(a[0]).sub(m.num)) : a[1] instanceof V.Top ? null : L.thrown(s, "java/lang/ClassCastException", null));
            n(b + ".compare", (s, a, d) -> num(a[0]) == null || num(a[1]) == null ? null : tri(s, num(a[0]).sub(num(a[1]))));
            n(b + ".toString()", (s, a, d) -> L.toStr(s, (V.Im) a[0]));
            n(b + ".toString(" + pr + ") " + b + ".toString(" + pr + ")", (s, a, d) -> L.stringify(s, a[0], pr));
            for (String[] p : new String[][]{{"intValue", "I"}, {"longValue", "J"}, {"doubleValue", "D"}, {"floatValue", "F"}, {"shortValue", "S"}, {"byteValue", "B"}})
                n(b + "." + p[0], (s, a, d) -> a[0] instanceof V.Im m ? toPrim(s, m, p[1]) : null);
            n(b + ".booleanValue " + b + ".charValue", (s, a, d) -> one(s, I(num(a[0]))));
            n(b + ".sum", (s, a, d) -> pr.equals("D") || pr.equals("F") ? null : in.reduce(s, num(a[0]).add(num(a[1])), pr.equals("J"), true));
            n(b + ".max", (s, a, d) -> maxmin(s, a[0], a[1], true));
            n(b + ".min", (s, a, d) -> maxmin(s, a[0], a[1], false));
            n(b + ".signum", (s, a, d) -> tri(s, num(a[0])));
        }
        n(BOOLEAN + ".equals", (s, a, d) -> a[1] instanceof V.Im m && m.cls.equals(BOOLEAN) ? L.eqTerm(s, num(a[0]).sub(m.num)) : a[1] instanceof V.Top ? null : one(s, bool(false)));
        n(BOOLEAN + ".logicalAnd", (s, a, d) -> in.binary(s, Opcodes.IAND, a[0], a[1]));
        n(BOOLEAN + ".logicalOr", (s, a, d) -> in.binary(s, Opcodes.IOR, a[0], a[1]));
        n(BOOLEAN + ".logicalXor", (s, a, d) -> in.binary(s, Opcodes.IXOR, a[0], a[1]));
        n(BOOLEAN + ".parseBoolean " + BOOLEAN + ".valueOf(Ljava/lang/String;)", (s, a, d) -> {
            if (nul(a[0])) return one(s, d.endsWith("Z") ? bool(false) : Interp.box(bool(false), "Z"));
            Str x = str(a[0]); if (x == null) return null;
            boolean bx = !d.endsWith("Z");
            List<Out> r = x.text() != null || plain(x) ? one(s, bool(false)) : L.pred(s, "lower(" + x.key() + ") = true", t -> one(t, bool(true)), t -> one(t, bool(false)));
            return bx ? Interp.map(r, (t, v) -> Interp.box(v, "Z")) : r;
        });
        n(INTEGER + ".parseInt(Ljava/lang/String;) " + INTEGER + ".valueOf(Ljava/lang/String;) " + INTEGER + ".<init>(Ljava/lang/String;)", (s, a, d) -> nul(a[0]) ? L.thrown(s, "java/lang/NumberFormatException", "null") : str(a[0]) == null ? null :
            L.parseInt(s, str(a[0]), Itv.INT, (t, p, f) -> one(t, d.endsWith("I") ? I(p) : V.Im.num(INTEGER, p)), t -> L.thrown(t, "java/lang/NumberFormatException", "For input string")));
        n(LONG + ".parseLong(Ljava/lang/String;) " + LONG + ".valueOf(Ljava/lang/String;) " + LONG + ".<init>(Ljava/lang/String;)", (s, a, d) -> nul(a[0]) ? L.thrown(s, "java/lang/NumberFormatException", "null") : str(a[0]) == null ? null :
            L.parseInt(s, str(a[0]), Itv.LONG, (t, p, f) -> one(t, d.endsWith("J") ? J(p) : V.Im.num(LONG, p)), t -> L.thrown(t, "java/lang/NumberFormatException", "For input string")));
        n(DOUBLE + ".parseDouble " + DOUBLE + ".valueOf(Ljava/lang/String;)", (s, a, d) -> nul(a[0]) ? npe(s) : str(a[0]) == null ? null :
            L.parseDec(s, str(a[0]), (t, p, f) -> { Str.T x = str(a[0]).text(); List<Out> r = x != null && "dbl".equals(x.form()) ? one(t, new V.D(p, true)) : L.toDoubleV(t, p); return d.endsWith("D") ? r : Interp.map(r, (u, v) -> Interp.box(v, "D")); }, t -> L.thrown(t, "java/lang/NumberFormatException", "For input string")));
        n(DOUBLE + ".isNaN " + DOUBLE + ".isInfinite " + FLOAT + ".isNaN " + FLOAT + ".isInfinite", (s, a, d) -> one(s, bool(false)));
        n(DOUBLE + ".isFinite " + FLOAT + ".isFinite", (s, a, d) -> one(s, bool(true)));
        n("java/lang/Character.isWhitespace java/lang/Character.isDigit java/lang/Character.isLetter java/lang/Character.isLetterOrDigit", (s, a, d) -> null);

        // ---------------- Math
        for (String M : new String[]{"java/lang/Math", "java/lang/StrictMath"}) {
            n(M + ".max", (s, a, d) -> num(a[0]) == null || num(a[1]) == null ? null : maxmin(s, a[0], a[1], true));
            n(M + ".min", (s, a, d) -> num(a[0]) == null || num(a[1]) == null ? null : maxmin(s, a[0], a[1], false));
            n(M + ".abs", (s, a, d) -> num(a[0]) == null ? null : L.cond(s, num(a[0]), Facts.NEG, t -> d.endsWith("I") ? in.reduce(t, num(a[0]).neg(), false, true) : d.endsWith("J") ? in.reduce(t, num(a[0]).neg(), true, true) : one(t, new V.D(num(a[0]).neg(), d.endsWith("D"))), t -> one(t, a[0])));
            n(M + ".addExact", (s, a, d) -> exactRange(s, num(a[0]).add(num(a[1])), d.endsWith("J") ? Itv.LONG : Itv.INT, d.endsWith("J")));
            n(M + ".subtractExact", (s, a, d) -> exactRange(s, num(a[0]).sub(num(a[1])), d.endsWith("J") ? Itv.LONG : Itv.INT, d.endsWith("J")));
            n(M + ".multiplyExact", (s, a, d) -> exactRange(s, num(a[0]).mul(num(a[1])), d.endsWith("J") ? Itv.LONG : Itv.INT, d.endsWith("J")));
            n(M + ".negateExact", (s, a, d) -> exactRange(s, num(a[0]).neg(), d.endsWith("J") ? Itv.LONG : Itv.INT, d.endsWith("J")));
            n(M + ".toIntExact", (s, a, d) -> exactRange(s, num(a[0]), Itv.INT, false));
            n(M + ".pow", (s, a, d) -> num(a[0]) == null || num(a[1]) == null ? null : power(num(a[0]), num(a[1])) != null ? one(s, new V.D(Poly.of(power(num(a[0]), num(a[1]))), true)) : one(s, new V.D(Poly.var("pow(" + num(a[0]).key() + "," + num(a[1]).key() + ")", Itv.ALL, false), true)));
            n(M + ".signum", (s, a, d) -> Interp.map(tri(s, num(a[0])), (t, v) -> new V.D(num(v), d.endsWith("D"))));
            for (String[] q : new String[][]{{"floor", "FLOOR"}, {"ceil", "CEILING"}, {"rint", "HALF_EVEN"}})
                n(M + "." + q[0], (s, a, d) -> num(a[0]) == null ? null : L.integral(s, num(a[0]), t -> one(t, a[0]), t -> one(t, new V.D(rdiv(t.facts, num(a[0]), Poly.ONE, 0, q[1]), true))));
            n(M + ".round", (s, a, d) -> num(a[0]) == null ? null : L.integral(s, num(a[0]), t -> L.doubleToInt(t, num(a[0]), d.endsWith("J")), t -> L.doubleToInt(t, Poly.var("rounded(" + num(a[0]).key() + ")", Itv.ALL, true), d.endsWith("J"))));
            n(M + ".floorMod", (s, a, d) -> { Poly p = num(a[0]), q = num(a[1]); if (p == null || q == null) return null; boolean lng = d.endsWith("J");
                return L.then(in.binary(s, lng ? Opcodes.LREM : Opcodes.IREM, lng ? J(p) : I(p), lng ? J(q) : I(q)), (t, r) -> L.cond(t, num(r), Facts.ZERO, u -> one(u, r), u -> L.cond(u, num(r), Facts.POS, x -> L.cond(x, q, Facts.POS, y -> one(y, r), y -> one(y, lng ? J(num(r).add(q)) : I(num(r).add(q)))), x -> L.cond(x, q, Facts.NEG, y -> one(y, r), y -> one(y, lng ? J(num(r).add(q)) : I(num(r).add(q))))))); });
        }

        // ---------------- BigDecimal
        n(BD + ".<init>(Ljava/lang/String;)", (s, a, d) -> nul(a[0]) ? npe(s) : str(a[0]) == null ? null : L.parseDec(s, str(a[0]), (t, p, f) -> one(t, dec(p, f)), t -> L.thrown(t, "java/lang/NumberFormatException", "not a number")));
        n(BD + ".<init>(Ljava/lang/String;Ljava/math/MathContext;)", (s, a, d) -> nul(a[0]) || nul(a[1]) ? npe(s) : str(a[0]) == null ? null : L.parseDec(s, str(a[0]), (t, p, f) -> one(t, rounded(t, p, f, a[1])), t -> L.thrown(t, "java/lang/NumberFormatException", "not a number")));
        for (String k : List.of("I", "J", "Ljava/math/BigInteger;")) n(BD + ".<init>(" + k + "Ljava/math/MathContext;)", (s, a, d) -> nul(a[0]) || nul(a[1]) ? npe(s) : num(a[0]) == null ? null : one(s, rounded(s, num(a[0]), "int", a[1])));
        n(BD + ".<init>(I) " + BD + ".<init>(J) " + BD + ".<init>(Ljava/math/BigInteger;) " + BD + ".valueOf(J)", (s, a, d) -> nul(a[0]) ? npe(s) : num(a[0]) == null ? null : one(s, dec(num(a[0]), "int")));
        n(BD + ".<init>(D)", (s, a, d) -> num(a[0]) == null ? null : L.integral(s, num(a[0]), t -> one(t, dec(num(a[0]), "int")), t -> one(t, dec(Poly.var("binary(" + num(a[0]).key() + ")", Itv.ALL, false), "binary"))));
        n(BD + ".valueOf(D)", (s, a, d) -> num(a[0]) == null ? null : one(s, dec(num(a[0]), "dbl:" + num(a[0]).key())));
        n(BD + ".add(Ljava/math/BigDecimal;)", (s, a, d) -> nul(a[1]) ? npe(s) : num(a[1]) == null ? null : one(s, dec(num(a[0]).add(num(a[1])), num(a[0]).isConst() && num(a[0]).equals(Poly.ZERO) && form(a[0]).equals("int") && !form(a[1]).startsWith("scale:-") ? form(a[1]) : both("add", a[0], a[1]))));
        n(BD + ".subtract(Ljava/math/BigDecimal;)", (s, a, d) -> nul(a[1]) ? npe(s) : num(a[1]) == null ? null : one(s, dec(num(a[0]).sub(num(a[1])), both("add", a[0], a[1]))));
        n(BD + ".multiply(Ljava/math/BigDecimal;)", (s, a, d) -> nul(a[1]) ? npe(s) : num(a[1]) == null ? null : one(s, dec(num(a[0]).mul(num(a[1])), both("mul", a[0], a[1]))));
        n(BD + ".negate()", (s, a, d) -> one(s, dec(num(a[0]).neg(), form(a[0]))));
        n(BD + ".plus()", (s, a, d) -> one(s, a[0]));
        n(BD + ".abs()", (s, a, d) -> L.cond(s, num(a[0]), Facts.NEG, t -> one(t, dec(num(a[0]).neg(), form(a[0]))), t -> one(t, a[0])));
        n(BD + ".signum " + BI + ".signum", (s, a, d) -> tri(s, num(a[0])));
        n(BD + ".compareTo " + BI + ".compareTo " + LD + ".compareTo " + LDT + ".compareTo", (s, a, d) -> {
            if (nul(a[1])) return npe(s);
            if (!(a[1] instanceof V.Im m) || m.num == null) return null;
            if (!m.cls.equals(((V.Im) a[0]).cls)) return L.thrown(s, "java/lang/ClassCastException", null);
            Poly df = num(a[0]).sub(m.num);
            return m.cls.startsWith("java/math") ? tri(s, df) : sgn(s, df, df.key()); });
        n(BD + ".equals", (s, a, d) -> {
            if (a[1] instanceof V.Top) return null;
            if (!(a[1] instanceof V.Im m) || !m.cls.equals(BD)) return one(s, bool(false));
            return L.cond(s, num(a[0]).sub(m.num), Facts.ZERO, t -> form(a[0]).equals(form(m)) && !form(m).equals("?") ? one(t, bool(true)) : scaleOf(a[0]) != null && scaleOf(m) != null ? one(t, bool(scaleOf(a[0]).equals(scaleOf(m)))) :
                L.pred(t, "same scale " + min(form(a[0]), form(m)) + "/" + max(form(a[0]), form(m)), u -> one(u, bool(true)), u -> one(u, bool(false))), t -> one(t, bool(false))); });
        n(BI + ".equals " + LD + ".equals " + LDT + ".equals", (s, a, d) -> a[1] instanceof V.Top ? null : a[1] instanceof V.Im m && m.cls.equals(((V.Im) a[0]).cls) ? L.eqTerm(s, num(a[0]).sub(m.num)) : one(s, bool(false)));
        n(BD + ".hashCode " + BI + ".hashCode " + LD + ".hashCode " + LDT + ".hashCode", (s, a, d) -> one(s, I(Poly.var("hash " + ((V.Im) a[0]).cls + "(" + num(a[0]).key() + ((V.Im) a[0]).form + ")", Itv.INT, true))));
        n(BD + ".max " + BI + ".max", (s, a, d) -> num(a[1]) == null ? null : maxmin(s, a[0], a[1], true));
        n(BD + ".min " + BI + ".min", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[0]).sub(num(a[1])), Facts.NEG | Facts.ZERO, t -> one(t, a[0]), t -> one(t, a[1])));
        n(BD + ".stripTrailingZeros", (s, a, d) -> one(s, dec(num(a[0]), "strip")));
        n(BD + ".scale", (s, a, d) -> {
            V.Im m = (V.Im) a[0];
            if (scaleOf(m) != null) return one(s, V.I.of(scaleOf(m)));
            Poly sc = Poly.var("scale(" + m.form + " " + m.num.key() + ")", Itv.INT, true);
            return L.integral(s, m.num, t -> { if (m.form.equals("strip")) t.facts = t.facts.assume(sc, Facts.NEG | Facts.ZERO); if (m.form.startsWith("lit")) t.facts = t.facts == null ? null : t.facts.assume(sc, Facts.POS); return t.facts == null ? List.of() : one(t, I(sc)); },
                t -> { t.facts = t.facts.assume(sc, Facts.POS); return t.facts == null ? List.of() : one(t, I(sc)); }); });
        n(BD + ".precision", (s, a, d) -> one(s, I(Poly.var("precision(" + form(a[0]) + " " + num(a[0]).key() + ")", new Itv(Rat.ONE, false, Rat.of(Integer.MAX_VALUE), false), true))));
        n(BD + ".toBigIntegerExact", (s, a, d) -> L.integral(s, num(a[0]), t -> one(t, big(num(a[0]))), t -> L.thrown(t, "java/lang/ArithmeticException", "Rounding necessary")));
        n(BD + ".toBigInteger", (s, a, d) -> L.trunc(s, num(a[0])));
        for (String c : new String[]{BD, BI}) {
            for (String[] p : new String[][]{{"intValue", "I"}, {"longValue", "J"}, {"doubleValue", "D"}, {"floatValue", "F"}, {"shortValue", "S"}, {"byteValue", "B"}})
                n(c + "." + p[0], (s, a, d) -> toPrim(s, (V.Im) a[0], p[1]));
            n(c + ".intValueExact", (s, a, d) -> exactRange(s, num(a[0]), Itv.INT, false));
            n(c + ".longValueExact", (s, a, d) -> exactRange(s, num(a[0]), Itv.LONG, true));
            n(c + ".toString()", (s, a, d) -> L.toStr(s, (V.Im) a[0]));
        }
        n(BD + ".toPlainString", (s, a, d) -> { V.Im m = (V.Im) a[0]; return m.form.equals("int") || m.form.equals("strip") ? one(s, V.Im.str(Str.text(m.num, true, null))) : one(s, V.Im.str(Str.text(m.num, false, "plain:" + m.form))); });
        n(BD + ".divide(Ljava/math/BigDecimal;ILjava/math/RoundingMode;) " + BD + ".divide(Ljava/math/BigDecimal;II)", (s, a, d) -> nul(a[1]) ? npe(s) : num(a[1]) == null ? null : round(s, num(a[0]), num(a[1]), a[2], mode(a[3])));
        n(BD + ".divide(Ljava/math/BigDecimal;Ljava/math/RoundingMode;) " + BD + ".divide(Ljava/math/BigDecimal;I)", (s, a, d) -> {
            if (num(a[1]) == null || mode(a[2]) == null) return null;
            Integer sc = scaleOf(a[0]);
            return sc != null ? round(s, num(a[0]), num(a[1]), V.I.of(sc), mode(a[2])) : L.cond(s, num(a[1]), Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> one(t, dec(Poly.var("roundScaleOf[" + form(a[0]) + "]" + mode(a[2]) + "(" + num(a[0]).key() + " / " + num(a[1]).key() + ")", Itv.ALL, false), form(a[0])))); });
        n(BD + ".divide(Ljava/math/BigDecimal;)", (s, a, d) -> {
            if (nul(a[1])) return npe(s); if (num(a[1]) == null) return null;
            Poly p = num(a[0]), q = num(a[1]);
            return L.cond(s, q, Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> L.pred(t, "terminating(" + p.key() + " / " + q.key() + ")", u -> one(u, dec(q.isConst() ? p.scale(Rat.ONE.div(q.constant())) : Poly.var("(" + p.key() + " / " + q.key() + ")", Itv.ALL, false), "quotient")), u -> L.thrown(u, "java/lang/ArithmeticException", "Non-terminating decimal expansion"))); });
        n(BD + ".divide(Ljava/math/BigDecimal;Ljava/math/MathContext;)", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[1]), Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> one(t, dec(Poly.var("digits[" + ((V.Im) a[2]).key + "](" + num(a[0]).key() + " / " + num(a[1]).key() + ")", Itv.ALL, false), "mc"))));
        for (String[] o : new String[][]{{"add", "+"}, {"subtract", "-"}, {"multiply", "*"}})
            n(BD + "." + o[0] + "(Ljava/math/BigDecimal;Ljava/math/MathContext;)", (s, a, d) -> { if (num(a[1]) == null) return null; Poly p = o[1].equals("+") ? num(a[0]).add(num(a[1])) : o[1].equals("-") ? num(a[0]).sub(num(a[1])) : num(a[0]).mul(num(a[1])); return one(s, rounded(s, p, "mc", a[2])); });
        n(BD + ".round", (s, a, d) -> one(s, rounded(s, num(a[0]), "mc", a[1])));
        n(BD + ".setScale(ILjava/math/RoundingMode;) " + BD + ".setScale(II)", (s, a, d) -> round(s, num(a[0]), Poly.ONE, a[1], mode(a[2])));
        n(BD + ".setScale(I)", (s, a, d) -> round(s, num(a[0]), Poly.ONE, a[1], "UNNECESSARY"));
        n(BD + ".remainder(Ljava/math/BigDecimal;)", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[1]), Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> Interp.map(L.remainder(t, num(a[0]), num(a[1])), (u, v) -> dec(num(v), "rem"))));
        n(BD + ".movePointLeft " + BD + ".movePointRight " + BD + ".scaleByPowerOfTen", (s, a, d) -> null);
        n(BD + ".pow(I) " + BI + ".pow(I)", (s, a, d) -> { if (!(a[1] instanceof V.I i) || !i.p.isConst()) return null; int k = i.p.constant().n.intValue(); if (k < 0) return L.thrown(s, "java/lang/ArithmeticException", "Invalid operation"); if (k > 6) return null; Poly r = Poly.ONE; for (int j = 0; j < k; j++) r = r.mul(num(a[0])); return one(s, ((V.Im) a[0]).cls.equals(BD) ? dec(r, form(a[0]).equals("int") ? "int" : "pow") : big(r)); });

        // ---------------- BigInteger
        n(BI + ".valueOf(J)", (s, a, d) -> num(a[0]) == null ? null : one(s, big(num(a[0]))));
        n(BI + ".<init>(Ljava/lang/String;)", (s, a, d) -> str(a[0]) == null ? null : L.parseInt(s, str(a[0]), Itv.ALL, (t, p, f) -> one(t, big(p)), t -> L.thrown(t, "java/lang/NumberFormatException", "not a number")));
        n(BI + ".add", (s, a, d) -> num(a[1]) == null ? null : one(s, big(num(a[0]).add(num(a[1])))));
        n(BI + ".subtract", (s, a, d) -> num(a[1]) == null ? null : one(s, big(num(a[0]).sub(num(a[1])))));
        n(BI + ".multiply", (s, a, d) -> num(a[1]) == null ? null : one(s, big(num(a[0]).mul(num(a[1])))));
        n(BI + ".negate", (s, a, d) -> one(s, big(num(a[0]).neg())));
        n(BI + ".abs", (s, a, d) -> L.cond(s, num(a[0]), Facts.NEG, t -> one(t, big(num(a[0]).neg())), t -> one(t, a[0])));
        n(BI + ".divide", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[1]), Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> Interp.map(L.quotient(t, num(a[0]), num(a[1])), (u, v) -> big(num(v)))));
        n(BI + ".remainder", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[1]), Facts.ZERO, t -> L.thrown(t, "java/lang/ArithmeticException", "/ by zero"), t -> Interp.map(L.remainder(t, num(a[0]), num(a[1])), (u, v) -> big(num(v)))));
        n(BI + ".mod", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[1]), Facts.ZERO | Facts.NEG, t -> L.thrown(t, "java/lang/ArithmeticException", "modulus not positive"), t -> L.then(L.remainder(t, num(a[0]), num(a[1])), (u, v) -> L.cond(u, num(v), Facts.NEG, x -> one(x, big(num(v).add(num(a[1])))), x -> one(x, big(num(v)))))));
        n(BI + ".bitLength", (s, a, d) -> {
            Poly p = num(a[0]); Poly b = Poly.var("bits(" + p.key() + ")", Itv.NAT, true);
            return L.within(s, p, Itv.INT, t -> { t.facts = t.facts.within(b, Itv.of(0, 31)); return t.facts == null ? List.of() : one(t, I(b)); }, t -> L.within(t, p, Itv.LONG, u -> { u.facts = u.facts.within(b, Itv.of(32, 63)); return u.facts == null ? List.of() : one(u, I(b)); }, u -> { u.facts = u.facts.within(b, Itv.of(64, Integer.MAX_VALUE)); return u.facts == null ? List.of() : one(u, I(b)); })); });

        // ---------------- String
        n(S + ".<init>()", (s, a, d) -> one(s, V.Im.str(Str.of(""))));
        n(S + ".<init>(Ljava/lang/String;)", (s, a, d) -> str(a[0]) == null ? null : one(s, V.Im.str(str(a[0]))));
        n(S + ".<init>(Ljava/lang/StringBuilder;)", (s, a, d) -> one(s, V.Im.str(sb(s, a[0]))));
        n(S + ".<init>([C) " + S + ".valueOf([C) " + S + ".copyValueOf([C)", (s, a, d) -> { State.Arr x = s.arr(a[0]); if (x == null) return null; StringBuilder b = new StringBuilder(); for (V v : x.e) { if (!(v instanceof V.I i) || !i.p.isConst()) return null; b.append((char) i.p.constant().n.intValue()); } return one(s, V.Im.str(Str.of(b.toString()))); });
        n(S + ".toString() " + S + ".intern() " + S + ".strip() " + S + ".trim() " + S + ".stripLeading() " + S + ".stripTrailing()", (s, a, d) -> null);
        n(S + ".toString()", (s, a, d) -> one(s, a[0]));
        n(S + ".intern()", (s, a, d) -> one(s, a[0]));
        n(S + ".trim() " + S + ".strip()", (s, a, d) -> { Str x = str(a[0]); if (x.text() != null || edgeSolid(x)) return one(s, a[0]); return edges(s, x); });
        n(S + ".stripLeading() " + S + ".stripTrailing()", (s, a, d) -> { Str x = str(a[0]); if (x.text() != null || edgeSolid(x)) return one(s, a[0]); return x.isConst() ? null : edges(s, x); });
        n(S + ".length", (s, a, d) -> one(s, I(len(str(a[0])))));
        n(S + ".isEmpty", (s, a, d) -> L.eqTerm(s, len(str(a[0]))));
        n(S + ".isBlank", (s, a, d) -> blank(s, str(a[0])));
        n(S + ".charAt", (s, a, d) -> { Str x = str(a[0]); if (!(a[1] instanceof V.I i)) return null;
            if (i.p.equals(Poly.ZERO) && !x.parts.isEmpty() && x.parts.get(0) instanceof Str.C c) return one(s, V.I.of(c.s().charAt(0)));
            if (i.p.equals(len(x).sub(Poly.ONE)) && !x.parts.isEmpty() && x.parts.get(x.parts.size() - 1) instanceof Str.C c) return one(s, V.I.of(c.s().charAt(c.s().length() - 1)));
            return L.within(s, i.p, Itv.above(Rat.ZERO, false), t -> L.cond(t, i.p.sub(len(x)), Facts.NEG, u -> {
                if (word(x)) { Poly ch = Poly.var("char " + i.p.key() + " of " + x.key(), Itv.of(1, 65535), true); for (char q : "'\"".toCharArray()) { u.facts = nn(u.facts, ch.sub(Poly.of(q)), 5); } return u.facts == null ? List.of() : one(u, I(ch)); }
                return one(u, I(Poly.var("char " + i.p.key() + " of " + x.key(), Itv.of(0, 65535), true))); }, u -> L.thrown(u, "java/lang/StringIndexOutOfBoundsException", null)), t -> L.thrown(t, "java/lang/StringIndexOutOfBoundsException", null)); });
        n(S + ".equals " + S + ".contentEquals", (s, a, d) -> a[1] instanceof V.Top ? null : str(a[1]) == null || !((V.Im) a[1]).cls.equals(S) ? one(s, bool(false)) : L.eqTerm(s, equality(str(a[0]), str(a[1]))));
        n(S + ".equalsIgnoreCase", (s, a, d) -> { if (nul(a[1])) return one(s, bool(false)); if (str(a[1]) == null) return null; return L.eqTerm(s, equality(lower(str(a[0])), lower(str(a[1])))); });
        n(S + ".compareTo", (s, a, d) -> { if (nul(a[1])) return npe(s); if (a[1] instanceof V.Top) return null; if (str(a[1]) == null || !((V.Im) a[1]).cls.equals(S)) return L.thrown(s, "java/lang/ClassCastException", null);
            Str x = str(a[0]), y = str(a[1]); Poly e = equality(x, y);
            if (e.isConst() && e.constant().sign() == 0) return one(s, V.I.of(0));
            Poly o = order(x, y);
            if (e.isConst() || e.equals(o)) { List<Out> r = sgn(s, o, "str " + x.key() + " vs " + y.key()); return e.isConst() && !o.isConst() ? L.cond(s, o, Facts.ZERO, t -> List.of(), t -> sgn(t, o, "str " + x.key() + " vs " + y.key())) : r; }
            return L.cond(s, e, Facts.ZERO, t -> one(t, V.I.of(0)), t -> L.cond(t, o, Facts.ZERO, u -> List.of(), u -> sgn(u, o, "str " + x.key() + " vs " + y.key()))); });
        n(S + ".compareToIgnoreCase", (s, a, d) -> nul(a[1]) ? npe(s) : str(a[1]) == null ? null : sgn(s, order(lower(str(a[0])), lower(str(a[1]))), "stri " + str(a[0]).key() + " vs " + str(a[1]).key()));
        n(S + ".hashCode", (s, a, d) -> one(s, I(Poly.var("hash " + str(a[0]).key(), Itv.INT, true))));
        n(S + ".toLowerCase", (s, a, d) -> one(s, V.Im.str(lower(str(a[0])))));
        n(S + ".toUpperCase", (s, a, d) -> one(s, V.Im.str(mapA(str(a[0]), "upper"))));
        n(S + ".concat", (s, a, d) -> nul(a[1]) ? npe(s) : str(a[1]) == null ? null : one(s, V.Im.str(str(a[0]).cat(str(a[1])))));
        n(S + ".startsWith(Ljava/lang/String;)", (s, a, d) -> { Str x = str(a[0]), y = str(a[1]); if (y == null || !y.isConst()) return null; String c = y.constant(); if (c.isEmpty()) return one(s, bool(true));
            if (!x.parts.isEmpty() && x.parts.get(0) instanceof Str.C p) { if (p.s().length() >= c.length()) return one(s, bool(p.s().startsWith(c))); if (!c.startsWith(p.s())) return one(s, bool(false)); }
            if (x.text() != null && !"-0123456789".contains(c.substring(0, 1))) return one(s, bool(false));
            if (word(x) && "'\"".contains(c.substring(0, 1))) return one(s, bool(false));
            return L.pred(s, x.key() + " starts with " + c, t -> one(t, bool(true)), t -> one(t, bool(false))); });
        n(S + ".endsWith", (s, a, d) -> { Str x = str(a[0]), y = str(a[1]); if (y == null || !y.isConst()) return null; String c = y.constant(); if (c.isEmpty()) return one(s, bool(true));
            if (!x.parts.isEmpty() && x.parts.get(x.parts.size() - 1) instanceof Str.C p) { if (p.s().length() >= c.length()) return one(s, bool(p.s().endsWith(c))); if (!c.endsWith(p.s())) return one(s, bool(false)); }
            if (x.text() != null && !Character.isDigit(c.charAt(c.length() - 1))) return one(s, bool(false));
            if (word(x) && "'\"".contains(c.substring(c.length() - 1))) return one(s, bool(false));
            return L.pred(s, x.key() + " ends with " + c, t -> one(t, bool(true)), t -> one(t, bool(false))); });
        n(S + ".contains", (s, a, d) -> { Str x = str(a[0]), y = str(a[1]); if (y == null) return null;
            if (y.isConst()) { String c = y.constant(); for (Str.Part p : x.parts) if (p instanceof Str.C q && q.s().contains(c)) return one(s, bool(true));
                if (x.text() != null && !c.isEmpty() && !numChars(c)) { boolean dt = dateForm(x.text()); if (!dt || !c.equals(" ") && !c.equals(":")) return one(s, bool(false)); }
                if (c.equals(".") && x.text() != null && x.text().canon()) return L.integral(s, x.text().p(), t -> one(t, bool(false)), t -> one(t, bool(true)));
                if (word(x) && ("'".equals(c) || "\"".equals(c) || ".".equals(c))) return one(s, bool(false)); }
            return L.pred(s, x.key() + " contains " + y.key(), t -> one(t, bool(true)), t -> one(t, bool(false))); });
        n(S + ".indexOf(Ljava/lang/String;) " + S + ".indexOf(I)", (s, a, d) -> { Str x = str(a[0]); String c = a[1] instanceof V.I i && i.p.isConst() ? "" + (char) i.p.constant().n.intValue() : str(a[1]) != null && str(a[1]).isConst() ? str(a[1]).constant() : null; if (c == null) return null;
            if (word(x) && ("'".equals(c) || "\"".equals(c) || ".".equals(c))) return one(s, V.I.of(-1)); return null; });
        n(S + ".split(Ljava/lang/String;) " + S + ".split(Ljava/lang/String;I)", (s, a, d) -> { Str x = str(a[0]), y = str(a[1]); if (y == null || !y.isConst()) return null; String c = y.constant(); if (c.equals("\\.") || c.equals("[.]")) { if (plain(x) || x.text() != null && x.text().canon() && x.text().p().integral()) return one(s, s.array("[Ljava/lang/String;", a[0])); } return null; });
        n(S + ".substring(I) " + S + ".substring(II) " + S + ".subSequence", (s, a, d) -> substring(s, str(a[0]), num(a[1]), a.length > 2 ? num(a[2]) : len(str(a[0]))));
        n(S + ".replace(Ljava/lang/CharSequence;Ljava/lang/CharSequence;) " + S + ".replace(CC) " + S + ".replaceAll " + S + ".replaceFirst", (s, a, d) -> {
            String f = a[1] instanceof V.I i && i.p.isConst() ? "" + (char) i.p.constant().n.intValue() : str(a[1]) != null && str(a[1]).isConst() ? str(a[1]).constant() : null;
            if (f == null) return null;
            Str x = str(a[0]); boolean edgeOnly = (word(x) && (f.equals("'") || f.equals("\"") || f.equals("['\"]"))) || (x.text() != null && (f.equals("'") || f.equals("\"")));
            if (edgeOnly) return one(s, a[0]);
            return one(s, V.Im.str(Str.atom("replace(" + x.key() + "," + f + "," + a[2] + ")"))); });
        n(S + ".valueOf(Ljava/lang/Object;)", (s, a, d) -> L.stringify(s, a[0], "L"));
        for (String p : new String[]{"I", "J", "D", "F", "Z", "C"}) n(S + ".valueOf(" + p + ")", (s, a, d) -> L.stringify(s, a[0], p));
        n(S + ".format " + S + ".formatted", (s, a, d) -> one(s, V.Im.str(Str.atom("message"))));
        n(S + ".join(Ljava/lang/CharSequence;[Ljava/lang/CharSequence;)", (s, a, d) -> { State.Arr x = s.arr(a[1]); Str sep = str(a[0]); if (x == null || sep == null) return null; Str r = Str.of(""); for (int i = 0; i < x.e.length; i++) { if (i > 0) r = r.cat(sep); if (str(x.e[i]) == null) return null; r = r.cat(str(x.e[i])); } return one(s, V.Im.str(r)); });
        n("java/util/regex/Pattern.matcher", (s, a, d) -> { Str x = str(a[1]); if (x == null || !(a[0] instanceof V.Im pi) || !(L.real(a[0], "Ljava/util/regex/Pattern;") instanceof java.util.regex.Pattern p)) return null; V.Ref m = s.alloc("java/util/regex/Matcher"); s.put(m, "p", a[0]); s.put(m, "x", V.Im.str(x)); return one(s, m); });
        n("java/util/regex/Matcher.matches", (s, a, d) -> { State.Obj m = s.obj(a[0]); if (m == null || m.get("p") == null) return null; if (!(L.real(m.get("p"), "Ljava/util/regex/Pattern;") instanceof java.util.regex.Pattern p)) return null; Str x = str(m.get("x")); if (x.isConst()) return one(s, bool(p.matcher(x.constant()).matches())); if (p.flags() != 0) return null; return in.invoke(s, Opcodes.INVOKEVIRTUAL, S, "matches", "(Ljava/lang/String;)Z", new V[]{m.get("x"), V.Im.str(Str.of(p.pattern()))}); });
        n(S + ".matches", (s, a, d) -> str(a[1]) == null ? null : L.pred(s, str(a[0]).key() + " matches " + str(a[1]).key(), t -> one(t, bool(true)), t -> one(t, bool(false))));
        n(S + ".toCharArray", (s, a, d) -> null);
        String SU = "org/apache/commons/lang3/StringUtils";
        n(SU + ".isBlank", (s, a, d) -> nul(a[0]) ? one(s, bool(true)) : str(a[0]) == null ? null : blank(s, str(a[0])));
        n(SU + ".isNotBlank", (s, a, d) -> nul(a[0]) ? one(s, bool(false)) : str(a[0]) == null ? null : Interp.map(blank(s, str(a[0])), (t, v) -> V.I.of(1 - num(v).constant().n.intValue())));
        n(SU + ".isEmpty", (s, a, d) -> nul(a[0]) ? one(s, bool(true)) : str(a[0]) == null ? null : L.eqTerm(s, len(str(a[0]))));
        n(SU + ".isNotEmpty", (s, a, d) -> nul(a[0]) ? one(s, bool(false)) : str(a[0]) == null ? null : L.cond(s, len(str(a[0])), Facts.ZERO, t -> one(t, bool(false)), t -> one(t, bool(true))));
        n(SU + ".equals", (s, a, d) -> L.objectsEqual(s, a[0], a[1]));
        n(SU + ".trim", (s, a, d) -> nul(a[0]) ? one(s, a[0]) : in.invoke(s, Opcodes.INVOKEVIRTUAL, S, "trim", "()Ljava/lang/String;", a));
        n(SU + ".equalsIgnoreCase", (s, a, d) -> nul(a[0]) || nul(a[1]) ? one(s, bool(nul(a[0]) && nul(a[1]))) : L.eqTerm(s, equality(lower(str(a[0])), lower(str(a[1])))));
        n(SU + ".isNumeric " + SU + ".lowerCase " + SU + ".upperCase", (s, a, d) -> null);

        // ---------------- versions
        n(CV + ".<init>(Ljava/lang/String;)", (s, a, d) -> nul(a[0]) ? npe(s) : str(a[0]) == null ? null : one(s, V.Im.of(CV, str(a[0]))));
        n(CV + ".compareTo", (s, a, d) -> { if (nul(a[1])) return npe(s); if (!(a[1] instanceof V.Im m)) return null; if (!m.cls.equals(CV)) return L.thrown(s, "java/lang/ClassCastException", null); return sgn(s, version(str(a[0]), m.str), "ver " + str(a[0]).key() + " vs " + m.str.key()); });
        n(CV + ".equals", (s, a, d) -> a[1] instanceof V.Im m && m.cls.equals(CV) ? L.eqTerm(s, version(str(a[0]), m.str)) : a[1] instanceof V.Top ? null : one(s, bool(false)));
        n(CV + ".hashCode", (s, a, d) -> one(s, I(Poly.var("hash ver " + str(a[0]).key(), Itv.INT, true))));
        n(CV + ".toString", (s, a, d) -> one(s, V.Im.str(str(a[0]))));
        n(CV + ".getCanonical", (s, a, d) -> one(s, V.Im.str(Str.atom("canonical(" + str(a[0]).key() + ")"))));

        // ---------------- dates
        n(LD + ".parse", (s, a, d) -> date(s, a, LD));
        n("java/time/format/DateTimeFormatter.parse(Ljava/lang/CharSequence;Ljava/time/temporal/TemporalQuery;)", (s, a, d) -> a[2] instanceof V.Fn f && f.impl != null && f.impl.getName().equals("from") && (f.impl.getOwner().equals(LD) || f.impl.getOwner().equals(LDT)) ? date(s, new V[]{a[1], a[0]}, f.impl.getOwner()) : null);
        n(LDT + ".parse", (s, a, d) -> date(s, a, LDT));
        n(LD + ".now() " + LD + ".now(Ljava/time/ZoneId;) " + LD + ".now(Ljava/time/Clock;)", (s, a, d) -> { s.event("CLOCK", "LocalDate.now", null); return one(s, V.Im.num(LD, today(a))); });
        n(LDT + ".now() " + LDT + ".now(Ljava/time/ZoneId;) " + LDT + ".now(Ljava/time/Clock;)", (s, a, d) -> { s.event("CLOCK", "LocalDateTime.now", null); return one(s, V.Im.num(LDT, today(a).scale(Rat.of(86400)).add(Poly.var("second of " + today(a), new Itv(Rat.ZERO, false, Rat.of(86400), true), false)))); });
        for (String c : new String[]{LD, LDT}) {
            n(c + ".isBefore", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[0]).sub(num(a[1])), Facts.NEG, t -> one(t, bool(true)), t -> one(t, bool(false))));
            n(c + ".isAfter", (s, a, d) -> num(a[1]) == null ? null : L.cond(s, num(a[0]).sub(num(a[1])), Facts.POS, t -> one(t, bool(true)), t -> one(t, bool(false))));
            n(c + ".isEqual", (s, a, d) -> num(a[1]) == null ? null : L.eqTerm(s, num(a[0]).sub(num(a[1]))));
            n(c + ".toString", (s, a, d) -> L.toStr(s, (V.Im) a[0]));
        }
        n(LD + ".getYear", (s, a, d) -> num(a[0]).isConst() ? null : one(s, I(year(num(a[0])))));
        n(LD + ".getMonthValue", (s, a, d) -> num(a[0]).isConst() ? null : one(s, I(month(num(a[0])))));
        n(LD + ".getDayOfMonth", (s, a, d) -> num(a[0]).isConst() ? null : one(s, I(dayOfMonth(num(a[0])))));
        n(LD + ".getDayOfYear", (s, a, d) -> num(a[0]).isConst() ? null : one(s, I(dayOfYear(num(a[0])))));
        n(LD + ".of(III)", (s, a, d) -> {
            Poly.Atom y = num(a[0]).single(); if (y == null || !y.key.startsWith("year(")) return null;
            if (y.tag instanceof Poly p && year(p).equals(num(a[0])) && month(p).equals(num(a[1])) && dayOfMonth(p).equals(num(a[2]))) return one(s, V.Im.num(LD, p));
            return null; });
        n(LD + ".toEpochDay", (s, a, d) -> one(s, J(num(a[0]))));
        n(LD + ".ofEpochDay", (s, a, d) -> one(s, V.Im.num(LD, num(a[0]))));
        n(LD + ".plusDays", (s, a, d) -> one(s, V.Im.num(LD, num(a[0]).add(num(a[1])))));
        n(LD + ".minusDays", (s, a, d) -> one(s, V.Im.num(LD, num(a[0]).sub(num(a[1])))));
        n(LD + ".atStartOfDay()", (s, a, d) -> one(s, V.Im.num(LDT, num(a[0]).scale(Rat.of(86400)))));
        n(LD + ".atStartOfDay(Ljava/time/ZoneId;)", (s, a, d) -> one(s, V.Im.form(ZDT, num(a[0]).scale(Rat.of(86400)), zone(a[1]))));
        n(LDT + ".atZone", (s, a, d) -> one(s, V.Im.form(ZDT, num(a[0]), zone(a[1]))));
        n(ZDT + ".now() " + ZDT + ".now(Ljava/time/ZoneId;)", (s, a, d) -> { s.event("CLOCK", "ZonedDateTime.now", null); return one(s, V.Im.form(ZDT, today(a).scale(Rat.of(86400)).add(Poly.var("second of " + today(a), new Itv(Rat.ZERO, false, Rat.of(86400), true), false)), a.length == 0 ? "system clock" : zone(a[0]))); });
        n(ZDT + ".toInstant", (s, a, d) -> one(s, V.Im.num(INST, instant((V.Im) a[0]))));
        n(ZDT + ".toEpochSecond", (s, a, d) -> one(s, J(instant((V.Im) a[0]))));
        n(INST + ".getEpochSecond", (s, a, d) -> one(s, J(num(a[0]))));
        n(ZDT + ".toLocalDate", (s, a, d) -> one(s, V.Im.num(LD, day(num(a[0])))));
        n(ZDT + ".toLocalDateTime", (s, a, d) -> one(s, V.Im.num(LDT, num(a[0]))));
        n(LD + ".datesUntil", (s, a, d) -> null);
        n(LDT + ".toLocalDate", (s, a, d) -> one(s, V.Im.num(LD, day(num(a[0])))));
        n(LD + ".until(Ljava/time/temporal/Temporal;Ljava/time/temporal/TemporalUnit;)", (s, a, d) -> between(s, a[2], a[0], a[1]));
        n(LDT + ".until(Ljava/time/temporal/Temporal;Ljava/time/temporal/TemporalUnit;)", (s, a, d) -> between(s, a[2], a[0], a[1]));
        n("java/time/temporal/ChronoUnit.between", (s, a, d) -> between(s, a[0], a[1], a[2]));
        n("java/time/Period.between", (s, a, d) -> one(s, V.Im.key("java/time/Period", "period(" + num(a[0]).key() + "," + num(a[1]).key() + ")")));
        n("java/time/Period.getDays java/time/Period.getMonths java/time/Period.getYears", (s, a, d) -> one(s, I(Poly.var("part of " + ((V.Im) a[0]).key, Itv.INT, true))));
        n("java/time/Duration.between", (s, a, d) -> {
            V.Im x = (V.Im) a[0], y = (V.Im) a[1];
            if (x.cls.equals(LD) || y.cls.equals(LD)) return L.thrown(s, "java/time/temporal/UnsupportedTemporalTypeException", "Unsupported unit: Seconds");
            if (!x.cls.equals(y.cls) || x.num == null || y.num == null) return null;
            return one(s, V.Im.num("java/time/Duration", x.cls.equals(ZDT) ? instant(y).sub(instant(x)) : y.num.sub(x.num))); });
        n("java/time/Duration.toDays", (s, a, d) -> L.then(L.trunc(s, num(a[0]).scale(Rat.of(BigInteger.ONE, BigInteger.valueOf(86400)))), (t, v) -> one(t, J(num(v)))));
        n("java/time/Clock.systemDefaultZone java/time/ZoneId.systemDefault", (s, a, d) -> { s.event("CLOCK", "system clock", null); return one(s, V.Im.key(d.substring(d.indexOf(')') + 2, d.length() - 1), "system clock")); });
        n("java/time/Clock.systemUTC", (s, a, d) -> { s.event("CLOCK", "system clock", null); return one(s, V.Im.key("java/time/Clock", "clock UTC")); });
        n("java/time/Clock.system(Ljava/time/ZoneId;)", (s, a, d) -> { s.event("CLOCK", "system clock", null); return one(s, V.Im.key("java/time/Clock", ((V.Im) a[0]).key)); });
        n(LD + ".format " + LDT + ".format", (s, a, d) -> one(s, V.Im.str(Str.text(num(a[0]), false, ((V.Im) a[0]).cls.equals(LD) ? "date" : "datetime"))));

        // ---------------- StringBuilder
        for (String B : new String[]{"java/lang/StringBuilder", "java/lang/StringBuffer"}) {
            n(B + ".<init>() " + B + ".<init>(I)", (s, a, d) -> { s.put(a[0], "s", V.Im.str(Str.of(""))); return one(s, null); });
            n(B + ".<init>(Ljava/lang/String;) " + B + ".<init>(Ljava/lang/CharSequence;)", (s, a, d) -> { if (str(a[1]) == null) return nul(a[1]) ? npe(s) : null; s.put(a[0], "s", V.Im.str(str(a[1]))); return one(s, null); });
            n(B + ".append", (s, a, d) -> { if (a.length != 2) return null; String t = Type.getArgumentTypes(d)[0].getDescriptor(); return L.then(L.stringify(s, a[1], t), (u, v) -> { u.put(a[0], "s", V.Im.str(sb(u, a[0]).cat(str(v)))); return one(u, a[0]); }); });
            n(B + ".insert", (s, a, d) -> { if (a.length != 3 || num(a[1]) == null || !num(a[1]).equals(Poly.ZERO)) return null; String t = Type.getArgumentTypes(d)[1].getDescriptor(); return L.then(L.stringify(s, a[2], t), (u, v) -> { u.put(a[0], "s", V.Im.str(str(v).cat(sb(u, a[0])))); return one(u, a[0]); }); });
            n(B + ".toString", (s, a, d) -> one(s, V.Im.str(sb(s, a[0]))));
            n(B + ".length", (s, a, d) -> one(s, I(len(sb(s, a[0])))));
            n(B + ".isEmpty", (s, a, d) -> L.eqTerm(s, len(sb(s, a[0]))));
            n(B + ".charAt", (s, a, d) -> in.invoke(s, Opcodes.INVOKEVIRTUAL, S, "charAt", "(I)C", new V[]{V.Im.str(sb(s, a[0])), a[1]}));
            n(B + ".setLength", (s, a, d) -> L.then(substring(s, sb(s, a[0]), Poly.ZERO, num(a[1])), (t, v) -> { t.put(a[0], "s", v); return one(t, null); }));
            n(B + ".deleteCharAt", (s, a, d) -> { Str x = sb(s, a[0]); Poly i = num(a[1]); if (!i.equals(len(x).sub(Poly.ONE))) return null; return L.then(substring(s, x, Poly.ZERO, i), (t, v) -> { t.put(a[0], "s", v); return one(t, a[0]); }); });
        }
        n("java/lang/CharSequence.length", (s, a, d) -> str(a[0]) != null ? one(s, I(len(str(a[0])))) : null);

        // ---------------- Object, Class, System
        n("java/lang/Object.<init>", (s, a, d) -> one(s, null));
        n("java/lang/Object.equals", (s, a, d) -> { if (a[0] instanceof V.Im m && nats2(m.cls + ".equals") ) return null; List<Out> r = new ArrayList<>(); for (var e : in.sameRef(s, a[0], a[1])) { State t = s.copy(); t.facts = e.getKey(); r.add(Out.ok(t, bool(e.getValue()))); } return r; });
        n("java/lang/Object.hashCode java/lang/System.identityHashCode", (s, a, d) -> a[0] instanceof V.Im m && nats2(m.cls + ".hashCode") ? null : one(s, a[0] instanceof V.Null ? V.I.of(0) : I(Poly.var("identity(" + a[0] + ")", Itv.INT, true))));
        n("java/lang/Object.toString", (s, a, d) -> a[0] instanceof V.Im m ? L.toStr(s, m) : one(s, V.Im.str(Str.of(in.classOf(s, a[0]) == null ? "object" : in.classOf(s, a[0]).replace('/', '.') + "@").cat(Str.atom("identity " + a[0])))));
        n("java/lang/Object.getClass", (s, a, d) -> one(s, new V.Cls(in.classOf(s, a[0]) == null ? "java/lang/Object" : in.classOf(s, a[0]))));
        n("java/lang/Object.clone", (s, a, d) -> { State.HO h = s.get(a[0]); if (h instanceof State.Arr x) return one(s, s.alloc(new State.Arr(x.desc, x.e.clone()))); if (h instanceof State.Obj o) return one(s, s.alloc(o)); return null; });
        n("java/lang/Object.notify java/lang/Object.notifyAll java/lang/Object.wait", (s, a, d) -> one(s, null));
        n("java/lang/Class.isInstance", (s, a, d) -> a[1] instanceof V.Top || !(a[0] instanceof V.Cls c) ? null : one(s, bool(in.isInstance(s, a[1], c.name))));
        n("java/lang/Class.cast", (s, a, d) -> { if (nul(a[1]) || a[1] instanceof V.Fn) return one(s, a[1]); if (a[1] instanceof V.Top || !(a[0] instanceof V.Cls c)) return null; return in.isInstance(s, a[1], c.name) ? one(s, a[1]) : L.thrown(s, "java/lang/ClassCastException", null); });
        n("java/lang/Class.desiredAssertionStatus java/lang/Class.isPrimitive java/lang/Class.isRecord java/lang/Class.isHidden", (s, a, d) -> one(s, bool(false)));
        n("java/lang/Class.isEnum", (s, a, d) -> a[0] instanceof V.Cls c && in.w.get(c.name) != null ? one(s, bool((in.w.get(c.name).n.access & Opcodes.ACC_ENUM) != 0)) : null);
        n("java/lang/Class.isArray", (s, a, d) -> a[0] instanceof V.Cls c ? one(s, bool(c.name.startsWith("["))) : null);
        n("java/lang/Class.getName java/lang/Class.getTypeName", (s, a, d) -> a[0] instanceof V.Cls c ? one(s, V.Im.str(Str.of(c.name.replace('/', '.')))) : null);
        n("java/lang/Class.getSimpleName", (s, a, d) -> a[0] instanceof V.Cls c ? one(s, V.Im.str(Str.of(c.name.substring(Math.max(c.name.lastIndexOf('/'), c.name.lastIndexOf('$')) + 1)))) : null);
        n("java/lang/Class.isAssignableFrom", (s, a, d) -> a[0] instanceof V.Cls c && a[1] instanceof V.Cls e ? one(s, bool(in.w.isSub(e.name, c.name))) : null);
        n("java/lang/Class.equals", (s, a, d) -> one(s, bool(a[0].equals(a[1]))));
        n("java/lang/Class.hashCode", (s, a, d) -> one(s, I(Poly.var("hash " + a[0], Itv.INT, true))));
        n("java/lang/Class.getComponentType", (s, a, d) -> a[0] instanceof V.Cls c && c.name.startsWith("[") ? one(s, c.name.startsWith("[L") ? new V.Cls(c.name.substring(2, c.name.length() - 1)) : new V.Cls(c.name.substring(1))) : one(s, V.NULL));
        n("java/lang/Class.getEnumConstants zz/N.enumConstants", (s, a, d) -> enumValues(s, a[0]));
        n("java/lang/Class.getEnumConstantsShared", (s, a, d) -> enumValues(s, a[0]));
        n("java/lang/Enum.valueOf", (s, a, d) -> L.then(enumValues(s, a[0]), (t, v) -> { Str nm = str(a[1]); if (nm == null || !nm.isConst()) return null; for (V e : t.arr(v).e) if (str(t.obj(e).get("java/lang/Enum.name")).equals(nm)) return one(t, e); return L.thrown(t, "java/lang/IllegalArgumentException", "No enum constant " + nm); }));
        n("java/lang/Enum.hashCode", (s, a, d) -> one(s, I(Poly.var("identity(" + a[0] + ")", Itv.INT, true))));
        n("java/lang/Enum.getDeclaringClass", (s, a, d) -> { String c = in.classOf(s, a[0]); World.C k = in.w.get(c); return one(s, new V.Cls(k.n.superName.equals("java/lang/Enum") ? c : k.n.superName)); });
        n("java/lang/Record.<init>", (s, a, d) -> one(s, null));
        n("java/lang/System.arraycopy", (s, a, d) -> arraycopy(s, a));
        n("java/lang/System.nanoTime java/lang/System.currentTimeMillis", (s, a, d) -> { s.event("CLOCK", "System time", null); return one(s, J(Poly.var("clock", Itv.LONG, true))); });
        n("java/lang/System.getProperty java/lang/System.getenv", (s, a, d) -> { s.event("ENV", "system property", null); return L.top(s, "Ljava/lang/String;", "system property"); });
        n("java/lang/System.lineSeparator", (s, a, d) -> one(s, V.Im.str(Str.of("\n"))));
        n("java/util/Locale.getDefault", (s, a, d) -> { s.event("ENV", "default locale", null); return one(s, V.Im.key("java/util/Locale", "default locale")); });
        n("java/lang/reflect/Array.newInstance(Ljava/lang/Class;I)", (s, a, d) -> { if (!(a[0] instanceof V.Cls c) || !num(a[1]).isConst()) return null; V[] e = new V[num(a[1]).constant().n.intValue()]; Arrays.fill(e, V.NULL); return one(s, s.array("[" + (c.name.startsWith("[") ? c.name : "L" + c.name + ";"), e)); });
        n("java/util/Arrays.copyOf([Ljava/lang/Object;ILjava/lang/Class;)", (s, a, d) -> copyOf(s, a[0], Poly.ZERO, num(a[1]), a[2] instanceof V.Cls c ? c.name : null));
        n("java/util/Arrays.copyOf([Ljava/lang/Object;I)", (s, a, d) -> nul(a[0]) ? npe(s) : copyOf(s, a[0], Poly.ZERO, num(a[1]), null));
        n("java/util/Arrays.copyOfRange([Ljava/lang/Object;II) java/util/Arrays.copyOfRange([Ljava/lang/Object;IILjava/lang/Class;)", (s, a, d) -> nul(a[0]) ? npe(s) : copyOf(s, a[0], num(a[1]), num(a[2]), null));
        n("java/util/Arrays.deepHashCode", (s, a, d) -> one(s, I(Poly.var("hash of array " + a[0], Itv.INT, true))));
        n("java/lang/Thread.currentThread", (s, a, d) -> one(s, V.Im.key("java/lang/Thread", "current")));
        n("java/lang/Thread.interrupt java/lang/Thread.onSpinWait java/lang/Thread.yield", (s, a, d) -> one(s, null));

        // ---------------- Throwable
        String T = "java/lang/Throwable";
        n(T + ".<init>", (s, a, d) -> { Type[] ts = Type.getArgumentTypes(d); V msg = V.NULL, cause = V.NULL; for (int i = 0; i < ts.length; i++) { if (ts[i].getDescriptor().equals("Ljava/lang/String;")) msg = a[i + 1]; if (ts[i].getDescriptor().equals("Ljava/lang/Throwable;")) cause = a[i + 1]; } s.put(a[0], T + ".detailMessage", msg); s.put(a[0], T + ".cause", cause); return one(s, null); });
        n(T + ".getMessage " + T + ".getLocalizedMessage", (s, a, d) -> { State.Obj o = s.obj(a[0]); V v = o == null ? null : o.get(T + ".detailMessage"); return one(s, v == null ? V.NULL : v); });
        n(T + ".getCause", (s, a, d) -> { State.Obj o = s.obj(a[0]); V v = o == null ? null : o.get(T + ".cause"); return one(s, v == null ? V.NULL : v); });
        n(T + ".fillInStackTrace " + T + ".initCause", (s, a, d) -> one(s, a[0]));
        n(T + ".addSuppressed " + T + ".setStackTrace " + T + ".printStackTrace", (s, a, d) -> one(s, null));
        n(T + ".getStackTrace", (s, a, d) -> one(s, s.array("[Ljava/lang/StackTraceElement;")));
        n(T + ".getSuppressed", (s, a, d) -> one(s, s.array("[Ljava/lang/Throwable;")));
        n(T + ".toString", (s, a, d) -> one(s, V.Im.str(Str.atom("throwable " + in.classOf(s, a[0])))));
        n(T + ".hashCode", (s, a, d) -> one(s, I(Poly.var("identity(" + a[0] + ")", Itv.INT, true))));

        // ---------------- analysis hooks for stubs
        n("zz/N.event", (s, a, d) -> { s.event(str(a[0]).constant(), str(a[1]) == null ? "" + a[1] : str(a[1]).isConst() ? str(a[1]).constant() : str(a[1]).key(), null, a.length > 2 ? a[2] : null); return one(s, null); });
        n("zz/N.choose", (s, a, d) -> L.pred(s, str(a[0]).constant(), t -> one(t, bool(true)), t -> one(t, bool(false))));
        n("zz/N.anyInt", (s, a, d) -> one(s, I(Poly.var(str(a[0]).constant(), Itv.INT, true))));
        n("zz/N.lock", (s, a, d) -> { s.lock(a[0]); return one(s, null); });
        n("zz/N.unlock", (s, a, d) -> { s.unlock(a[0]); return one(s, null); });

        // ---------------- antlr
        n("org/antlr/v4/runtime/CharStreams.fromString", (s, a, d) -> { V.Ref r = s.alloc("zz/CharSource"); s.put(r, "zz.input", a[0]); return nul(a[0]) ? npe(s) : one(s, r); });
        n("org/antlr/v4/runtime/CharStreams.fromReader", (s, a, d) -> { V.Ref r = s.alloc("zz/CharSource"); State.Obj o = s.obj(a[0]); s.put(r, "zz.input", o == null || o.get("zz.input") == null ? a[0] : o.get("zz.input")); return one(s, r); });
        n("org/antlr/v4/runtime/ANTLRInputStream.<init>", (s, a, d) -> { if (a.length < 2) return null; State.Obj o = s.obj(a[1]); s.put(a[0], "zz.input", o != null && o.get("zz.input") != null ? o.get("zz.input") : a[1]); return one(s, null); });
        n("java/io/StringReader.<init>", (s, a, d) -> { s.put(a[0], "zz.input", a[1]); return one(s, null); });
        n("org/antlr/v4/runtime/CommonTokenStream.<init> org/antlr/v4/runtime/BufferedTokenStream.<init> org/antlr/v4/runtime/UnbufferedTokenStream.<init>", (s, a, d) -> { s.put(a[0], "zz.input", a[1]); return one(s, null); });
        n("org/antlr/v4/runtime/CommonTokenStream.setTokenSource org/antlr/v4/runtime/BufferedTokenStream.setTokenSource", (s, a, d) -> { s.put(a[0], "zz.input", a[1]); L.sharedUse(s, a[0], "setTokenSource"); return one(s, null); });
        n("org/antlr/v4/runtime/ANTLRInputStream.<init>(Ljava/lang/String;)", (s, a, d) -> { s.put(a[0], "zz.input", a[1]); return nul(a[1]) ? npe(s) : one(s, null); });
        n("org/antlr/v4/runtime/CommonTokenStream.fill org/antlr/v4/runtime/BufferedTokenStream.fill", (s, a, d) -> one(s, null));
        // ---------------- atomics and locks
        for (String k : new String[]{"java/util/concurrent/locks/ReentrantLock", "java/util/concurrent/locks/ReentrantReadWriteLock", "java/util/concurrent/locks/ReentrantReadWriteLock$ReadLock", "java/util/concurrent/locks/ReentrantReadWriteLock$WriteLock", "java/util/concurrent/locks/Lock"})
            n(k + ".<init> " + k + ".lock " + k + ".unlock", (s, a, d) -> one(s, null));
    }

    boolean nats2(String k) { return L.nats.containsKey(k); }
    static String min(String a, String b) { return a.compareTo(b) < 0 ? a : b; }
    static String max(String a, String b) { return a.compareTo(b) < 0 ? b : a; }

    static Integer scaleOf(V v) {
        String f = form(v); Poly p = num(v);
        if (f.equals("int")) return 0;
        if (f.startsWith("scale:")) return Integer.parseInt(f.substring(6));
        if (f.equals("strip") && p.isConst()) return new java.math.BigDecimal(Str.dec(p.constant())).stripTrailingZeros().scale();
        return null;
    }

    static Poly version(Str a, Str b) {
        if (a.equals(b)) return Poly.ZERO;
        if (a.isConst() && b.isConst()) return Poly.of(Integer.signum(new org.apache.maven.artifact.versioning.ComparableVersion(a.constant()).compareTo(new org.apache.maven.artifact.versioning.ComparableVersion(b.constant()))));
        return rank("version", a.key()).sub(rank("version", b.key()));
    }

    /** the day a second lies in: exact for a day's seconds plus a time of day */
    static Poly day(Poly secs) {
        Poly q = Poly.ZERO, r = Poly.ZERO;
        for (var e : secs.t.entrySet()) {
            Poly one = Poly.mono(e.getKey());
            Rat k = e.getValue().div(Rat.of(86400));
            if (k.isInt() && one.integral()) q = q.add(one.scale(k)); else r = r.add(one.scale(e.getValue()));
        }
        if (Facts.EMPTY.itv(r).within(new Itv(Rat.ZERO, false, Rat.of(86400), true))) return q;
        return day1(secs);
    }
    static Poly year(Poly day) { return Poly.var("year(" + day.key() + ")", Itv.of(-999999999, 999999999), true, day); }
    static Poly month(Poly day) { return Poly.var("month(" + day.key() + ")", Itv.of(1, 12), true); }
    static Poly dayOfMonth(Poly day) { return Poly.var("day of month(" + day.key() + ")", Itv.of(1, 31), true); }
    /** day of the year: the epoch day less the days of the years before, of which those in leap years are a term of the year */
    static Poly dayOfYear(Poly day) {
        Poly y = year(day);
        return day.sub(y.sub(Poly.of(1970)).scale(Rat.of(365))).sub(Poly.var("leap days before " + y.key(), Itv.INT, true)).add(Poly.ONE);
    }
    private static Poly day1(Poly secs) { return Poly.var("day(" + secs.key() + ")", DAYS, true); }

    static final String ZDT = "java/time/ZonedDateTime", INST = "java/time/Instant";
    /** seconds since the epoch of a zoned date time: what the zone adds is only known for UTC */
    static Poly instant(V.Im z) { return z.form.equals("clock UTC") || z.form.equals("UTC") || z.form.equals("Z") ? z.num : z.num.sub(Poly.var("offset of " + z.form + " at " + z.num.key(), new Itv(Rat.of(-64800), true, Rat.of(64800), true), true)); }
    static String zone(V z) { return z instanceof V.Im m ? m.konst != null ? m.konst.toString() : m.key : "" + z; }
    List<Out> between(State s, V unit, V a, V b) {
        String u = unit instanceof V.Im m && m.konst != null ? m.konst.toString() : null;
        if (!(a instanceof V.Im x) || !(b instanceof V.Im y) || x.num == null || y.num == null || u == null) return null;
        if (x.cls.equals(LD) && y.cls.equals(LD)) {
            Poly d = y.num.sub(x.num);
            if (u.equals("Days")) return one(s, J(d));
            if (u.equals("Weeks")) return L.quotient(s, d, Poly.of(7));
            if (u.equals("Hours") || u.equals("Minutes") || u.equals("Seconds")) return L.thrown(s, "java/time/temporal/UnsupportedTemporalTypeException", "Unsupported unit: " + u);
        }
        // between zoned date times of one zone days are calendar days; between instants everything is elapsed time
        Long len = u.equals("Days") ? Long.valueOf(86400) : u.equals("Hours") ? Long.valueOf(3600) : u.equals("Minutes") ? Long.valueOf(60) : u.equals("Seconds") ? Long.valueOf(1) : null;
        if (len != null && x.cls.equals(y.cls) && (x.cls.equals(LDT) || x.cls.equals(ZDT) || x.cls.equals(INST))) {
            Poly d = x.cls.equals(ZDT) && !(u.equals("Days") && x.form.equals(y.form)) ? instant(y).sub(instant(x)) : y.num.sub(x.num);
            return L.then(L.trunc(s, d.scale(Rat.of(BigInteger.ONE, BigInteger.valueOf(len)))), (t, v) -> one(t, J(num(v))));
        }
        if (x.cls.equals(LDT) && y.cls.equals(LD)) return L.thrown(s, "java/time/DateTimeException", "Unable to obtain LocalDateTime");
        return one(s, J(Poly.var(u + " between " + x.num.key() + " and " + y.num.key(), Itv.LONG, true)));
    }

    static final List<java.time.LocalDateTime> SAMPLES = List.of(java.time.LocalDateTime.of(2024, 3, 15, 10, 11, 12), java.time.LocalDateTime.of(2024, 12, 31, 23, 59, 59), java.time.LocalDateTime.of(2024, 2, 29, 0, 0, 0), java.time.LocalDateTime.of(1999, 1, 1, 13, 0, 1), java.time.LocalDateTime.of(1, 1, 3, 12, 30, 0), java.time.LocalDateTime.of(9999, 12, 31, 0, 0, 59), java.time.LocalDateTime.of(2021, 1, 2, 20, 5, 0));
    List<Out> date(State s, V[] a, String cls) {
        if (nul(a[0])) return npe(s);
        Str x = str(a[0]); if (x == null) return null;
        java.time.format.DateTimeFormatter f; String fk;
        if (a.length > 1) { if (!(a[1] instanceof V.Im m) || !(m.konst instanceof java.time.format.DateTimeFormatter g)) return null; f = g; fk = m.key; }
        else { f = cls.equals(LD) ? java.time.format.DateTimeFormatter.ISO_LOCAL_DATE : java.time.format.DateTimeFormatter.ISO_LOCAL_DATE_TIME; fk = "ISO"; }
        Lib.K bad = t -> L.thrown(t, "java/time/format/DateTimeParseException", "could not be parsed");
        if (x.isConst()) {
            try { Object o = cls.equals(LD) ? java.time.LocalDate.parse(x.constant(), f) : java.time.LocalDateTime.parse(x.constant(), f); return one(s, L.abs(s, o, o.getClass())); } catch (java.time.format.DateTimeParseException e) { return bad.go(s); }
        }
        Str.T t = x.text();
        if (t != null) {
            if (!dateForm(t)) return bad.go(s);
            // the pattern is compared with the documented one on sample days: all agree, or the reading differs for some texts
            boolean same = false, other = false, fails = false;
            for (java.time.LocalDateTime w : SAMPLES) {
                String sample = String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", w.getYear(), w.getMonthValue(), w.getDayOfMonth()) + (t.form().equals("date") ? "" : String.format(java.util.Locale.ROOT, t.form().equals("datetime") ? " %02d:%02d:%02d" : "T%02d:%02d:%02d", w.getHour(), w.getMinute(), w.getSecond()));
                try {
                    boolean eq = cls.equals(LD) ? java.time.LocalDate.parse(sample, f).equals(w.toLocalDate()) : java.time.LocalDateTime.parse(sample, f).equals(w);
                    if (eq) same = true; else other = true;
                } catch (java.time.DateTimeException e) { fails = true; }
            }
            List<Out> r = new ArrayList<>();
            boolean fork = (same ? 1 : 0) + (other ? 1 : 0) + (fails ? 1 : 0) > 1;
            Lib.K good = u -> one(u, V.Im.num(cls, cls.equals(LD) && !t.form().equals("date") ? day(t.p()) : t.p())), wrong = u -> one(u, V.Im.num(cls, Poly.var("other reading of " + x.key(), cls.equals(LD) ? DAYS : SECS, cls.equals(LD))));
            if (!fork) return same ? good.go(s) : other ? wrong.go(s) : bad.go(s);
            String pk = x.key() + " is read as written by " + fk;
            boolean ot = other, fl = fails, sm = same;
            return L.pred(s, pk, u -> sm ? good.go(u) : wrong.go(u), u -> ot && sm ? wrong.go(u) : bad.go(u));
        }
        if (plain(x)) return bad.go(s);
        return L.pred(s, x.key() + " is a " + (cls.equals(LD) ? "date" : "datetime"), u -> one(u, V.Im.num(cls, Poly.var((cls.equals(LD) ? "date " : "datetime ") + x.key(), cls.equals(LD) ? DAYS : SECS, true))), bad);
    }

    static boolean numChars(String c) { for (char ch : c.toCharArray()) if (!(Character.isDigit(ch) || ch == '.' || ch == '-' || ch == 'E' || ch == '+')) return false; return true; }
    static boolean edgeSolid(Str x) {
        if (x.parts.isEmpty()) return false;
        Str.Part f = x.parts.get(0), l = x.parts.get(x.parts.size() - 1);
        return solid(f, true) && solid(l, false);
    }
    static boolean solid(Str.Part p, boolean first) { return p instanceof Str.T || (p instanceof Str.C c && !Character.isWhitespace(first ? c.s().charAt(0) : c.s().charAt(c.s().length() - 1))) || (p instanceof Str.A a && Lib.solidAtom(a)); }
    /** a text that contains neither quotes nor dots */
    static boolean word(Str x) { return plain(x) && Lib.solidAtom((Str.A) x.parts.get(0)); }
    /** blanks at the edges removed: the text itself, or a shorter one */
    List<Out> edges(State s, Str x) {
        Str y = Str.atom((x.parts.get(0) instanceof Str.A a && a.key().startsWith("~") ? "~?" : "") + "trim(" + x.key() + ")");
        return L.pred(s, "blank edges(" + x.key() + ")", t -> { t.facts = t.facts.assume(len(x).sub(len(y)), Facts.POS); if (t.facts != null) t.facts = t.facts.assume(equality(x, y), Facts.NEG | Facts.POS); return t.facts == null ? List.of() : one(t, V.Im.str(y)); }, t -> one(t, V.Im.str(x)));
    }

    List<Out> blank(State s, Str x) {
        if (x.isConst()) return one(s, bool(x.constant().isBlank()));
        for (Str.Part p : x.parts) { if (p instanceof Str.T || (p instanceof Str.A a && Lib.solidAtom(a))) return one(s, bool(false)); if (p instanceof Str.C c && !c.s().isBlank()) return one(s, bool(false)); }
        return L.pred(s, "blank(" + x.key() + ")", t -> one(t, bool(true)), t -> { t.facts = t.facts.assume(len(x), Facts.POS); return t.facts == null ? List.of() : one(t, bool(false)); });
    }

    static Str lower(Str x) { return mapA(x, "lower"); }
    static Str mapA(Str x, String f) {
        Str r = Str.of("");
        for (Str.Part p : x.parts) {
            if (p instanceof Str.C c) r = r.cat(Str.of(f.equals("lower") ? c.s().toLowerCase(Locale.ROOT) : c.s().toUpperCase(Locale.ROOT)));
            else if (p instanceof Str.A a) r = r.cat(Str.atom((a.key().startsWith("~?") ? "~?" : a.key().startsWith("~") ? "~" : "") + f + "(" + a.key() + ")"));
            else r = r.cat(new1(p));
        }
        return r;
    }
    static Str new1(Str.Part p) { return p instanceof Str.T t ? Str.text(t.p(), t.canon(), t.form()) : Str.of(((Str.C) p).s()); }

    /** substring by edges: constant-length prefixes and suffixes that fall into constant parts */
    List<Out> substring(State s, Str x, Poly from, Poly to) {
        if (from == null || to == null) return null;
        Poly n = len(x);
        Poly tail = n.sub(to);
        if (from.equals(Poly.ZERO) && tail.equals(Poly.ZERO)) return one(s, V.Im.str(x));
        if (from.isConst() && to.isConst() && x.isConst()) return null;
        if (from.isConst() && tail.isConst()) {
            int a = from.constant().n.intValue(), b = tail.constant().n.intValue();
            List<Str.Part> l = new ArrayList<>(x.parts);
            boolean ok = a >= 0 && b >= 0;
            if (ok && a > 0) { if (l.get(0) instanceof Str.C c && c.s().length() >= a) { l.set(0, new Str.C(c.s().substring(a))); } else ok = false; }
            if (ok && b > 0) { int k = l.size() - 1; if (l.get(k) instanceof Str.C c && c.s().length() >= b) l.set(k, new Str.C(c.s().substring(0, c.s().length() - b))); else ok = false; }
            if (ok) { Str r = Str.of(""); for (Str.Part p : l) r = r.cat(p instanceof Str.A q ? Str.atom(q.key()) : new1(p)); return one(s, V.Im.str(r)); }
        }
        Poly f = from, t2 = to;
        return L.cond(s, from, Facts.NEG, t -> L.thrown(t, "java/lang/StringIndexOutOfBoundsException", null), t -> L.cond(t, f.sub(t2), Facts.POS, u -> L.thrown(u, "java/lang/StringIndexOutOfBoundsException", null), u -> L.cond(u, t2.sub(n), Facts.POS, w -> L.thrown(w, "java/lang/StringIndexOutOfBoundsException", null), w -> one(w, V.Im.str(Str.atom("sub(" + x.key() + "," + f.key() + "," + t2.key() + ")"))))));
    }

    Str sb(State s, V b) { State.Obj o = s.obj(b); V v = o == null ? null : o.get("s"); return v == null ? Str.of("") : str(v); }

    List<Out> enumValues(State s, V c) {
        if (!(c instanceof V.Cls k)) return null;
        return L.then(in.init(s, k.name), (t, v) -> { V arr = t.stat(k.name + ".$VALUES"); State.Arr x = t.arr(arr); return x == null ? null : one(t, t.alloc(new State.Arr(x.desc, x.e.clone()))); });
    }

    List<Out> copyOf(State s, V arr, Poly from, Poly to, String cls) {
        State.Arr x = s.arr(arr);
        if (x == null || !from.isConst() || !to.isConst()) return null;
        int f = from.constant().n.intValue(), t = to.constant().n.intValue();
        if (t - f < 0) return L.thrown(s, "java/lang/NegativeArraySizeException", null);
        V[] e = new V[t - f]; Arrays.fill(e, Interp.defaultValue(x.desc.substring(1)));
        for (int i = f; i < Math.min(t, x.e.length); i++) e[i - f] = x.e[i];
        return one(s, s.array(cls == null ? x.desc : cls, e));
    }

    List<Out> arraycopy(State s, V[] a) {
        State.Arr x = s.arr(a[0]), y = s.arr(a[2]);
        Poly p = num(a[1]), q = num(a[3]), n = num(a[4]);
        if (x == null || y == null || !p.isConst() || !q.isConst() || !n.isConst()) { s.event("UNMODELLED", "System.arraycopy on symbolic bounds", null); return one(s, null); }
        int i = p.constant().n.intValue(), j = q.constant().n.intValue(), k = n.constant().n.intValue();
        if (i < 0 || j < 0 || k < 0 || i + k > x.e.length || j + k > y.e.length) return L.thrown(s, "java/lang/ArrayIndexOutOfBoundsException", null);
        V[] e = y.e.clone(); System.arraycopy(x.e, i, e, j, k);
        if (s.isShared(a[2]) && k > 0) s.event("SHAREDWRITE", "array " + y.desc, null, new State.Acc(((V.Ref) a[2]).id + ".[]", ((V.Ref) a[2]).id, s.held(), false));
        s.set(a[2], new State.Arr(y.desc, e));
        return one(s, null);
    }

    /** the current day in the zone of the given clock or zone (none: the system's) */
    private static Poly today(V[] a) {
        String z = a.length == 0 || a[0] instanceof V.Im m && "system clock".equals(m.key) ? "" : " in " + (a[0] instanceof V.Im m && m.key != null ? m.key : a[0]);
        return Poly.var("today" + z, Lib.DAYS, true);
    }
    /** Math.pow of whole numbers is exact when the result is representable */
    static Rat power(Poly a, Poly b) {
        if (!a.isConst() || !b.isConst() || !a.constant().isInt() || !b.constant().isInt()) return null;
        java.math.BigInteger x = a.constant().n; int e = b.constant().n.bitLength() > 10 ? Integer.MAX_VALUE : b.constant().n.intValue();
        if (Math.abs(e) > 200 && x.abs().bitLength() > 1) return null;
        if (e < 0 && x.signum() == 0) return null;
        if (e == Integer.MAX_VALUE) return null;
        java.math.BigInteger r = x.pow(Math.abs(e)), odd = r.signum() == 0 ? r : r.shiftRight(r.getLowestSetBit());
        if (odd.bitLength() > 53 || r.bitLength() > 900) return null;
        if (e >= 0) return Rat.of(r);
        return odd.abs().equals(java.math.BigInteger.ONE) ? Rat.of(java.math.BigInteger.valueOf(r.signum()), r.abs()) : null;
    }
}
