package sa;

import java.util.function.*;
import static sa.Dsl.*;

/** A symbolic operand: a data value of some kind under a field name, or a literal. */
final class Arg {
    final String name, kind, label; // kind: INTEGER LONG DECIMAL STRING VERSION BOOLEAN DATE DATETIME
    final Poly p; final Str text; final Function<State, V> mk; final Tok lit;
    boolean numeral; // text that reads as the number p
    private Arg(String name, String kind, String label, Poly p, Str text, Function<State, V> mk, Tok lit) { this.name = name; this.kind = kind; this.label = label; this.p = p; this.text = text; this.mk = mk; this.lit = lit; }

    /** the same value under another field name */
    Arg named(String field) { Arg a = new Arg(field, kind, label, p, text, mk, lit); a.numeral = numeral; return a; }

    E e() { return lit != null ? lit : fld(name); }
    boolean data() { return lit == null; }
    void put(State s, Model.Data d) { if (mk != null) d.put(name, mk.apply(s)); }
    boolean num() { return kind.equals("INTEGER") || kind.equals("LONG") || kind.equals("DECIMAL"); }
    @Override public String toString() { return lit != null ? label + " literal" : name + ":" + label; }

    static final Itv NONNEG = new Itv(Rat.ZERO, false, null, true);
    static Poly ip(String n) { return Poly.var(n, Itv.INT, true); }
    static Poly lp(String n) { return Poly.var(n, Itv.LONG, true); }
    static Poly dp(String n) { return Poly.var(n, Itv.ALL, false); }

    static Arg of(String n, String kind, String label, Poly p, Str text, V v) { return new Arg(n, kind, label, p, text, s -> v, null); }
    static Arg lit(String kind, String label, Poly p, Str text, Tok t) { return new Arg(null, kind, label, p, text, null, t); }

    // data values
    static Arg intD(String n) { Poly p = ip(n); return of(n, "INTEGER", "Integer", p, Str.text(p, true, null), V.Im.num(Lib.INTEGER, p)); }
    static Arg longD(String n) { Poly p = lp(n); return of(n, "LONG", "Long", p, Str.text(p, true, null), V.Im.num(Lib.LONG, p)); }
    static Arg decD(String n) { Poly p = dp(n); return of(n, "DECIMAL", "BigDecimal", p, Str.text(p, false, "dec:of:" + n), V.Im.dec(p, "of:" + n)); }
    static Arg dblD(String n) { Poly p = dp(n); return of(n, "DECIMAL", "Double", p, Str.text(p, false, "dbl"), V.Im.num(Lib.DOUBLE, p)); }
    static Arg fltD(String n) { Poly p = dp(n); return of(n, "DECIMAL", "Float", p, Str.text(p, false, "dbl"), V.Im.num(Lib.FLOAT, p)); }
    /** a text that is no numeral, date or boolean; in the second pass it may be empty or begin or end with blanks */
    static Str word(String n) { return Str.atom((Dsl.rough ? "~?" : "~") + n); }
    static Arg strD(String n) { Str t = word(n); return of(n, "STRING", "text", null, t, V.Im.str(t)); }
    static Arg verD(String n) { Str t = Str.atom("~" + n); return of(n, "VERSION", "ComparableVersion", null, t, V.Im.of(Lib.CV, t)); }
    /** a text that is an integer numeral */
    static Arg intTextD(String n) { Poly p = ip(n); Str t = Str.text(p, true, null); Arg a = of(n, "STRING", "numeral text", p, t, V.Im.str(t)); a.numeral = true; return a; }
    static Arg decTextD(String n) { Poly p = dp(n); Str t = Str.text(p, true, null); Arg a = of(n, "STRING", "decimal numeral text", p, t, V.Im.str(t)); a.numeral = true; return a; }
    static Arg boolD(String n) { Poly p = Poly.var(n, Itv.BOOL, true); return of(n, "BOOLEAN", "Boolean", p, null, V.Im.num(Lib.BOOLEAN, p)); }
    static Arg dateD(String n) { Poly p = Poly.var(n, Lib.DAYS, true); return of(n, "DATE", "LocalDate", p, Str.text(p, false, "date"), V.Im.num(Lib.LD, p)); }
    static Arg dateTextD(String n) { Poly p = Poly.var(n, Lib.DAYS, true); Str t = Str.text(p, false, "date"); return of(n, "DATE", "date text", p, t, V.Im.str(t)); }
    static Arg dtD(String n) { Poly p = Poly.var(n, Lib.SECS, false); return of(n, "DATETIME", "LocalDateTime", p, Str.text(p, false, "isodt"), V.Im.num(Lib.LDT, p)); }
    static Arg dtTextD(String n) { Poly p = Poly.var(n, Lib.SECS, true); Str t = Str.text(p, false, "datetime"); return of(n, "DATETIME", "datetime text", p, t, V.Im.str(t)); }
    static Arg missing(String n) { return new Arg(n, "MISSING", "absent", null, null, null, null); }

    // literals
    static Arg intL(String n) { Poly p = Poly.var(n, Itv.of(0, Integer.MAX_VALUE), true); return lit("INTEGER", n + " int", p, Str.text(p, true, null), ilit(p)); }
    static Arg longL(String n) { Poly p = Poly.var(n, new Itv(Rat.of(1L + Integer.MAX_VALUE), false, Rat.of(Long.MAX_VALUE), false), true); return lit("LONG", n + " long", p, Str.text(p, true, null), ilit(p)); }
    static Arg decL(String n) { Poly p = Poly.var(n, NONNEG, false); return lit("DECIMAL", n + " decimal", p, Str.text(p, false, "dlit"), dlit(p)); }
    static Arg strL(String n) { Str t = word(n); return lit("STRING", n + " quoted text", null, t, Dsl.word(t)); }
    static Arg dqL(String n) { Str t = word(n); return lit("STRING", n + " double quoted text", null, t, Dsl.word(t, '"')); }
    static Arg verL(String n) { return lit("VERSION", n + " version", null, Str.atom("~" + n), ver("~" + n)); }
    static Arg boolL(boolean b) { return lit("BOOLEAN", "" + b, Poly.of(b ? 1 : 0), Str.of("" + b), bool(b)); }
    static Arg dateL(String n) { Poly p = Poly.var(n, Lib.DAYS, true); return lit("DATE", n + " date", p, Str.text(p, false, "date"), date(p)); }
    static Arg dtL(String n) { Poly p = Poly.var(n, Lib.SECS, true); return lit("DATETIME", n + " datetime", p, Str.text(p, false, "datetime"), datetime(p)); }
    /** a constant text literal */
    static Arg wordL(String t) { return lit("STRING", "'" + t + "'", null, Str.of(t), Dsl.word(Str.of(t))); }
    /** a constant text as data */
    static Arg wordD(String n, String t) { return of(n, "STRING", n + " = '" + t + "'", null, Str.of(t), V.Im.str(Str.of(t))); }
    /** a constant whole number as data */
    static Arg numD(String n, long v) { Poly p = Poly.of(v); boolean i = v == (int) v; return of(n, i ? "INTEGER" : "LONG", n + " = " + v, p, Str.of("" + v), V.Im.num(i ? Lib.INTEGER : Lib.LONG, p)); }
    static Arg num(long v) { Poly p = Poly.of(v); return lit(v <= Integer.MAX_VALUE ? "INTEGER" : "LONG", "" + v, p, Str.of("" + v), ilit(p)); }
}
