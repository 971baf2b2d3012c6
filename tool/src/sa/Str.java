package sa;

import java.util.*;

/** String terms: concatenations of constants, named unknowns and decimal texts of numeric terms. */
public final class Str {
    sealed interface Part permits C, A, T { String key(); }
    record C(String s) implements Part { public String key() { return "\"" + s + "\""; } }
    /** named unknown / uninterpreted text */
    record A(String key) implements Part { }
    /** decimal text of a number; canon: plain, without trailing zeros */
    record T(Poly p, boolean canon, String form) implements Part { public String key() { return (canon ? "txt(" : "txt'" + form + "(") + p.key() + ")"; } }

    final List<Part> parts;
    private String key;

    private Str(List<Part> parts) { this.parts = parts; }

    static Str of(String s) { return new Str(s.isEmpty() ? List.of() : List.of(new C(s))); }
    static Str atom(String k) { return new Str(List.of(new A(k))); }
    static Str text(Poly p, boolean canon, String form) {
        if (p.isConst() && canon) return of(dec(p.constant()));
        return new Str(List.of(new T(p, canon, form)));
    }
    static String dec(Rat r) {
        if (r.isInt()) return r.n.toString();
        return new java.math.BigDecimal(r.n).divide(new java.math.BigDecimal(r.d)).toPlainString();
    }
    Str cat(Str o) {
        List<Part> l = new ArrayList<>(parts);
        for (Part p : o.parts) {
            if (p instanceof C c && !l.isEmpty() && l.get(l.size() - 1) instanceof C d) l.set(l.size() - 1, new C(d.s + c.s)); else l.add(p);
        }
        return new Str(l);
    }
    boolean isConst() { return parts.isEmpty() || (parts.size() == 1 && parts.get(0) instanceof C); }
    String constant() { return parts.isEmpty() ? "" : ((C) parts.get(0)).s; }
    T text() { return parts.size() == 1 && parts.get(0) instanceof T t ? t : null; }
    String key() {
        if (key == null) { StringBuilder sb = new StringBuilder(); for (Part p : parts) sb.append(sb.length() > 0 ? "." : "").append(p.key()); key = parts.isEmpty() ? "\"\"" : sb.toString(); }
        return key;
    }
    @Override public boolean equals(Object o) { return o instanceof Str && ((Str) o).key().equals(key()); }
    @Override public int hashCode() { return key().hashCode(); }
    @Override public String toString() { return key(); }
}
