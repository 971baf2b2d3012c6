package sa;

import java.util.*;
import org.objectweb.asm.Handle;

/** Abstract values. */
public abstract class V {
    public static final V NULL = new Null();

    static final class Null extends V { @Override public String toString() { return "null"; } }

    /** int, boolean, byte, short, char */
    static final class I extends V {
        final Poly p;
        I(Poly p) { this.p = p; }
        static I of(long v) { return new I(Poly.of(v)); }
        @Override public boolean equals(Object o) { return o instanceof I && ((I) o).p.equals(p); }
        @Override public int hashCode() { return p.hashCode(); }
        @Override public String toString() { return p.toString(); }
    }

    static final class J extends V {
        final Poly p;
        J(Poly p) { this.p = p; }
        @Override public boolean equals(Object o) { return o instanceof J && ((J) o).p.equals(p); }
        @Override public int hashCode() { return p.hashCode() + 1; }
        @Override public String toString() { return p + "L"; }
    }

    /** float / double; the term denotes the value the shortest decimal text denotes */
    static final class D extends V {
        final Poly p; final boolean dbl;
        D(Poly p, boolean dbl) { this.p = p; this.dbl = dbl; }
        @Override public boolean equals(Object o) { return o instanceof D && ((D) o).p.equals(p) && ((D) o).dbl == dbl; }
        @Override public int hashCode() { return p.hashCode() + 2; }
        @Override public String toString() { return p + "d"; }
    }

    static final class Ref extends V {
        final int id;
        Ref(int id) { this.id = id; }
        @Override public boolean equals(Object o) { return o instanceof Ref && ((Ref) o).id == id; }
        @Override public int hashCode() { return id; }
        @Override public String toString() { return "#" + id; }
    }

    /** An immutable value object (String, boxes, BigDecimal, LocalDate, ...): class + term; ident separates distinct objects. */
    static final class Im extends V {
        final String cls; final Poly num; final Str str; final String key; final String form; final Object konst; final long ident;
        private static long next = 1;
        private Im(String cls, Poly num, Str str, String key, String form, Object konst, long ident) { this.cls = cls; this.num = num; this.str = str; this.key = key; this.form = form; this.konst = konst; this.ident = ident; }
        static Im num(String cls, Poly p) {
            boolean cached = p.isConst() && (cls.equals("java/lang/Boolean") || ((cls.equals("java/lang/Integer") || cls.equals("java/lang/Long")) && p.constant().compareTo(Rat.of(-128)) >= 0 && p.constant().compareTo(Rat.of(127)) <= 0));
            return new Im(cls, p, null, p.key(), null, null, cached ? -2 : next++);
        }
        /** form: "int" = scale 0, "strip" = no trailing zeros, "scale:n", else an identifier of the representation */
        static Im dec(Poly p, String form) { return new Im("java/math/BigDecimal", p, null, p.key(), form, null, next++); }
        /** a number of another class with a qualifier, such as the zone of a date time */
        static Im form(String cls, Poly p, String form) { return new Im(cls, p, null, p.key() + " " + form, form, null, next++); }
        /** a computed string */
        static Im str(Str s) { return new Im("java/lang/String", null, s, s.key(), null, null, next++); }
        /** an interned literal */
        static Im lit(String s) { Str x = Str.of(s); return new Im("java/lang/String", null, x, x.key(), null, null, -1); }
        static Im of(String cls, Str s) { return new Im(cls, null, s, s.key(), null, null, next++); }
        /** a constant library object */
        static Im konst(String cls, Object o, String key) { return new Im(cls, null, null, key, null, o, -3); }
        static Im key(String cls, String key) { return new Im(cls, null, null, key, null, null, next++); }
        boolean sameObject(Im o) { return ident == o.ident && cls.equals(o.cls) && key.equals(o.key); }
        @Override public boolean equals(Object o) { return o instanceof Im x && x.cls.equals(cls) && x.key.equals(key) && Objects.equals(form, x.form); }
        @Override public int hashCode() { return cls.hashCode() * 31 + key.hashCode(); }
        @Override public String toString() { return cls.substring(cls.lastIndexOf('/') + 1) + "<" + key + ">"; }
    }

    static final class Fn extends V {
        final String iface, samName, samDesc; final Handle impl; final List<V> captured; final String instDesc;
        Fn(String iface, String samName, String samDesc, Handle impl, List<V> captured, String instDesc) { this.iface = iface; this.samName = samName; this.samDesc = samDesc; this.impl = impl; this.captured = captured; this.instDesc = instDesc; }
        @Override public String toString() { return "lambda " + impl.getName(); }
    }

    static final class Cls extends V {
        final String name;
        Cls(String name) { this.name = name; }
        @Override public boolean equals(Object o) { return o instanceof Cls && ((Cls) o).name.equals(name); }
        @Override public int hashCode() { return name.hashCode(); }
        @Override public String toString() { return name + ".class"; }
    }

    /** no information */
    static final class Top extends V {
        final String type, why;
        Top(String type, String why) { this.type = type; this.why = why; }
        @Override public String toString() { return "T(" + why + ")"; }
    }

    /** uninitialised object reference created by NEW for an immutable class; replaced by its constructor */
    static final class Uninit extends V {
        final String cls; final int tok;
        private static int next;
        Uninit(String cls) { this.cls = cls; this.tok = ++next; }
        @Override public String toString() { return "new " + cls; }
    }
}
