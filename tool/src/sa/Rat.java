package sa;

import java.math.BigInteger;

/** Exact rational numbers. */
public final class Rat implements Comparable<Rat> {
    public static final Rat ZERO = of(0), ONE = of(1), MINUS_ONE = of(-1);
    final BigInteger n, d;

    private Rat(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

    public static Rat of(long v) { return new Rat(BigInteger.valueOf(v), BigInteger.ONE); }

    public static Rat of(BigInteger v) { return new Rat(v, BigInteger.ONE); }

    public static Rat of(BigInteger n, BigInteger d) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        return new Rat(n, d);
    }

    public static Rat of(java.math.BigDecimal v) {
        return v.scale() <= 0 ? of(v.toBigIntegerExact()) : of(v.unscaledValue(), BigInteger.TEN.pow(v.scale()));
    }

    Rat add(Rat o) { return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Rat sub(Rat o) { return add(o.neg()); }
    Rat mul(Rat o) { return of(n.multiply(o.n), d.multiply(o.d)); }
    Rat div(Rat o) { return of(n.multiply(o.d), d.multiply(o.n)); }
    Rat neg() { return new Rat(n.negate(), d); }
    int sign() { return n.signum(); }
    boolean isInt() { return d.equals(BigInteger.ONE); }
    Rat floor() { BigInteger[] q = n.divideAndRemainder(d); return of(q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0]); }
    Rat ceil() { return neg().floor().neg(); }
    Rat trunc() { return of(n.divide(d)); }

    @Override public int compareTo(Rat o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    @Override public boolean equals(Object o) { return o instanceof Rat && n.equals(((Rat) o).n) && d.equals(((Rat) o).d); }
    @Override public int hashCode() { return n.hashCode() * 31 + d.hashCode(); }
    @Override public String toString() { return isInt() ? n.toString() : n + "/" + d; }
}
