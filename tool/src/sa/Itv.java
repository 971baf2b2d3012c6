package sa;

/** Interval domain over the rationals with open or closed ends; null bounds are infinite. */
public record Itv(Rat lo, boolean loOpen, Rat hi, boolean hiOpen) {
    public static final Itv ALL = new Itv(null, true, null, true);
    public static final Itv INT = of(Integer.MIN_VALUE, Integer.MAX_VALUE);
    public static final Itv LONG = of(Long.MIN_VALUE, Long.MAX_VALUE);
    public static final Itv BOOL = of(0, 1);
    public static final Itv NAT = of(0, Integer.MAX_VALUE);
    public static final Itv NEG = new Itv(null, true, Rat.ZERO, true);
    public static final Itv POS = new Itv(Rat.ZERO, true, null, true);

    public static Itv of(long a, long b) { return new Itv(Rat.of(a), false, Rat.of(b), false); }
    public static Itv pt(Rat v) { return new Itv(v, false, v, false); }
    public static Itv below(Rat v, boolean open) { return new Itv(null, true, v, open); }
    public static Itv above(Rat v, boolean open) { return new Itv(v, open, null, true); }

    boolean empty() {
        if (lo == null || hi == null) return false;
        int c = lo.compareTo(hi);
        return c > 0 || (c == 0 && (loOpen || hiOpen));
    }

    boolean isPt() { return lo != null && hi != null && lo.equals(hi) && !loOpen && !hiOpen; }

    boolean contains(Rat v) {
        if (lo != null) { int c = lo.compareTo(v); if (c > 0 || (c == 0 && loOpen)) return false; }
        if (hi != null) { int c = hi.compareTo(v); if (c < 0 || (c == 0 && hiOpen)) return false; }
        return true;
    }

    boolean within(Itv o) { return meet(o).equals(this) || meet(o).same(this); }

    boolean same(Itv o) {
        return java.util.Objects.equals(lo, o.lo) && java.util.Objects.equals(hi, o.hi) && (lo == null || loOpen == o.loOpen) && (hi == null || hiOpen == o.hiOpen);
    }

    Itv meet(Itv o) {
        Rat l = lo, h = hi; boolean lopen = loOpen, hopen = hiOpen;
        if (o.lo != null && (l == null || o.lo.compareTo(l) > 0)) { l = o.lo; lopen = o.loOpen; }
        else if (o.lo != null && o.lo.equals(l)) lopen |= o.loOpen;
        if (o.hi != null && (h == null || o.hi.compareTo(h) < 0)) { h = o.hi; hopen = o.hiOpen; }
        else if (o.hi != null && o.hi.equals(h)) hopen |= o.hiOpen;
        return new Itv(l, lopen, h, hopen);
    }

    Itv add(Itv o) {
        return new Itv(lo == null || o.lo == null ? null : lo.add(o.lo), loOpen || o.loOpen, hi == null || o.hi == null ? null : hi.add(o.hi), hiOpen || o.hiOpen);
    }

    Itv scale(Rat k) {
        if (k.sign() == 0) return pt(Rat.ZERO);
        Rat a = lo == null ? null : lo.mul(k), b = hi == null ? null : hi.mul(k);
        return k.sign() > 0 ? new Itv(a, loOpen, b, hiOpen) : new Itv(b, hiOpen, a, loOpen);
    }

    Itv mul(Itv o) {
        if (lo == null || hi == null || o.lo == null || o.hi == null) {
            if (this == o || this.same(o)) return ALL;
            if (isPt()) return o.scale(lo);
            if (o.isPt()) return scale(o.lo);
            boolean nn = lo != null && lo.sign() >= 0 && o.lo != null && o.lo.sign() >= 0;
            return nn ? above(lo.mul(o.lo), false) : ALL;
        }
        Rat[] p = {lo.mul(o.lo), lo.mul(o.hi), hi.mul(o.lo), hi.mul(o.hi)};
        Rat a = p[0], b = p[0];
        for (Rat r : p) { if (r.compareTo(a) < 0) a = r; if (r.compareTo(b) > 0) b = r; }
        return new Itv(a, false, b, false);
    }

    Itv tighten() {
        Rat l = lo, h = hi;
        if (l != null) l = l.isInt() ? (loOpen ? l.add(Rat.ONE) : l) : l.ceil();
        if (h != null) h = h.isInt() ? (hiOpen ? h.sub(Rat.ONE) : h) : h.floor();
        return new Itv(l, l == null, h, h == null);
    }

    @Override public String toString() { return (loOpen ? "(" : "[") + (lo == null ? "-inf" : lo) + "," + (hi == null ? "inf" : hi) + (hiOpen ? ")" : "]"); }
}
