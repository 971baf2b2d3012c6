package zz;
public class AtomicBoolean {
    boolean v;
    public AtomicBoolean() { }
    public AtomicBoolean(boolean v) { this.v = v; }
    public final boolean get() { return v; }
    public final void set(boolean x) { v = x; }
    public final void lazySet(boolean x) { v = x; }
    public final boolean getAndSet(boolean x) { boolean o = v; v = x; return o; }
    public final boolean compareAndSet(boolean e, boolean x) { if (v != e) return false; v = x; return true; }
    public String toString() { return "" + v; }
}
