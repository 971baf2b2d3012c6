package zz;
import java.util.function.*;
public class AtomicLong extends Number {
    long v;
    public AtomicLong() { }
    public AtomicLong(long v) { this.v = v; }
    public final long get() { return v; }
    public final long getPlain() { return v; }
    public final long getAcquire() { return v; }
    public final void set(long x) { v = x; }
    public final void lazySet(long x) { v = x; }
    public final long getAndSet(long x) { long o = v; v = x; return o; }
    public final boolean compareAndSet(long e, long x) { if (v != e) return false; v = x; return true; }
    public final long getAndIncrement() { long o = v; v = o + 1; return o; }
    public final long getAndDecrement() { long o = v; v = o - 1; return o; }
    public final long getAndAdd(long d) { long o = v; v = o + d; return o; }
    public final long incrementAndGet() { v = v + 1; return v; }
    public final long decrementAndGet() { v = v - 1; return v; }
    public final long addAndGet(long d) { v = v + d; return v; }
    public final long updateAndGet(LongUnaryOperator f) { v = f.applyAsLong(v); return v; }
    public final long getAndUpdate(LongUnaryOperator f) { long o = v; v = f.applyAsLong(v); return o; }
    public final long accumulateAndGet(long x, LongBinaryOperator f) { v = f.applyAsLong(v, x); return v; }
    public int intValue() { return (int) v; }
    public long longValue() { return v; }
    public float floatValue() { return v; }
    public double doubleValue() { return v; }
    public String toString() { return "" + v; }
}
