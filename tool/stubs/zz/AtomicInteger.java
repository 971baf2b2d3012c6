package zz;
import java.util.function.*;
public class AtomicInteger extends Number {
    int v;
    public AtomicInteger() { }
    public AtomicInteger(int v) { this.v = v; }
    public final int get() { return v; }
    public final int getPlain() { return v; }
    public final int getAcquire() { return v; }
    public final void set(int x) { v = x; }
    public final void lazySet(int x) { v = x; }
    public final int getAndSet(int x) { int o = v; v = x; return o; }
    public final boolean compareAndSet(int e, int x) { if (v != e) return false; v = x; return true; }
    public final int getAndIncrement() { int o = v; v = o + 1; return o; }
    public final int getAndDecrement() { int o = v; v = o - 1; return o; }
    public final int getAndAdd(int d) { int o = v; v = o + d; return o; }
    public final int incrementAndGet() { v = v + 1; return v; }
    public final int decrementAndGet() { v = v - 1; return v; }
    public final int addAndGet(int d) { v = v + d; return v; }
    public final int updateAndGet(IntUnaryOperator f) { v = f.applyAsInt(v); return v; }
    public final int getAndUpdate(IntUnaryOperator f) { int o = v; v = f.applyAsInt(v); return o; }
    public final int accumulateAndGet(int x, IntBinaryOperator f) { v = f.applyAsInt(v, x); return v; }
    public int intValue() { return (int) v; }
    public long longValue() { return v; }
    public float floatValue() { return v; }
    public double doubleValue() { return v; }
    public String toString() { return "" + v; }
}
