package zz;
import java.util.function.*;
public class AtomicReference<T> {
    T v;
    public AtomicReference() { }
    public AtomicReference(T v) { this.v = v; }
    public final T get() { return v; }
    public final void set(T x) { v = x; }
    public final void lazySet(T x) { v = x; }
    public final T getAndSet(T x) { T o = v; v = x; return o; }
    public final boolean compareAndSet(T e, T x) { if (v != e) return false; v = x; return true; }
    public final T updateAndGet(UnaryOperator<T> f) { v = f.apply(v); return v; }
    public final T getAndUpdate(UnaryOperator<T> f) { T o = v; v = f.apply(v); return o; }
    public final T accumulateAndGet(T x, BinaryOperator<T> f) { v = f.apply(v, x); return v; }
    public String toString() { return "" + v; }
}
