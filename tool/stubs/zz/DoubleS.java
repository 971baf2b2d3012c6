package zz;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
public final class DoubleS implements DoubleStream {
    final Iterator<Double> it;
    public DoubleS(Iterator<Double> it) { this.it = it; }
    private Strm<Double> b() { return new Strm<>(it); }
    public DoubleStream filter(DoublePredicate p) { return new DoubleS(new Strm.Filter<>(it, x -> p.test(x))); }
    public DoubleStream map(DoubleUnaryOperator f) { return new DoubleS(new Strm.Mapped<Double, Double>(it, x -> f.applyAsDouble(x))); }
    public <U> Stream<U> mapToObj(DoubleFunction<? extends U> f) { return new Strm<>(new Strm.Mapped<Double, U>(it, x -> f.apply(x))); }
    public IntStream mapToInt(DoubleToIntFunction f) { return new IntS(new Strm.Mapped<Double, Integer>(it, x -> f.applyAsInt(x))); } public LongStream mapToLong(DoubleToLongFunction f) { return new LongS(new Strm.Mapped<Double, Long>(it, x -> f.applyAsLong(x))); }
    public DoubleStream flatMap(DoubleFunction<? extends DoubleStream> f) { return new DoubleS(new Strm.Flat<Double, Double>(it, x -> f.apply(x).boxed())); }
    public DoubleStream distinct() { return new DoubleS(new Strm.Late<>(it, null, 1)); }
    public DoubleStream sorted() { return new DoubleS(new Strm.Late<>(it, null, 0)); }
    public DoubleStream peek(DoubleConsumer c) { return new DoubleS(new Strm.Mapped<Double, Double>(it, x -> { c.accept(x); return x; })); }
    public DoubleStream limit(long n) { return new DoubleS(new Strm.Limit<>(it, n)); }
    public DoubleStream skip(long n) { return new DoubleS(new Strm.Skip<>(it, n)); }
    public void forEach(DoubleConsumer c) { while (it.hasNext()) c.accept(it.next()); }
    public void forEachOrdered(DoubleConsumer c) { forEach(c); }
    public double[] toArray() { ArrayList<Double> l = b().list(); double[] r = new double[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return r; }
    public double reduce(double id, DoubleBinaryOperator f) { double r = id; while (it.hasNext()) r = f.applyAsDouble(r, it.next()); return r; }
    public OptionalDouble reduce(DoubleBinaryOperator f) { if (!it.hasNext()) return OptionalDouble.empty(); double r = it.next(); while (it.hasNext()) r = f.applyAsDouble(r, it.next()); return OptionalDouble.of(r); }
    public <R> R collect(Supplier<R> s, ObjDoubleConsumer<R> f, BiConsumer<R, R> c) { R r = s.get(); while (it.hasNext()) f.accept(r, it.next()); return r; }
    public double sum() { double r = 0; while (it.hasNext()) r += it.next(); return r; }
    public OptionalDouble min() { return reduce((a, b) -> Math.min(a, b)); }
    public OptionalDouble max() { return reduce((a, b) -> Math.max(a, b)); }
    public long count() { long n = 0; while (it.hasNext()) { it.next(); n++; } return n; }
    public OptionalDouble average() { if (!it.hasNext()) return OptionalDouble.empty(); double r = 0; long n = 0; while (it.hasNext()) { r += it.next(); n++; } return OptionalDouble.of((double) r / n); }
    public DoubleSummaryStatistics summaryStatistics() { DoubleSummaryStatistics s = new DoubleSummaryStatistics(); while (it.hasNext()) s.accept((double) it.next()); return s; }
    public boolean anyMatch(DoublePredicate p) { while (it.hasNext()) if (p.test(it.next())) return true; return false; }
    public boolean allMatch(DoublePredicate p) { while (it.hasNext()) if (!p.test(it.next())) return false; return true; }
    public boolean noneMatch(DoublePredicate p) { return !anyMatch(p); }
    public OptionalDouble findFirst() { return it.hasNext() ? OptionalDouble.of(it.next()) : OptionalDouble.empty(); }
    public OptionalDouble findAny() { return findFirst(); }
    public Stream<Double> boxed() { return b(); }
    public DoubleStream sequential() { return this; }
    public DoubleStream parallel() { N.event("PARALLEL", "stream"); return this; }
    public DoubleStream unordered() { return this; }
    public DoubleStream onClose(Runnable r) { return this; }
    public void close() { }
    public boolean isParallel() { return false; }
    public PrimitiveIterator.OfDouble iterator() { return new PrimitiveIterator.OfDouble() { public boolean hasNext() { return it.hasNext(); } public double nextDouble() { return it.next(); } }; }
    public Spliterator.OfDouble spliterator() { return null; }
}
