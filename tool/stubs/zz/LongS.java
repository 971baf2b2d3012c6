package zz;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
public final class LongS implements LongStream {
    final Iterator<Long> it;
    public LongS(Iterator<Long> it) { this.it = it; }
    private Strm<Long> b() { return new Strm<>(it); }
    public LongStream filter(LongPredicate p) { return new LongS(new Strm.Filter<>(it, x -> p.test(x))); }
    public LongStream map(LongUnaryOperator f) { return new LongS(new Strm.Mapped<Long, Long>(it, x -> f.applyAsLong(x))); }
    public <U> Stream<U> mapToObj(LongFunction<? extends U> f) { return new Strm<>(new Strm.Mapped<Long, U>(it, x -> f.apply(x))); }
    public IntStream mapToInt(LongToIntFunction f) { return new IntS(new Strm.Mapped<Long, Integer>(it, x -> f.applyAsInt(x))); } public DoubleStream mapToDouble(LongToDoubleFunction f) { return new DoubleS(new Strm.Mapped<Long, Double>(it, x -> f.applyAsDouble(x))); } public DoubleStream asDoubleStream() { return new DoubleS(new Strm.Mapped<Long, Double>(it, x -> (double) (long) x)); }
    public LongStream flatMap(LongFunction<? extends LongStream> f) { return new LongS(new Strm.Flat<Long, Long>(it, x -> f.apply(x).boxed())); }
    public LongStream distinct() { return new LongS(new Strm.Late<>(it, null, 1)); }
    public LongStream sorted() { return new LongS(new Strm.Late<>(it, null, 0)); }
    public LongStream peek(LongConsumer c) { return new LongS(new Strm.Mapped<Long, Long>(it, x -> { c.accept(x); return x; })); }
    public LongStream limit(long n) { return new LongS(new Strm.Limit<>(it, n)); }
    public LongStream skip(long n) { return new LongS(new Strm.Skip<>(it, n)); }
    public void forEach(LongConsumer c) { while (it.hasNext()) c.accept(it.next()); }
    public void forEachOrdered(LongConsumer c) { forEach(c); }
    public long[] toArray() { ArrayList<Long> l = b().list(); long[] r = new long[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return r; }
    public long reduce(long id, LongBinaryOperator f) { long r = id; while (it.hasNext()) r = f.applyAsLong(r, it.next()); return r; }
    public OptionalLong reduce(LongBinaryOperator f) { if (!it.hasNext()) return OptionalLong.empty(); long r = it.next(); while (it.hasNext()) r = f.applyAsLong(r, it.next()); return OptionalLong.of(r); }
    public <R> R collect(Supplier<R> s, ObjLongConsumer<R> f, BiConsumer<R, R> c) { R r = s.get(); while (it.hasNext()) f.accept(r, it.next()); return r; }
    public long sum() { long r = 0; while (it.hasNext()) r += it.next(); return r; }
    public OptionalLong min() { return reduce((a, b) -> Math.min(a, b)); }
    public OptionalLong max() { return reduce((a, b) -> Math.max(a, b)); }
    public long count() { long n = 0; while (it.hasNext()) { it.next(); n++; } return n; }
    public OptionalDouble average() { if (!it.hasNext()) return OptionalDouble.empty(); long r = 0; long n = 0; while (it.hasNext()) { r += it.next(); n++; } return OptionalDouble.of((double) r / n); }
    public LongSummaryStatistics summaryStatistics() { LongSummaryStatistics s = new LongSummaryStatistics(); while (it.hasNext()) s.accept((long) it.next()); return s; }
    public boolean anyMatch(LongPredicate p) { while (it.hasNext()) if (p.test(it.next())) return true; return false; }
    public boolean allMatch(LongPredicate p) { while (it.hasNext()) if (!p.test(it.next())) return false; return true; }
    public boolean noneMatch(LongPredicate p) { return !anyMatch(p); }
    public OptionalLong findFirst() { return it.hasNext() ? OptionalLong.of(it.next()) : OptionalLong.empty(); }
    public OptionalLong findAny() { return findFirst(); }
    public Stream<Long> boxed() { return b(); }
    public LongStream sequential() { return this; }
    public LongStream parallel() { N.event("PARALLEL", "stream"); return this; }
    public LongStream unordered() { return this; }
    public LongStream onClose(Runnable r) { return this; }
    public void close() { }
    public boolean isParallel() { return false; }
    public PrimitiveIterator.OfLong iterator() { return new PrimitiveIterator.OfLong() { public boolean hasNext() { return it.hasNext(); } public long nextLong() { return it.next(); } }; }
    public Spliterator.OfLong spliterator() { return null; }
}
