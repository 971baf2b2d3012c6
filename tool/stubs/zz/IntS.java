package zz;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
public final class IntS implements IntStream {
    final Iterator<Integer> it;
    public IntS(Iterator<Integer> it) { this.it = it; }
    private Strm<Integer> b() { return new Strm<>(it); }
    public IntStream filter(IntPredicate p) { return new IntS(new Strm.Filter<>(it, x -> p.test(x))); }
    public IntStream map(IntUnaryOperator f) { return new IntS(new Strm.Mapped<Integer, Integer>(it, x -> f.applyAsInt(x))); }
    public <U> Stream<U> mapToObj(IntFunction<? extends U> f) { return new Strm<>(new Strm.Mapped<Integer, U>(it, x -> f.apply(x))); }
    public LongStream mapToLong(IntToLongFunction f) { return new LongS(new Strm.Mapped<Integer, Long>(it, x -> f.applyAsLong(x))); } public DoubleStream mapToDouble(IntToDoubleFunction f) { return new DoubleS(new Strm.Mapped<Integer, Double>(it, x -> f.applyAsDouble(x))); } public LongStream asLongStream() { return new LongS(new Strm.Mapped<Integer, Long>(it, x -> (long) (int) x)); } public DoubleStream asDoubleStream() { return new DoubleS(new Strm.Mapped<Integer, Double>(it, x -> (double) (int) x)); }
    public IntStream flatMap(IntFunction<? extends IntStream> f) { return new IntS(new Strm.Flat<Integer, Integer>(it, x -> f.apply(x).boxed())); }
    public IntStream distinct() { return new IntS(new Strm.Late<>(it, null, 1)); }
    public IntStream sorted() { return new IntS(new Strm.Late<>(it, null, 0)); }
    public IntStream peek(IntConsumer c) { return new IntS(new Strm.Mapped<Integer, Integer>(it, x -> { c.accept(x); return x; })); }
    public IntStream limit(long n) { return new IntS(new Strm.Limit<>(it, n)); }
    public IntStream skip(long n) { return new IntS(new Strm.Skip<>(it, n)); }
    public void forEach(IntConsumer c) { while (it.hasNext()) c.accept(it.next()); }
    public void forEachOrdered(IntConsumer c) { forEach(c); }
    public int[] toArray() { ArrayList<Integer> l = b().list(); int[] r = new int[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return r; }
    public int reduce(int id, IntBinaryOperator f) { int r = id; while (it.hasNext()) r = f.applyAsInt(r, it.next()); return r; }
    public OptionalInt reduce(IntBinaryOperator f) { if (!it.hasNext()) return OptionalInt.empty(); int r = it.next(); while (it.hasNext()) r = f.applyAsInt(r, it.next()); return OptionalInt.of(r); }
    public <R> R collect(Supplier<R> s, ObjIntConsumer<R> f, BiConsumer<R, R> c) { R r = s.get(); while (it.hasNext()) f.accept(r, it.next()); return r; }
    public int sum() { int r = 0; while (it.hasNext()) r += it.next(); return r; }
    public OptionalInt min() { return reduce((a, b) -> Math.min(a, b)); }
    public OptionalInt max() { return reduce((a, b) -> Math.max(a, b)); }
    public long count() { long n = 0; while (it.hasNext()) { it.next(); n++; } return n; }
    public OptionalDouble average() { if (!it.hasNext()) return OptionalDouble.empty(); long r = 0; long n = 0; while (it.hasNext()) { r += it.next(); n++; } return OptionalDouble.of((double) r / n); }
    public IntSummaryStatistics summaryStatistics() { IntSummaryStatistics s = new IntSummaryStatistics(); while (it.hasNext()) s.accept((int) it.next()); return s; }
    public boolean anyMatch(IntPredicate p) { while (it.hasNext()) if (p.test(it.next())) return true; return false; }
    public boolean allMatch(IntPredicate p) { while (it.hasNext()) if (!p.test(it.next())) return false; return true; }
    public boolean noneMatch(IntPredicate p) { return !anyMatch(p); }
    public OptionalInt findFirst() { return it.hasNext() ? OptionalInt.of(it.next()) : OptionalInt.empty(); }
    public OptionalInt findAny() { return findFirst(); }
    public Stream<Integer> boxed() { return b(); }
    public IntStream sequential() { return this; }
    public IntStream parallel() { N.event("PARALLEL", "stream"); return this; }
    public IntStream unordered() { return this; }
    public IntStream onClose(Runnable r) { return this; }
    public void close() { }
    public boolean isParallel() { return false; }
    public PrimitiveIterator.OfInt iterator() { return new PrimitiveIterator.OfInt() { public boolean hasNext() { return it.hasNext(); } public int nextInt() { return it.next(); } }; }
    public Spliterator.OfInt spliterator() { return null; }
}
