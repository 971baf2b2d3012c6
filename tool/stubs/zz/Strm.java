package zz;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
/** Lazy sequential stream over an iterator. */
public final class Strm<T> implements Stream<T> {
    final Iterator<T> it; boolean used;
    public Strm(Iterator<T> it) { this.it = it; }
    private Iterator<T> use() { if (used) throw new IllegalStateException("stream has already been operated upon or closed"); used = true; return it; }
    abstract static class Gen<T> implements Iterator<T> {
        T nx; boolean ready, done;
        abstract boolean advance();
        public boolean hasNext() { if (done) return false; if (!ready) { if (advance()) ready = true; else { done = true; return false; } } return true; }
        public T next() { if (!hasNext()) throw new NoSuchElementException(); ready = false; T r = nx; nx = null; return r; }
    }
    static final class Filter<T> extends Gen<T> { final Iterator<T> i; final Predicate<? super T> p; Filter(Iterator<T> i, Predicate<? super T> p) { this.i = i; this.p = p; } boolean advance() { while (i.hasNext()) { T t = i.next(); if (p.test(t)) { nx = t; return true; } } return false; } }
    static final class While<T> extends Gen<T> { final Iterator<T> i; final Predicate<? super T> p; While(Iterator<T> i, Predicate<? super T> p) { this.i = i; this.p = p; } boolean advance() { if (i.hasNext()) { T t = i.next(); if (p.test(t)) { nx = t; return true; } } return false; } }
    static final class Mapped<T, R> implements Iterator<R> { final Iterator<T> i; final Function<? super T, ? extends R> f; Mapped(Iterator<T> i, Function<? super T, ? extends R> f) { this.i = i; this.f = f; } public boolean hasNext() { return i.hasNext(); } public R next() { return f.apply(i.next()); } }
    static final class Flat<T, R> extends Gen<R> { final Iterator<T> i; final Function<? super T, ? extends Stream<? extends R>> f; Iterator<? extends R> in; Flat(Iterator<T> i, Function<? super T, ? extends Stream<? extends R>> f) { this.i = i; this.f = f; }
        boolean advance() { for (;;) { if (in != null && in.hasNext()) { nx = in.next(); return true; } if (!i.hasNext()) return false; Stream<? extends R> s = f.apply(i.next()); in = s == null ? null : s.iterator(); } } }
    static final class Limit<T> implements Iterator<T> { final Iterator<T> i; long n; Limit(Iterator<T> i, long n) { this.i = i; this.n = n; } public boolean hasNext() { return n > 0 && i.hasNext(); } public T next() { if (n <= 0) throw new NoSuchElementException(); n = n - 1; return i.next(); } }
    static final class Skip<T> implements Iterator<T> { final Iterator<T> i; long n; Skip(Iterator<T> i, long n) { this.i = i; this.n = n; } private void go() { while (n > 0 && i.hasNext()) { i.next(); n = n - 1; } } public boolean hasNext() { go(); return i.hasNext(); } public T next() { go(); return i.next(); } }
    static final class Cat<T> implements Iterator<T> { final Iterator<? extends T> a, b; Cat(Iterator<? extends T> a, Iterator<? extends T> b) { this.a = a; this.b = b; } public boolean hasNext() { return a.hasNext() || b.hasNext(); } public T next() { return a.hasNext() ? a.next() : b.next(); } }
    static final class Iter<T> implements Iterator<T> { T cur; final UnaryOperator<T> f; boolean first = true; Iter(T s, UnaryOperator<T> f) { cur = s; this.f = f; } public boolean hasNext() { return true; } public T next() { if (first) first = false; else cur = f.apply(cur); return cur; } }
    static final class Sup<T> implements Iterator<T> { final Supplier<? extends T> s; Sup(Supplier<? extends T> s) { this.s = s; } public boolean hasNext() { return true; } public T next() { return s.get(); } }
    static final class Late<T> implements Iterator<T> { final Iterator<T> i; final Comparator<? super T> c; final int mode; Iterator<T> r; Late(Iterator<T> i, Comparator<? super T> c, int mode) { this.i = i; this.c = c; this.mode = mode; }
        private Iterator<T> r() { if (r == null) { ArrayList<T> l = new ArrayList<>(); while (i.hasNext()) { T t = i.next(); if (mode == 0 || !l.contains(t)) l.add(t); } if (mode == 0) Sorts.sort(l, c); r = l.iterator(); } return r; }
        public boolean hasNext() { return r().hasNext(); } public T next() { return r().next(); } }
    public ArrayList<T> list() { ArrayList<T> l = new ArrayList<>(); Iterator<T> i = use(); while (i.hasNext()) l.add(i.next()); return l; }
    public Stream<T> filter(Predicate<? super T> p) { return new Strm<>(new Filter<>(use(), p)); }
    public <R> Stream<R> map(Function<? super T, ? extends R> f) { return new Strm<>(new Mapped<T, R>(use(), f)); }
    public IntStream mapToInt(ToIntFunction<? super T> f) { return new IntS(new Mapped<T, Integer>(use(), f::applyAsInt)); }
    public LongStream mapToLong(ToLongFunction<? super T> f) { return new LongS(new Mapped<T, Long>(use(), f::applyAsLong)); }
    public DoubleStream mapToDouble(ToDoubleFunction<? super T> f) { return new DoubleS(new Mapped<T, Double>(use(), f::applyAsDouble)); }
    public <R> Stream<R> flatMap(Function<? super T, ? extends Stream<? extends R>> f) { return new Strm<>(new Flat<T, R>(use(), f)); }
    public IntStream flatMapToInt(Function<? super T, ? extends IntStream> f) { return new IntS(new Flat<T, Integer>(use(), t -> f.apply(t).boxed())); }
    public LongStream flatMapToLong(Function<? super T, ? extends LongStream> f) { return new LongS(new Flat<T, Long>(use(), t -> f.apply(t).boxed())); }
    public DoubleStream flatMapToDouble(Function<? super T, ? extends DoubleStream> f) { return new DoubleS(new Flat<T, Double>(use(), t -> f.apply(t).boxed())); }
    public <R> Stream<R> mapMulti(BiConsumer<? super T, ? super Consumer<R>> f) { ArrayList<R> l = new ArrayList<>(); Iterator<T> i = use(); while (i.hasNext()) f.accept(i.next(), (Consumer<R>) l::add); return new Strm<>(l.iterator()); }
    public Stream<T> distinct() { return new Strm<>(new Late<>(use(), null, 1)); }
    public Stream<T> sorted() { return new Strm<>(new Late<>(use(), null, 0)); }
    public Stream<T> sorted(Comparator<? super T> c) { return new Strm<>(new Late<>(use(), c, 0)); }
    public Stream<T> peek(Consumer<? super T> c) { return new Strm<>(new Mapped<T, T>(use(), t -> { c.accept(t); return t; })); }
    public Stream<T> limit(long n) { if (n < 0) throw new IllegalArgumentException(); return new Strm<>(new Limit<>(use(), n)); }
    public Stream<T> skip(long n) { if (n < 0) throw new IllegalArgumentException(); return new Strm<>(new Skip<>(use(), n)); }
    public Stream<T> takeWhile(Predicate<? super T> p) { return new Strm<>(new While<>(use(), p)); }
    public Stream<T> dropWhile(Predicate<? super T> p) { boolean[] on = {false}; return new Strm<>(new Filter<>(use(), t -> { if (!on[0] && !p.test(t)) on[0] = true; return on[0]; })); }
    public void forEach(Consumer<? super T> c) { Iterator<T> i = use(); while (i.hasNext()) c.accept(i.next()); }
    public void forEachOrdered(Consumer<? super T> c) { forEach(c); }
    public Object[] toArray() { return list().toArray(); }
    public <A> A[] toArray(IntFunction<A[]> g) { ArrayList<T> l = list(); Object[] r = g.apply(l.size()); for (int i = 0; i < l.size(); i++) r[i] = l.get(i); @SuppressWarnings("unchecked") A[] x = (A[]) r; return x; }
    public T reduce(T id, BinaryOperator<T> f) { T r = id; Iterator<T> i = use(); while (i.hasNext()) r = f.apply(r, i.next()); return r; }
    public Optional<T> reduce(BinaryOperator<T> f) { Iterator<T> i = use(); if (!i.hasNext()) return Optional.empty(); T r = i.next(); while (i.hasNext()) r = f.apply(r, i.next()); return Optional.of(r); }
    public <U> U reduce(U id, BiFunction<U, ? super T, U> f, BinaryOperator<U> c) { U r = id; Iterator<T> i = use(); while (i.hasNext()) r = f.apply(r, i.next()); return r; }
    public <R> R collect(Supplier<R> s, BiConsumer<R, ? super T> f, BiConsumer<R, R> c) { R r = s.get(); Iterator<T> i = use(); while (i.hasNext()) f.accept(r, i.next()); return r; }
    public <R, A> R collect(Collector<? super T, A, R> c) { A a = c.supplier().get(); BiConsumer<A, ? super T> f = c.accumulator(); Iterator<T> i = use(); while (i.hasNext()) f.accept(a, i.next()); return c.finisher().apply(a); }
    public List<T> toList() { return Collections.unmodifiableList(list()); }
    public Optional<T> min(Comparator<? super T> c) { return reduce((a, b) -> c.compare(a, b) <= 0 ? a : b); }
    public Optional<T> max(Comparator<? super T> c) { return reduce((a, b) -> c.compare(a, b) >= 0 ? a : b); }
    public long count() { long n = 0; Iterator<T> i = use(); while (i.hasNext()) { i.next(); n++; } return n; }
    public boolean anyMatch(Predicate<? super T> p) { Iterator<T> i = use(); while (i.hasNext()) if (p.test(i.next())) return true; return false; }
    public boolean allMatch(Predicate<? super T> p) { Iterator<T> i = use(); while (i.hasNext()) if (!p.test(i.next())) return false; return true; }
    public boolean noneMatch(Predicate<? super T> p) { return !anyMatch(p); }
    public Optional<T> findFirst() { Iterator<T> i = use(); return i.hasNext() ? Optional.of(i.next()) : Optional.empty(); }
    public Optional<T> findAny() { return findFirst(); }
    public Iterator<T> iterator() { return use(); }
    public Spliterator<T> spliterator() { return null; }
    public boolean isParallel() { return false; }
    public Stream<T> sequential() { return this; }
    public Stream<T> parallel() { N.event("PARALLEL", "stream"); return this; }
    public Stream<T> unordered() { return this; }
    public Stream<T> onClose(Runnable r) { return this; }
    public void close() { }
}
