package zz;
import java.util.function.Supplier;
public class ThreadLocal<T> {
    Supplier<? extends T> init; Object v; boolean set;
    public ThreadLocal() { }
    public static <S> ThreadLocal<S> withInitial(Supplier<? extends S> s) { ThreadLocal<S> t = new ThreadLocal<>(); t.init = s; return t; }
    protected T initialValue() { return init == null ? null : init.get(); }
    @SuppressWarnings("unchecked") public T get() { if (!set) { v = initialValue(); set = true; } return (T) v; }
    public void set(T x) { v = x; set = true; }
    public void remove() { v = null; set = false; }
}
