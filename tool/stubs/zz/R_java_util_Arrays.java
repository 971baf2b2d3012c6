package zz;
import java.util.*;
import java.util.stream.*;
public final class R_java_util_Arrays {
    public static <T> Stream<T> stream(T[] a) { return new Strm<>(Arrays.asList(a).iterator()); }
    public static <T> Stream<T> stream(T[] a, int f, int t) { return new Strm<>(Arrays.asList(a).subList(f, t).iterator()); }
    public static IntStream stream(int[] a) { ArrayList<Integer> l = new ArrayList<>(); for (int x : a) l.add(x); return new IntS(l.iterator()); }
    public static LongStream stream(long[] a) { ArrayList<Long> l = new ArrayList<>(); for (long x : a) l.add(x); return new LongS(l.iterator()); }
    public static DoubleStream stream(double[] a) { ArrayList<Double> l = new ArrayList<>(); for (double x : a) l.add(x); return new DoubleS(l.iterator()); }
    public static void sort(Object[] a) { sort(a, null); }
    public static <T> void sort(T[] a, Comparator<? super T> c) { List<T> l = Arrays.asList(a); Sorts.sort(l, c); }
    public static void sort(int[] a) { for (int i = 1; i < a.length; i++) { int x = a[i], j = i - 1; while (j >= 0 && a[j] > x) { a[j + 1] = a[j]; j--; } a[j + 1] = x; } }
    public static void sort(long[] a) { for (int i = 1; i < a.length; i++) { long x = a[i]; int j = i - 1; while (j >= 0 && a[j] > x) { a[j + 1] = a[j]; j--; } a[j + 1] = x; } }
    public static void sort(double[] a) { for (int i = 1; i < a.length; i++) { double x = a[i]; int j = i - 1; while (j >= 0 && a[j] > x) { a[j + 1] = a[j]; j--; } a[j + 1] = x; } }
}
