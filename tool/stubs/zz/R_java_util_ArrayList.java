package zz;
import java.util.*;
public final class R_java_util_ArrayList {
    public static <T> void sort(ArrayList<T> l, Comparator<? super T> c) { Sorts.sort(l, c); }
}
