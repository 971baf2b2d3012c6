package zz;
import java.util.*;
/** Stable insertion sort: the comparisons decide the partitions. */
final class Sorts {
    @SuppressWarnings("unchecked") static <T> void sort(List<T> l, Comparator<? super T> c) {
        for (int i = 1; i < l.size(); i++) {
            T x = l.get(i); int j = i - 1;
            while (j >= 0 && (c != null ? c.compare(l.get(j), x) : ((Comparable<Object>) l.get(j)).compareTo(x)) > 0) { l.set(j + 1, l.get(j)); j--; }
            l.set(j + 1, x);
        }
    }
}
