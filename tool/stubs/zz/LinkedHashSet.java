package zz;
import java.util.*;
public class LinkedHashSet<E> extends HashSet<E> {


    public LinkedHashSet() { }
    public LinkedHashSet(int c) { this(); } public LinkedHashSet(int c, float f) { this(); }
    public LinkedHashSet(Collection<? extends E> c) { this(); addAll(c); }
}
