package zz;
public final class R_java_lang_String {
    public static String join(CharSequence sep, CharSequence... parts) { StringJoiner j = new StringJoiner(sep); for (CharSequence p : parts) j.add(p); return j.toString(); }
    public static String join(CharSequence sep, Iterable<? extends CharSequence> parts) { StringJoiner j = new StringJoiner(sep); for (CharSequence p : parts) j.add(p); return j.toString(); }
}
