package zz;
public final class StringJoiner {
    final String sep, pre, suf; String s; String empty;
    public StringJoiner(CharSequence sep) { this(sep, "", ""); }
    public StringJoiner(CharSequence sep, CharSequence pre, CharSequence suf) { this.sep = sep.toString(); this.pre = pre.toString(); this.suf = suf.toString(); }
    public StringJoiner add(CharSequence x) { String t = String.valueOf(x); s = s == null ? t : s + sep + t; return this; }
    public StringJoiner merge(StringJoiner o) { if (o.s != null) add(o.s); return this; }
    public StringJoiner setEmptyValue(CharSequence x) { empty = x.toString(); return this; }
    public int length() { return toString().length(); }
    @Override public String toString() { return s == null ? (empty != null ? empty : pre + suf) : pre + s + suf; }
}
