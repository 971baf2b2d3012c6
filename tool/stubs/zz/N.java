package zz;
/** Primitives the analysis interprets itself. */
public final class N {
    public static native void event(String kind, String text);
    public static native void event(String kind, String text, Object data);
    public static native boolean choose(String key);
    public static native int anyInt(String key);
    public static native void lock(Object o);
    public static native void unlock(Object o);
    public static native Object[] enumConstants(Class<?> c);
}
