package sa;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.jar.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** The program under analysis: freshly compiled repository classes, its dependencies, the JDK, and analysis stubs for library classes. */
public final class World {
    public static final class C {
        final ClassNode n; final boolean repo, stub;
        final Map<String, MethodNode> methods = new HashMap<>();
        final Map<String, FieldNode> fields = new LinkedHashMap<>();
        C(ClassNode n, boolean repo, boolean stub) {
            this.n = n; this.repo = repo; this.stub = stub;
            for (MethodNode m : n.methods) methods.put(m.name + m.desc, m);
            for (FieldNode f : n.fields) fields.put(f.name, f);
        }
        String name() { return n.name; }
        @Override public String toString() { return n.name; }
    }

    public record M(C c, MethodNode m) {
        String id() { return c.n.name + "." + m.name + m.desc; }
    }

    /** library classes replaced by simplified stubs with the same contract */
    static final Map<String, String> STUBS = new HashMap<>();
    static {
        for (String s : new String[]{"HashMap", "LinkedHashMap", "EnumMap", "TreeMap", "Hashtable", "IdentityHashMap", "WeakHashMap", "HashSet", "LinkedHashSet", "TreeSet", "StringJoiner", "EnumSet"}) STUBS.put("java/util/" + s, "zz/" + s);
        STUBS.put("java/util/concurrent/ConcurrentHashMap", "zz/ConcurrentHashMap");
        for (String s : new String[]{"AtomicInteger", "AtomicLong", "AtomicBoolean", "AtomicReference"}) STUBS.put("java/util/concurrent/atomic/" + s, "zz/" + s);
        STUBS.put("java/lang/ThreadLocal", "zz/ThreadLocal");
        for (String s : new String[]{"ReentrantLock", "ReentrantReadWriteLock"}) STUBS.put("java/util/concurrent/locks/" + s, "zz/" + s);
        STUBS.put("com/github/benmanes/caffeine/cache/Caffeine", "zz/Caffeine");
    }

    final Map<String, C> cache = new HashMap<>();
    final Path repoClasses, stubClasses;
    final List<JarFile> jars = new ArrayList<>();
    final List<String> repoNames = new ArrayList<>();

    World(Path repoClasses, Path stubClasses, List<String> jarPaths) throws IOException {
        this.repoClasses = repoClasses; this.stubClasses = stubClasses;
        for (String j : jarPaths) jars.add(new JarFile(j));
        try (var st = Files.walk(repoClasses)) {
            st.filter(p -> p.toString().endsWith(".class")).forEach(p -> { String r = repoClasses.relativize(p).toString(); repoNames.add(r.substring(0, r.length() - 6)); });
        }
        Collections.sort(repoNames);
    }

    C get(String name) {
        C c = cache.get(name);
        if (c == null && !cache.containsKey(name)) { c = load(name); cache.put(name, c); }
        return c;
    }

    private C load(String name) {
        try {
            if (name.startsWith("[")) return null;
            String sub = stub(name);
            Path sp = stubClasses.resolve((sub != null ? sub : name) + ".class");
            if (name.startsWith("zz/") || sub != null) {
                if (!Files.exists(sp)) return null;
                Map<String, String> back = new HashMap<>();
                STUBS.forEach((k, v) -> back.put(v, k));
                var w = new net.bytebuddy.jar.asm.ClassWriter(0);
                new net.bytebuddy.jar.asm.ClassReader(Files.readAllBytes(sp)).accept(new net.bytebuddy.jar.asm.commons.ClassRemapper(w, new net.bytebuddy.jar.asm.commons.Remapper() { @Override public String map(String x) { String r = back.get(x); if (r != null) return r; int d = x.indexOf('$'); if (d > 0 && back.get(x.substring(0, d)) != null) return back.get(x.substring(0, d)) + x.substring(d); return x; } }), net.bytebuddy.jar.asm.ClassReader.SKIP_FRAMES);
                return new C(read(w.toByteArray()), false, true);
            }
            Path rp = repoClasses.resolve(name + ".class");
            if (Files.exists(rp)) return new C(read(Files.readAllBytes(rp)), true, false);
            for (JarFile j : jars) {
                JarEntry e = j.getJarEntry(name + ".class");
                if (e != null) try (InputStream in = j.getInputStream(e)) { return new C(read(in.readAllBytes()), false, false); }
            }
            try (InputStream in = ClassLoader.getSystemResourceAsStream(name + ".class")) {
                if (in != null && (name.startsWith("java/") || name.startsWith("javax/") || name.startsWith("jdk/") || name.startsWith("sun/"))) return new C(read(in.readAllBytes()), false, false);
            }
            return null;
        } catch (IOException e) { throw new UncheckedIOException(e); }
    }

    static String stub(String name) {
        String s = STUBS.get(name);
        int d = name.indexOf('$');
        if (s == null && d > 0 && STUBS.get(name.substring(0, d)) != null) s = STUBS.get(name.substring(0, d)) + name.substring(d);
        return s;
    }

    private static ClassNode read(byte[] b) { ClassNode n = new ClassNode(); new ClassReader(b).accept(n, ClassReader.SKIP_FRAMES); return n; }

    boolean isSub(String a, String b) {
        if (a.equals(b) || b.equals("java/lang/Object")) return true;
        if (a.startsWith("[")) {
            if (b.equals("java/lang/Cloneable") || b.equals("java/io/Serializable")) return true;
            if (!b.startsWith("[")) return false;
            String x = a.substring(1), y = b.substring(1);
            if (x.startsWith("L") && y.startsWith("L")) return isSub(x.substring(1, x.length() - 1), y.substring(1, y.length() - 1));
            if (y.equals("Ljava/lang/Object;")) return x.startsWith("[") || x.startsWith("L");
            return x.startsWith("[") && y.startsWith("[") ? isSub(x, y) : x.equals(y);
        }
        C c = get(a);
        if (c == null) return false;
        if (c.n.superName != null && isSub(c.n.superName, b)) return true;
        for (String i : c.n.interfaces) if (isSub(i, b)) return true;
        return false;
    }

    /** virtual / static method lookup from class cls upwards */
    M resolve(String cls, String name, String desc) {
        String k = name + desc;
        for (String x = cls; x != null; ) {
            C c = get(x);
            if (c == null) break;
            MethodNode m = c.methods.get(k);
            if (m != null && !((m.access & Opcodes.ACC_ABSTRACT) != 0)) return new M(c, m);
            x = c.n.superName;
        }
        M best = null;
        for (String i : allInterfaces(cls)) {
            C c = get(i);
            if (c == null) continue;
            MethodNode m = c.methods.get(k);
            if (m != null && (m.access & Opcodes.ACC_ABSTRACT) == 0 && (best == null || isSub(i, best.c.n.name))) best = new M(c, m);
        }
        if (best != null) return best;
        // abstract declaration
        for (String x = cls; x != null; ) { C c = get(x); if (c == null) break; MethodNode m = c.methods.get(k); if (m != null) return new M(c, m); x = c.n.superName; }
        for (String i : allInterfaces(cls)) { C c = get(i); if (c != null && c.methods.get(k) != null) return new M(c, c.methods.get(k)); }
        return null;
    }

    Set<String> allInterfaces(String cls) {
        Set<String> r = new LinkedHashSet<>();
        for (String x = cls; x != null; ) {
            C c = get(x);
            if (c == null) break;
            for (String i : c.n.interfaces) addItf(i, r);
            x = c.n.superName;
        }
        C c = get(cls);
        if (c != null && (c.n.access & Opcodes.ACC_INTERFACE) != 0) r.add(cls);
        return r;
    }

    private void addItf(String i, Set<String> r) {
        if (!r.add(i)) return;
        C c = get(i);
        if (c != null) for (String j : c.n.interfaces) addItf(j, r);
    }

    List<String> supers(String cls) {
        List<String> l = new ArrayList<>();
        for (String x = cls; x != null; ) { l.add(x); C c = get(x); x = c == null ? null : c.n.superName; }
        l.addAll(allInterfaces(cls));
        if (!l.contains("java/lang/Object")) l.add("java/lang/Object");
        return l;
    }

    /** class declaring a field, searched upwards */
    C fieldOwner(String cls, String name) {
        for (String x = cls; x != null; ) {
            C c = get(x);
            if (c == null) return null;
            if (c.fields.containsKey(name)) return c;
            for (String i : c.n.interfaces) { C r = fieldOwner(i, name); if (r != null) return r; }
            x = c.n.superName;
        }
        return null;
    }
}
