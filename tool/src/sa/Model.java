package sa;

import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.Opcodes;

/** The analysed program: freshly compiled classes, an initial abstract state with its public objects, and abstract calls of its API. */
public final class Model {
    /** something the analysis is anchored in is gone */
    static final class Anchor extends RuntimeException { Anchor(String m) { super(m); } }

    static final String PKG = "com/github/sidhant92/boolparser/";
    static final String BE = PKG + "application/BooleanExpressionEvaluator", AE = PKG + "application/ArithmeticExpressionEvaluator", BP = PKG + "parser/antlr/BoolParser", CP = PKG + "parser/antlr/CachedBoolParser", IP = PKG + "parser/BoolExpressionParser";
    final World w; final Interp in; final String parserClass = PKG + "parser/antlr/BooleanExpressionParser";
    State base; V boolParser, cachedParser, boolEval, arithEval, cachedBoolEval, cachedArithEval;
    long scenarios, partitions; int exprs;
    final List<State.Event> initEvents;

    Model(World w) {
        this.w = w; this.in = new Interp(w);
        for (String c : new String[]{BE, AE, BP, CP}) { World.C k = w.get(c); if (k == null || !k.repo) throw new Anchor("public class " + c); }
        State s = new State();
        boolParser = make(s, BP, "()V"); s = last;
        boolEval = make(s, BE, "(L" + IP + ";)V", boolParser); s = last;
        arithEval = make(s, AE, "(L" + IP + ";)V", boolParser); s = last;
        cachedParser = make(s, CP, "(I)V", V.I.of(512)); s = last;
        cachedBoolEval = make(s, BE, "(L" + IP + ";)V", cachedParser); s = last;
        cachedArithEval = make(s, AE, "(L" + IP + ";)V", cachedParser); s = last;
        initEvents = s.eventList();
        s.events = null; s.trace = null;
        base = s.freeze();
        base.sharedBelow = base.next;
    }

    private State last;
    private V make(State s, String cls, String desc, V... args) {
        V[] a = new V[args.length + 1]; System.arraycopy(args, 0, a, 1, args.length);
        if (w.get(cls).methods.get("<init>" + desc) == null) throw new Anchor("constructor " + cls + desc);
        List<Interp.Out> r = in.instantiate(s, cls, desc, a);
        if (r.size() != 1 || r.get(0).exc != null) throw new Anchor("constructor of " + cls + " has " + r.size() + " abstract outcomes" + (r.isEmpty() ? "" : " " + exc(r.get(0))));
        last = r.get(0).s;
        return r.get(0).ret;
    }
    private String exc(Interp.Out o) { return o.exc == null ? "" : in.classOf(o.s, o.exc) + " " + o.s.traceList(); }

    /** a fresh scenario state */
    State start() { State s = base.copy(); return s; }

    /** registers an expression and returns its text */
    V expression(State s, Dsl.E e) {
        Str text = Str.atom("~expr#" + (++exprs));
        V t = new Dsl.Builder(this, s).parse(e);
        s.setStat("tree:" + text.key(), t);
        // texts of different expressions differ
        V before = s.stat("zz.expressions");
        List<V> all = before == null ? List.of() : Arrays.asList(s.arr(before).e);
        for (V o : all) { Facts g = s.facts.notZero(Lib.equality(text, ((V.Im) o).str)); if (g != null) s.facts = g; }
        List<V> now = new ArrayList<>(all); now.add(V.Im.str(text));
        s.setStat("zz.expressions", s.array("[Ljava/lang/Object;", now.toArray(new V[0])));
        return V.Im.str(text);
    }

    /** the caller's data map */
    static final class Data {
        final String name; final List<V> keys = new ArrayList<>(), vals = new ArrayList<>(); final List<Boolean> maybe = new ArrayList<>();
        Data(String name) { this.name = name; }
        Data put(String k, V v) { return put(Str.of(Dsl.nm(k)), v, false); }
        Data put(Str k, V v, boolean opt) { keys.add(V.Im.str(k)); vals.add(v); maybe.add(opt); return this; }
        V build(State s) {
            V.Ref r = s.alloc("zz/ExtMap");
            s.put(r, "zz/ExtMap.name", V.Im.str(Str.of(name)));
            s.put(r, "zz/ExtMap.keys", s.array("[Ljava/lang/Object;", keys.toArray(new V[0])));
            s.put(r, "zz/ExtMap.vals", s.array("[Ljava/lang/Object;", vals.toArray(new V[0])));
            V[] m = new V[maybe.size()]; for (int i = 0; i < m.length; i++) m[i] = V.I.of(maybe.get(i) ? 1 : 0);
            s.put(r, "zz/ExtMap.maybe", s.array("[Z", m));
            return r;
        }
    }

    V arrayList(State s, List<V> l) { return new Dsl.Builder(this, s).list(l); }

    /** a hash map (real contents, not an observed stand-in) */
    V map(State s, String cls, List<V> keys, List<V> vals) {
        V.Ref r = s.alloc(cls);
        int cap = Math.max(8, keys.size());
        V[] ks = new V[cap], vs = new V[cap];
        for (int i = 0; i < cap; i++) { ks[i] = i < keys.size() ? keys.get(i) : V.NULL; vs[i] = i < vals.size() ? vals.get(i) : V.NULL; }
        s.put(r, "java/util/HashMap.ks", s.array("[Ljava/lang/Object;", ks)); s.put(r, "java/util/HashMap.vs", s.array("[Ljava/lang/Object;", vs)); s.put(r, "java/util/HashMap.n", V.I.of(keys.size()));
        return r;
    }
    /** a set of the given (assumed distinct) elements */
    V set(State s, String cls, List<V> els) {
        for (int i = 0; i < els.size(); i++) for (int j = 0; j < i; j++) if (els.get(i) instanceof V.Im a && els.get(j) instanceof V.Im b) {
            Facts f = a.num != null && b.num != null ? s.facts.notZero(a.num.sub(b.num)) : a.str != null && b.str != null ? s.facts.notZero(Lib.equality(a.str, b.str)) : s.facts;
            if (f == null) throw new IllegalStateException("equal set elements");
            s.facts = f;
        }
        List<V> present = new ArrayList<>(); for (V e : els) present.add(V.Im.num(Lib.BOOLEAN, Poly.of(1)));
        V m = map(s, "java/util/HashMap", els, present);
        V.Ref r = s.alloc(cls);
        s.put(r, "java/util/HashSet.m", m);
        return r;
    }

    /** outcome of an API call */
    static final class Res {
        final State s; final String kind; final V v; final String exc; final Interp.Out out;
        Res(State s, String kind, V v, String exc, Interp.Out out) { this.s = s; this.kind = kind; this.v = v; this.exc = exc; this.out = out; }
        boolean tainted() { for (State.EvList e = s.events; e != null; e = e.prev) if (e.e.kind().equals("UNMODELLED") || e.e.kind().equals("WIDEN") || e.e.kind().equals("UNINTERP")) return true; return false; }
        String taint() { List<String> l = new ArrayList<>(); for (State.Event e : s.eventList()) if (e.kind().equals("UNMODELLED") || e.kind().equals("WIDEN") || e.kind().equals("UNINTERP")) l.add(e.toString()); return l.toString(); }
        boolean has(String kind) { for (State.EvList e = s.events; e != null; e = e.prev) if (e.e.kind().equals(kind)) return true; return false; }
        @Override public String toString() { return kind.equals("value") ? show(v) : kind + (exc == null ? "" : " " + exc.substring(exc.lastIndexOf('/') + 1)); }
    }
    static String show(V v) { return v instanceof V.Im m && m.cls.equals(Lib.BOOLEAN) && m.num.isConst() ? (m.num.constant().sign() != 0 ? "true" : "false") : String.valueOf(v); }

    List<Res> call(State s, V recv, String name, String desc, V... args) {
        scenarios++;
        V[] a = new V[args.length + 1]; a[0] = recv; System.arraycopy(args, 0, a, 1, args.length);
        in.steps = 0;
        String cls = in.classOf(s, recv);
        if (w.resolve(cls, name, desc) == null) throw new Anchor("method " + cls + "." + name + desc);
        List<Res> r = new ArrayList<>();
        for (Interp.Out o : in.invoke(s, Opcodes.INVOKEVIRTUAL, cls, name, desc, a)) { partitions++; r.add(result(o)); }
        return r;
    }

    Res result(Interp.Out o) {
        if (o.exc != null) return new Res(o.s, "escape", null, in.classOf(o.s, o.exc) == null ? "unknown exception" : in.classOf(o.s, o.exc), o);
        State.Obj t = o.s.obj(o.ret);
        if (t == null) return new Res(o.s, o.ret instanceof V.Top ? "unknown" : "null", o.ret, null, o);
        if (t.cls.equals("io/vavr/control/Try$Success")) { V v = t.get("io/vavr/control/Try$Success.value"); return v instanceof V.Top ? new Res(o.s, "unknown", v, null, o) : new Res(o.s, "value", v, null, o); }
        if (t.cls.equals("io/vavr/control/Try$Failure")) { V c = t.get("io/vavr/control/Try$Failure.cause"); return new Res(o.s, "failure", null, c instanceof V.Top || in.classOf(o.s, c) == null ? "unknown exception" : in.classOf(o.s, c), o); }
        return new Res(o.s, "value", o.ret, null, o);
    }

    List<Res> bool(State s, Dsl.E e, V data) { return bool(s, boolEval, e, data, null); }
    List<Res> bool(State s, V ev, Dsl.E e, V data, V def) {
        V x = expression(s, e);
        return bool(s, ev, x, data, def);
    }
    List<Res> bool(State s, V ev, V x, V data, V def) {
        return def == null ? call(s, ev, "evaluate", "(Ljava/lang/String;Ljava/util/Map;)Lio/vavr/control/Try;", x, data) : call(s, ev, "evaluate", "(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)Lio/vavr/control/Try;", x, data, def);
    }
    List<Res> arith(State s, Dsl.E e, V data) { return arith(s, arithEval, expression(s, e), data); }
    List<Res> arith(State s, V ev, V x, V data) { return call(s, ev, "evaluate", "(Ljava/lang/String;Ljava/util/Map;)Lio/vavr/control/Try;", x, data); }
    List<Res> parse(State s, V parser, V x, V def) { return def == null ? call(s, parser, "parseExpression", "(Ljava/lang/String;)Lio/vavr/control/Try;", x) : call(s, parser, "parseExpression", "(Ljava/lang/String;Ljava/lang/String;)Lio/vavr/control/Try;", x, def); }

    // ------------------------------------------------------------------------------------------------- compilation

    static Model load(Path repo, Path work, Path stubs) throws Exception {
        List<String> deps = deps();
        Path out = work.resolve("classes");
        Files.createDirectories(out);
        List<String> files = new ArrayList<>();
        try (var st = Files.walk(repo.resolve("src/main/java"))) { st.filter(p -> p.toString().endsWith(".java")).sorted().forEach(p -> files.add(p.toString())); }
        if (files.isEmpty()) throw new Anchor("no sources under " + repo);
        Path args = work.resolve("args");
        Files.write(args, files);
        List<String> cmd = new ArrayList<>(List.of(System.getProperty("java.home") + "/bin/javac", "-nowarn", "-g", "-proc:full", "-cp", String.join(":", deps), "-d", out.toString(), "@" + args));
        Process p = new ProcessBuilder(cmd).redirectErrorStream(true).start();
        String log = new String(p.getInputStream().readAllBytes());
        if (p.waitFor() != 0) throw new Anchor("the repository does not compile: " + log);
        return new Model(new World(out, stubs, deps));
    }

    static List<String> deps() throws Exception {
        String[] want = {"antlr4-runtime-", "vavr-match-", "vavr-0", "maven-artifact-", "commons-lang3-", "lombok-", "caffeine-"};
        List<String> r = new ArrayList<>();
        List<Path> roots = List.of(Path.of("/root/.gradle/caches/modules-2/files-2.1"), Path.of(System.getProperty("user.home"), ".gradle/caches/modules-2/files-2.1"));
        Map<String, TreeSet<String>> found = new HashMap<>();
        for (Path root : roots) if (Files.isDirectory(root) && found.isEmpty()) try (var st = Files.walk(root)) {
            st.filter(q -> q.toString().endsWith(".jar")).forEach(q -> { String n = q.getFileName().toString(); if (n.contains("-sources") || n.contains("-javadoc")) return; for (String x : want) if (n.startsWith(x)) found.computeIfAbsent(x, k -> new TreeSet<>()).add(q.toString()); });
        }
        String gradle = Files.readString(Path.of(System.getProperty("repo", "/repo"), "build.gradle"));
        for (String x : want) {
            TreeSet<String> c = found.get(x);
            if (c == null) throw new Anchor("dependency " + x + " is not in the gradle cache");
            String pick = null;
            for (String j : c) { String n = j.substring(j.lastIndexOf('/') + 1).replace(".jar", ""); int d = n.lastIndexOf('-'); if (gradle.contains(n.substring(0, d) + ":" + n.substring(d + 1))) pick = j; }
            r.add(pick == null ? c.last() : pick);
        }
        return r;
    }
}
