package sa;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

/** Bookkeeping of one check: obligations, violations, undecided partitions, evidence. */
final class Ctx {
    interface DataSpec { void fill(State s, Model.Data d); }

    static final class Violation {
        final String key, rule, text; final List<String> path;
        Violation(String key, String rule, String text, List<String> path) { this.key = key; this.rule = rule; this.text = text; this.path = path; }
    }

    final Model m; final boolean thorough; final Set<String> known;
    final Map<String, Violation> violations = new LinkedHashMap<>();
    final TreeMap<String, Long> counts = new TreeMap<>();
    final List<String> undecided = new ArrayList<>();
    final TreeSet<String> rules = new TreeSet<>();
    long scenarios, partitions, obligations, undecidedScenarios;
    final long t0 = System.currentTimeMillis();
    String filter = System.getProperty("only");

    Ctx(Model m, boolean thorough, Set<String> known) { this.m = m; this.thorough = thorough; this.known = known; }

    void count(String k, long n) { counts.merge(k, n, Long::sum); }

    void violation(String key, String rule, String text, List<String> path) {
        violations.putIfAbsent(key, new Violation(key, rule, text, path));
    }

    static final String GEN = "BooleanExpressionBaseListener.|BooleanExpressionParser$|BooleanExpressionParser.|BooleanExpressionLexer.";
    static List<String> path(State s) {
        List<String> l = new ArrayList<>();
        for (String t : s.traceList()) {
            boolean gen = false;
            for (String g : GEN.split("\\|")) if (t.startsWith(g)) gen = true;
            if (!gen && (l.isEmpty() || !l.get(l.size() - 1).equals(t))) l.add(t);
        }
        return l.size() > 60 ? l.subList(l.size() - 60, l.size()) : l;
    }

    /** decides all outcomes of one abstract call */
    boolean decide(String key, String rule, List<Model.Res> rs, Function<Q, Expect> spec) {
        rules.add(rule);
        scenarios++;
        boolean und = false, ok = true;
        for (Model.Res r : rs) {
            partitions++;
            String[] bad = new String[1]; Facts[] at = new Facts[1];
            int n;
            try {
                n = Q.each(m, r.s.facts, spec, (q, e) -> {
                    String x = e.check(m, q, r);
                    if (x == null) return true;
                    bad[0] = "expected " + e.show() + ", found " + x; at[0] = q.f; return false;
                });
            } catch (RuntimeException e) { if (e instanceof Model.Anchor) throw e; throw new IllegalStateException("in " + key + " / " + r, e); }
            obligations += n;
            if (bad[0] == null) continue;
            if (r.tainted()) { und = true; undecided.add(key + ": " + r.taint()); continue; }
            ok = false;
            violation(key, rule, bad[0] + (at[0].toString().isEmpty() ? "" : " when " + at[0]), path(r.s));
        }
        if (und) undecidedScenarios++;
        return ok;
    }

    static final long LIMIT = Long.getLong("limit", 720) * 1000;
    /** the time for the check is used up: what is left stays undecided */
    boolean late(String key) {
        if (System.currentTimeMillis() - t0 < LIMIT) return false;
        scenarios++; undecidedScenarios++; undecided.add(key + ": not reached in time"); return true;
    }
    /** an analysis that fails decides nothing */
    void failed(String key, Throwable e) {
        System.err.println("analysis of " + key + " failed: " + e);
        if (Boolean.getBoolean("traces")) e.printStackTrace();
        scenarios++; undecidedScenarios++; undecided.add(key + ": " + e);
    }

    boolean skip(String key) { return filter != null && !key.contains(filter); }

    interface Call { List<Model.Res> run(State s); }

    /** runs one abstract scenario under a budget; budget exhaustion leaves it undecided */
    boolean scenario(String key, String rule, Call c, Function<Q, Expect> spec) {
        if (skip(key) || late(key)) return true;
        long t = System.currentTimeMillis();
        try { return decide(key, rule, c.run(m.start()), spec); }
        catch (Interp.Budget b) { scenarios++; undecidedScenarios++; undecided.add(key + ": " + b.getMessage()); return true; }
        catch (RuntimeException | StackOverflowError e) { if (e instanceof Model.Anchor a) throw a; failed(key, e); return true; }
        finally { t = System.currentTimeMillis() - t; if (Boolean.getBoolean("slow") && t > 300) System.err.println(t + "ms " + key); }
    }

    boolean bool(String rule, Dsl.E e, DataSpec d, Function<Q, Expect> spec, Object... args) { return bool(rule, e, d, null, spec, args); }
    boolean bool(String rule, Dsl.E e, DataSpec d, String def, Function<Q, Expect> spec, Object... args) {
        String key = "boolean " + e + show(args) + (def == null ? "" : " default field " + def);
        return scenario(key, rule, s -> { Model.Data x = new Model.Data("data"); d.fill(s, x); return m.bool(s, m.boolEval, e, x.build(s), def == null ? null : V.Im.str(Str.of(Dsl.nm(def)))); }, spec);
    }
    boolean arith(String rule, Dsl.E e, DataSpec d, Function<Q, Expect> spec, Object... args) {
        String key = "arithmetic " + e + show(args);
        return scenario(key, rule, s -> { Model.Data x = new Model.Data("data"); d.fill(s, x); return m.arith(s, e, x.build(s)); }, spec);
    }
    static String show(Object... args) { if (args.length == 0) return ""; StringJoiner j = new StringJoiner(", ", " with ", ""); for (Object a : args) j.add(String.valueOf(a)); return j.toString(); }
    static DataSpec data(Arg... as) { return (s, d) -> { Set<String> seen = new HashSet<>(); for (Arg a : as) if (a.name == null || seen.add(a.name)) a.put(s, d); }; }

    // ------------------------------------------------------------------------------------------------- output

    static String js(Object o) {
        if (o instanceof Map<?, ?> mm) { StringJoiner j = new StringJoiner(", ", "{", "}"); mm.forEach((k, v) -> j.add(js(String.valueOf(k)) + ": " + js(v))); return j.toString(); }
        if (o instanceof Collection<?> c) { StringJoiner j = new StringJoiner(", ", "[", "]"); for (Object x : c) j.add(js(x)); return j.toString(); }
        if (o instanceof Number || o instanceof Boolean) return o.toString();
        if (o == null) return "null";
        StringBuilder sb = new StringBuilder("\"");
        for (char c : o.toString().toCharArray()) { if (c == '"' || c == '\\') sb.append('\\').append(c); else if (c < 32) sb.append(String.format("\\u%04x", (int) c)); else sb.append(c); }
        return sb.append('"').toString();
    }
}
