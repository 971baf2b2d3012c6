package sa;

import java.io.*;
import java.nio.file.*;
import java.util.*;

/** Entry point: sa.Main PROPERTY TIER. Compiles the current tree, analyses it, prints the verdict, writes evidence. */
public final class Main {
    static int code = 2;
    /** checks whose verdict depends on field names or texts make a second pass with rough ones */
    static boolean rough(String id) { return !Set.of("C14", "C27", "C28", "C29", "C30", "C31").contains(id); }

    public static void main(String[] a) throws Exception {
        Thread t = new Thread(null, () -> { try { code = go(a); } catch (Throwable e) { e.printStackTrace(); code = 2; } }, "analysis", 3000L << 20);
        t.start(); t.join();
        System.out.flush();
        Runtime.getRuntime().halt(code);
    }

    static int go(String[] a) throws Exception {
        Path verif = Path.of(System.getProperty("verif", "/verif")), repo = Path.of(System.getProperty("repo", "/repo"));
        String tier = a.length > 1 ? a[1] : "quick";
        Path work = Files.createTempDirectory("sa");
        int rc = 0;
        try {
            List<String> ids = a[0].equals("ALL") ? new ArrayList<>(Checks.ALL.keySet()) : List.of(a[0].split(","));
            Model m = null; String anchor = null;
            try { m = Model.load(repo, work, Path.of(System.getProperty("stubs"))); } catch (Model.Anchor e) { anchor = e.getMessage(); }
            for (String id : ids) {
                int r = m == null ? lost(verif, id, tier, anchor) : one(m, verif, id, tier);
                if (r != 0 && rc != 1) rc = r;
            }
        } finally { wipe(work); }
        return rc;
    }

    static void wipe(Path p) throws IOException {
        try (var st = Files.walk(p)) { st.sorted(Comparator.reverseOrder()).forEach(q -> { try { Files.delete(q); } catch (IOException e) { /* scratch */ } }); }
    }

    /** the public entry points the property is stated over are missing or do not build */
    static int lost(Path verif, String id, String tier, String why) throws IOException {
        Path rep = replay(verif, id, "anchor lost: " + why + "\n");
        evidence(verif, id, tier, Map.of("explanation", "the analysis could not be anchored: " + why, "scenarios", 0), List.of(Map.of("what", why)), List.of(), 0);
        System.out.println("anchor lost: " + why);
        System.out.println("VIOLATION property=" + id + " replay=" + rep);
        return 1;
    }

    static Path replay(Path verif, String id, String text) throws IOException {
        Path p = verif.resolve("evidence").resolve("replay-" + id + ".txt");
        Files.createDirectories(p.getParent());
        Files.writeString(p, text);
        return p;
    }

    static void evidence(Path verif, String id, String tier, Map<String, ?> coverage, List<?> violations, List<String> assumptions, double wall) throws IOException {
        Map<String, Object> e = new LinkedHashMap<>();
        e.put("property", id); e.put("tier", tier);
        String seed = System.getenv("VERIF_SEED");
        e.put("seed", seed == null ? 1 : Integer.parseInt(seed));
        e.put("level", "other"); e.put("coverage", coverage); e.put("assumptions", assumptions); e.put("wall_s", wall); e.put("violations", violations);
        Path p = verif.resolve("evidence").resolve(id + ".json");
        Files.createDirectories(p.getParent());
        Files.writeString(p, Ctx.js(e) + "\n");
    }

    static int one(Model m, Path verif, String id, String tier) throws IOException {
        Check c = Checks.ALL.get(id);
        if (c == null) { System.err.println("unknown property " + id); return 2; }
        Map<String, String> known = new LinkedHashMap<>();
        Path kf = verif.resolve("known_findings.txt");
        if (Files.exists(kf)) for (String l : Files.readAllLines(kf)) if (l.startsWith("known: property=" + id + " key=")) { String r = l.substring(("known: property=" + id + " key=").length()); int i = r.indexOf(" | "); known.put(r.substring(0, i), r.substring(i + 3)); }
        Ctx x = new Ctx(m, tier.equals("thorough"), known.keySet());
        m.in.analysed.clear(); m.in.unmodelled.clear();
        String lost = null;
        try {
            c.run(x);
            if (rough(id)) { Dsl.rough = true; c.run(x); }
        } catch (Model.Anchor e) { lost = e.getMessage(); x.violation("anchor", "anchor", "anchor lost: " + e.getMessage(), List.of()); }
        catch (RuntimeException | StackOverflowError e) { e.printStackTrace(); x.failed("analysis", e); if (x.scenarios < 10) throw e; }
        Dsl.rough = false;
        double wall = (System.currentTimeMillis() - x.t0) / 1000.0;
        List<Map<String, Object>> vs = new ArrayList<>();
        StringBuilder rep = new StringBuilder();
        Set<String> hit = new LinkedHashSet<>();
        int n = 0;
        for (Ctx.Violation v : x.violations.values()) {
            if (known.containsKey(v.key)) { hit.add(v.key); continue; }
            n++;
            if (n <= 40) {
                rep.append("obligation: ").append(v.key).append("\nrule: ").append(v.rule).append("\n").append(v.text).append("\npath:\n");
                for (String p : v.path) rep.append("    ").append(p).append("\n");
                rep.append("\n");
                vs.add(Map.of("obligation", v.key, "rule", v.rule, "what", v.text, "path", v.path.size() > 12 ? v.path.subList(v.path.size() - 12, v.path.size()) : v.path));
            }
        }
        Map<String, Object> cov = new LinkedHashMap<>();
        cov.put("explanation", c.explanation());
        cov.put("passes", rough(id) ? List.of("plain field names, texts that are words", "field names that contain keywords, texts that may be empty, have blank edges or contain quotes and dots") : List.of("plain"));
        cov.put("scenarios", x.scenarios); cov.put("partitions", x.partitions); cov.put("obligations_decided", x.obligations);
        cov.put("undecided_scenarios", x.undecidedScenarios); cov.put("undecided", x.undecided.size() > 20 ? x.undecided.subList(0, 20) : x.undecided);
        cov.put("repository_methods_analysed", m.in.analysed.size());
        cov.put("methods", new ArrayList<>(m.in.analysed.keySet()).stream().filter(k -> !k.contains("BooleanExpressionParser") && !k.contains("BaseListener")).map(k -> k.substring(Model.PKG.length() > k.length() ? 0 : k.startsWith(Model.PKG) ? Model.PKG.length() : 0)).toList());
        cov.put("unmodelled_library_calls", new ArrayList<>(m.in.unmodelled).subList(0, Math.min(20, m.in.unmodelled.size())));
        cov.put("rules", new ArrayList<>(x.rules)); cov.put("counts", x.counts); cov.put("known_findings", new ArrayList<>(hit));
        List<String> ass = new ArrayList<>(Checks.COMMON); ass.addAll(c.assumptions());
        evidence(verif, id, tier, cov, vs, ass, wall);
        System.out.println(id + ": " + x.scenarios + " scenarios, " + x.partitions + " partitions, " + x.obligations + " obligations, " + m.in.analysed.size() + " repository methods, " + x.undecidedScenarios + " undecided, " + n + " violations, " + wall + " s");
        if (Boolean.getBoolean("verbose")) for (String u : x.undecided) System.out.println("  undecided " + u);
        for (String k : hit) System.out.println("KNOWN-FINDING: property=" + id + " " + k + ": " + known.get(k));
        if (n > 0) {
            int shown = 0;
            for (Ctx.Violation v : x.violations.values()) if (!known.containsKey(v.key) && shown++ < (Boolean.getBoolean("verbose") ? 60 : 5)) System.out.println("  " + v.key + ": " + v.text + (v.path.isEmpty() ? "" : "  [" + v.path.get(v.path.size() - 1) + "]"));
            System.out.println("VIOLATION property=" + id + " replay=" + replay(verif, id, rep.toString()));
            return 1;
        }
        if (x.scenarios > 0 && x.undecidedScenarios * 10L > x.scenarios * 9L) { System.out.println("NO VERDICT: nearly every scenario is undecided"); return 3; }
        return 0;
    }
}
