package sa;

import java.util.*;
import java.util.function.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Independence of the environment: a call graph (class hierarchy analysis) over the repository's bytecode and a deny list of ambient inputs. */
final class EnvChecks {
    static final String ST = "java/lang/String";

    /** the kind of ambient input a call reads, or null */
    static String ambient(World w, MethodNode mn, MethodInsnNode k) {
        String o = k.owner, n = k.name, d = k.desc;
        String args = d.substring(0, d.indexOf(')') + 1);
        switch (o) {
            case ST:
                if ((n.equals("toLowerCase") || n.equals("toUpperCase")) && args.equals("()")) return "the default locale";
                if (n.equals("getBytes") && args.equals("()")) return "the default charset";
                if (n.equals("<init>") && (args.equals("([B)") || args.equals("([BII)"))) return "the default charset";
                if (n.equals("format") && !args.startsWith("(Ljava/util/Locale;") || n.equals("formatted")) return localised(mn, k) ? "the default locale" : null;
                return null;
            case "java/util/Locale": return n.equals("getDefault") ? "the default locale" : null;
            case "java/nio/charset/Charset": return n.equals("defaultCharset") ? "the default charset" : null;
            case "java/text/NumberFormat": case "java/text/DecimalFormat": case "java/text/DecimalFormatSymbols": case "java/text/SimpleDateFormat": case "java/text/DateFormat": case "java/text/Collator": case "java/text/MessageFormat": case "java/text/BreakIterator": case "java/util/Scanner":
                return (n.startsWith("get") && (k.getOpcode() == Opcodes.INVOKESTATIC) || n.equals("<init>") || n.equals("format") && k.getOpcode() == Opcodes.INVOKESTATIC) && !args.contains("Ljava/util/Locale;") && !args.contains("DecimalFormatSymbols;") ? "the default locale" : null;
            case "java/time/format/DateTimeFormatter":
                if (n.startsWith("ofLocalized")) return "the default locale";
                if (n.equals("ofPattern") && args.equals("(Ljava/lang/String;)")) return textual(w, mn, k) ? "the default locale" : null;
                return null;
            case "java/time/format/DateTimeFormatterBuilder": return n.equals("toFormatter") && args.equals("()") ? "the default locale" : null;
            case "java/util/Random": case "java/security/SecureRandom": case "java/util/SplittableRandom": return n.equals("<init>") && (args.equals("()") || o.equals("java/security/SecureRandom")) ? "random numbers" : null;
            case "java/util/concurrent/ThreadLocalRandom": return "random numbers";
            case "java/util/UUID": return n.equals("randomUUID") ? "random numbers" : null;
            case "java/util/Collections": return n.equals("shuffle") && !args.contains("Random") ? "random numbers" : null;
            case "java/lang/Math": case "java/lang/StrictMath": return n.equals("random") ? "random numbers" : null;
            case "java/lang/System":
                if (n.equals("getenv") || n.equals("getProperty") || n.equals("getProperties") || n.equals("lineSeparator")) return "system settings";
                if (n.equals("identityHashCode")) return "object identity";
                if (n.equals("nanoTime") || n.equals("currentTimeMillis")) return "the clock";
                if (n.equals("exit") || n.equals("setProperty") || n.equals("setOut") || n.equals("setErr") || n.equals("gc")) return "the process";
                return null;
            case "java/lang/Boolean": return n.equals("getBoolean") ? "system settings" : null;
            case "java/lang/Integer": return n.equals("getInteger") ? "system settings" : null;
            case "java/lang/Long": return n.equals("getLong") ? "system settings" : null;
            case "java/lang/Runtime": case "java/lang/ProcessBuilder": case "java/lang/management/ManagementFactory": return "the process";
            case "java/lang/Thread": return n.equals("sleep") || n.equals("start") || n.equals("getName") || n.equals("getId") || n.equals("threadId") || n.equals("activeCount") ? "the thread" : null;
            case "java/time/ZoneId": case "java/util/TimeZone": case "java/time/Clock": return n.equals("systemDefault") || n.equals("getDefault") || n.startsWith("system") || n.startsWith("tick") ? "the clock" : null;
            case "java/util/Date": return n.equals("<init>") && args.equals("()") || n.startsWith("get") && !n.equals("getTime") ? "the clock" : null;
            case "java/util/Calendar": case "java/util/GregorianCalendar": return n.equals("getInstance") || n.equals("<init>") ? "the clock" : null;
            default:
                if (o.startsWith("java/time/") && n.equals("now")) return "the clock";
                if (o.startsWith("java/net/") || o.startsWith("java/nio/file/Files") || o.startsWith("java/nio/channels/") || o.startsWith("java/io/File") || o.startsWith("java/io/RandomAccess")) return "files or the network";
                if (o.startsWith("java/io/InputStreamReader") && args.equals("(Ljava/io/InputStream;)")) return "the default charset";
                if (o.startsWith("java/util/prefs/")) return "system settings";
                return null;
        }
    }
    /** a format whose result depends on the locale and is not merely the message of an exception */
    private static boolean localised(MethodNode mn, MethodInsnNode k) {
        AbstractInsnNode n = k.getNext();
        while (n != null && n.getOpcode() < 0) n = n.getNext();
        if (n instanceof MethodInsnNode q && q.name.equals("<init>") && q.desc.startsWith("(Ljava/lang/String;") && (q.owner.contains("xception") || q.owner.contains("Error"))) return false;
        // the format string: the closest string constant before the call whose text has a conversion
        for (AbstractInsnNode p = k.getPrevious(); p != null; p = p.getPrevious()) if (p instanceof LdcInsnNode l && l.cst instanceof String s && s.contains("%")) return java.util.regex.Pattern.compile("%[-#+ 0,(<]*\\d*(\\.\\d+)?[dfegtEGTa]").matcher(s).find();
        return false;
    }
    /** a date pattern with names (months, days, am/pm, zones, eras) */
    private static boolean textual(World w, MethodNode mn, MethodInsnNode k) {
        AbstractInsnNode p = k.getPrevious();
        while (p != null && p.getOpcode() < 0) p = p.getPrevious();
        String s = p instanceof LdcInsnNode l && l.cst instanceof String x ? x : null;
        if (s == null && p instanceof FieldInsnNode f && w.get(f.owner) != null && w.get(f.owner).fields.get(f.name) != null && w.get(f.owner).fields.get(f.name).value instanceof String x) s = x;
        if (s == null) return true;
        s = s.replaceAll("'[^']*'", "");
        return java.util.regex.Pattern.compile("MMM|LLL|E|e|c|a|B|G|w|W|Y|z|Z|V|v|O|QQQ|qqq").matcher(s).find();
    }

    static final class Graph {
        final World w; final Map<String, World.M> seen = new LinkedHashMap<>(); final Map<String, String> from = new HashMap<>(); final Set<String> types = new HashSet<>(); final Predicate<String> cut; int edges; boolean direct;
        private final Deque<World.M> work = new ArrayDeque<>();
        Graph(World w, Predicate<String> cut) { this.w = w; this.cut = cut; }
        void root(String cls, MethodNode m) { add(new World.M(w.get(cls), m), null); run(); }
        private void add(World.M m, String by) {
            if (m == null || !m.c().repo || cut.test(m.c().n.name)) return;
            if (seen.putIfAbsent(m.id(), m) == null) { from.put(m.id(), by); work.add(m); }
        }
        /** a class in use: its initialiser, and the methods through which libraries may call it */
        private void use(String c, String by) {
            World.C k = w.get(c);
            if (k == null || !k.repo || !types.add(c)) return;
            for (MethodNode m : k.n.methods) {
                if (m.name.equals("<clinit>")) { add(new World.M(k, m), by); continue; }
                if (direct || (m.access & (Opcodes.ACC_STATIC | Opcodes.ACC_PRIVATE)) != 0 || m.name.equals("<init>")) continue;
                for (String s : w.supers(c)) { World.C sc = w.get(s); if (sc != null && !sc.repo && sc.methods.containsKey(m.name + m.desc)) { add(new World.M(k, m), by); break; } }
            }
            if (k.n.superName != null) use(k.n.superName, by);
        }
        private void run() {
            while (!work.isEmpty()) {
                World.M m = work.poll();
                use(m.c().n.name, m.id());
                for (AbstractInsnNode n : m.m().instructions) {
                    if (n instanceof MethodInsnNode k) call(k.owner, k.name, k.desc, k.getOpcode() == Opcodes.INVOKESPECIAL || k.getOpcode() == Opcodes.INVOKESTATIC, m.id());
                    else if (n instanceof InvokeDynamicInsnNode d && !direct) { for (Object a : d.bsmArgs) if (a instanceof Handle h && h.getTag() >= Opcodes.H_INVOKEVIRTUAL) call(h.getOwner(), h.getName(), h.getDesc(), false, m.id()); }
                    else if (n instanceof FieldInsnNode f) use(f.owner, m.id());
                    else if (n instanceof TypeInsnNode t && t.getOpcode() == Opcodes.NEW) use(t.desc, m.id());
                }
            }
        }
        private void call(String o, String n, String d, boolean exact, String by) {
            edges++;
            use(o, by);
            World.C k = w.get(o);
            if (k == null) return;
            add(w.resolve(o, n, d), by);
            if (exact || !k.repo) return;
            for (String r : w.repoNames) if (!r.equals(o) && w.isSub(r, o)) { World.M t = w.resolve(r, n, d); if (t != null) add(t, by); }
        }
        List<String> path(String id) { LinkedList<String> l = new LinkedList<>(); for (String x = id; x != null && l.size() < 30; x = from.get(x)) l.addFirst(pretty(x)); return l; }
    }
    static String pretty(String id) { String x = id.substring(0, id.indexOf('(')); return x.substring(x.lastIndexOf('/') + 1); }

    static final class Ambient extends Check {
        String explanation() { return "Call graph and effect analysis: every method reachable (class hierarchy analysis, lambdas and class initialisers included) from the constructors and methods of the evaluators and parsers is scanned for calls that read ambient state (default locale, charset and time zone, clock, randomness, identity hash codes, system settings, threads, files, network, processes). The clock may be read only through the class implementing DAYS_ELAPSED, and only during the call, not at construction."; }
        void run(Ctx c) {
            World w = c.m.w;
            List<String> entry = new ArrayList<>(), days = new ArrayList<>();
            for (String n : w.repoNames) {
                String s = n.substring(n.lastIndexOf('/') + 1);
                if (List.of("BooleanExpressionEvaluator", "ArithmeticExpressionEvaluator", "BoolParser", "CachedBoolParser").contains(s)) entry.add(n);
                for (MethodNode m : w.get(n).n.methods) if (m.desc.equals("()L" + Model.PKG + "constant/FunctionType;")) for (AbstractInsnNode i : m.instructions) if (i instanceof FieldInsnNode f && f.name.equals("DAYS_ELAPSED") && !n.endsWith("/FunctionType")) days.add(n);
            }
            if (entry.size() != 4) throw new Model.Anchor("the evaluator and parser classes");
            if (days.isEmpty()) throw new Model.Anchor("the class implementing DAYS_ELAPSED");
            String r1 = "no ambient input but the clock", r2 = "the clock is read for DAYS_ELAPSED only", r3 = "the clock is read during the call";
            c.rules.addAll(List.of(r1, r2, r3));
            Graph all = new Graph(w, x -> false), nodays = new Graph(w, days::contains);
            for (String e : entry) for (MethodNode m : w.get(e).n.methods) { all.root(e, m); nodays.root(e, m); }
            // construction: constructors of the entry classes, and every class initialiser
            Graph ctor = new Graph(w, x -> false);
            ctor.direct = true; // what is deferred to a lambda or callback does not run now
            for (String e : entry) for (MethodNode m : w.get(e).n.methods) if (m.name.equals("<init>")) ctor.root(e, m);
            for (String n : w.repoNames) if (all.types.contains(n)) for (MethodNode m : w.get(n).n.methods) if (m.name.equals("<clinit>")) ctor.root(n, m);
            scan(c, all, r1, x -> !x.equals("the clock"), w);
            scan(c, nodays, r2, x -> x.equals("the clock"), w);
            scan(c, ctor, r3, x -> x.equals("the clock"), w);
            c.scenarios = 3; c.partitions = all.seen.size();
            c.count("methods in the call graph", all.seen.size()); c.count("call edges", all.edges);
            for (World.M m : all.seen.values()) c.m.in.analysed.put(pretty(m.id()), 1);
        }
        private void scan(Ctx c, Graph g, String rule, Predicate<String> kinds, World w) {
            for (World.M m : g.seen.values()) for (AbstractInsnNode n : m.m().instructions) {
                List<MethodInsnNode> calls = new ArrayList<>();
                if (n instanceof MethodInsnNode k) calls.add(k);
                if (n instanceof InvokeDynamicInsnNode d && !g.direct) for (Object a : d.bsmArgs) if (a instanceof Handle h && h.getTag() >= Opcodes.H_INVOKEVIRTUAL) calls.add(new MethodInsnNode(h.getTag() == Opcodes.H_INVOKESTATIC ? Opcodes.INVOKESTATIC : Opcodes.INVOKEVIRTUAL, h.getOwner(), h.getName(), h.getDesc(), false));
                for (MethodInsnNode k : calls) {
                    c.obligations++;
                    String what = ambient(w, m.m(), k);
                    if (what == null || !kinds.test(what)) continue;
                    int line = 0; for (AbstractInsnNode p = n; p != null && line == 0; p = p.getPrevious()) if (p instanceof LineNumberNode l) line = l.line;
                    String at = pretty(m.id()) + " calls " + k.owner.replace('/', '.') + "." + k.name;
                    c.violation(at, rule, at + " (line " + line + "), which reads " + what, g.path(m.id()));
                }
            }
        }
    }
}
