package sa;

import java.nio.file.*;
import java.util.*;

/** Development aid: the analysis of library idioms (tool/selftest/Snips.java) compared with what the JDK gives. Runs no repository code. */
public final class SelfTest {
    public static void main(String[] a) throws Exception {
        Thread t = new Thread(null, () -> { try { go(a[0]); } catch (Throwable e) { e.printStackTrace(); } }, "x", 2000L << 20); t.start(); t.join();
    }
    static void go(String classes) throws Exception {
        Path work = Files.createTempDirectory("st");
        Model m = Model.load(Path.of(System.getProperty("repo")), work, Path.of(System.getProperty("stubs")));

        String cn = "com/github/sidhant92/boolparser/Snips";
        Class<?> k = new java.net.URLClassLoader(new java.net.URL[]{Path.of(classes).toUri().toURL()}).loadClass(cn.replace('/', '.'));
        int ok = 0, und = 0, bad = 0;
        for (java.lang.reflect.Method me : k.getMethods()) {
            if (me.getDeclaringClass() != k || me.getParameterCount() > 0) continue;
            String want; try { want = String.valueOf(me.invoke(null)); } catch (java.lang.reflect.InvocationTargetException e) { want = "thrown " + e.getCause(); }
            State s = m.start();
            s.events = null;
            Set<String> got = new TreeSet<>(); boolean taint = false; String why = "";
            try {
                for (Interp.Out o : m.in.invoke(s, org.objectweb.asm.Opcodes.INVOKESTATIC, cn, me.getName(), "()Ljava/lang/Object;", new V[0])) {
                    for (State.Event e : o.s.eventList()) if (Set.of("UNMODELLED", "WIDEN", "UNINTERP").contains(e.kind())) { taint = true; why = e.kind() + " " + e.text(); break; }
                    if (o.exc != null) { got.add("thrown " + o.exc + " " + m.in.classOf(o.s, o.exc)); continue; }
                    for (Interp.Out p : m.in.lib.stringify(o.s, o.ret, "L")) got.add(p.exc != null ? "thrown" : p.ret instanceof V.Im im && im.str != null ? im.str.isConst() ? im.str.constant() : "~" + im.str.key() : "" + p.ret);
                }
            } catch (Throwable e) { got.add("CRASH " + e); }
            if (got.equals(Set.of(want))) ok++;
            else if (taint) { und++; System.out.println("undecided " + me.getName() + ": " + why); }
            else { bad++; System.out.println("WRONG " + me.getName() + ": expected " + want + " got " + got); }
        }
        System.out.println(ok + " agree, " + und + " undecided, " + bad + " wrong");
        Main.wipe(work);
    }
}
