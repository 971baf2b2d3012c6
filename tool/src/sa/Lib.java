package sa;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import sa.Interp.Out;

/** Abstract semantics of the JDK value classes and of the library boundary; everything else is interpreted from its bytecode. */
public final class Lib {
    interface Nat { List<Out> call(State s, V[] a, String desc); }
    interface K { List<Out> go(State s); }

    final Interp in;
    final Map<String, Nat> nats = new HashMap<>();
    static final String S = "java/lang/String", BD = "java/math/BigDecimal", BI = "java/math/BigInteger", LD = "java/time/LocalDate", LDT = "java/time/LocalDateTime", CV = "org/apache/maven/artifact/versioning/ComparableVersion";
    static final String INTEGER = "java/lang/Integer", LONG = "java/lang/Long", BOOLEAN = "java/lang/Boolean", DOUBLE = "java/lang/Double", FLOAT = "java/lang/Float";
    static final Set<String> IMM = Set.of(S, BD, BI, CV, INTEGER, LONG, BOOLEAN, DOUBLE, FLOAT, "java/lang/Short", "java/lang/Byte", "java/lang/Character", "java/math/MathContext");
    static final Set<String> NUMBOX = Set.of(INTEGER, LONG, DOUBLE, FLOAT, "java/lang/Short", "java/lang/Byte", "java/lang/Character", BOOLEAN);

    Lib(Interp in) { this.in = in; new Natives(this).register(); }

    // ------------------------------------------------------------------------------------------------- classification

    boolean immutable(String c) { return IMM.contains(c); }

    private final Map<String, Boolean> interp = new HashMap<>();
    boolean interpretable(String c) { return interp.computeIfAbsent(c, this::interpretable0); }

    private boolean interpretable0(String c) {
        if (c.startsWith("io/vavr/") || c.startsWith("org/apache/commons/lang3/") || c.startsWith("zz/")) return true;
        if (c.startsWith("org/antlr/v4/runtime/")) {
            if (c.startsWith("org/antlr/v4/runtime/tree/") && !c.contains("/xpath/") && !c.contains("/pattern/")) return true;
            return Set.of("RuleContext", "ParserRuleContext", "CommonToken", "Token", "WritableToken", "RuleContextWithAltNum", "BaseErrorListener", "ANTLRErrorListener", "misc/ParseCancellationException", "misc/Pair", "misc/Interval").contains(c.substring("org/antlr/v4/runtime/".length()));
        }
        if (c.startsWith("java/util/function/")) return true;
        if (c.startsWith("java/util/")) {
            String n = c.substring(10);
            for (String p : new String[]{"Optional", "ArrayList", "Abstract", "Arrays", "Collections", "Objects", "LinkedList", "Stack", "Vector", "ArrayDeque", "Comparator", "Iterator", "ListIterator", "List", "Map", "Collection", "Set", "Queue", "Deque", "Iterable", "TimSort", "ComparableTimSort", "PriorityQueue", "RandomAccess", "SortedMap", "NavigableMap", "SortedSet", "NavigableSet", "Enumeration", "SequencedCollection", "SequencedMap", "SequencedSet", "KeyValueHolder", "PrimitiveIterator", "IntSummaryStatistics", "LongSummaryStatistics", "concurrent/CopyOnWriteArrayList", "concurrent/Callable", "concurrent/ConcurrentMap", "stream/Collectors", "stream/Collector", "DualPivotQuicksort", "Dictionary"})
                if (n.equals(p) || n.startsWith(p + "$") || (p.equals("Abstract") && n.startsWith("Abstract")) || (p.startsWith("Optional") && n.startsWith("Optional")) || (p.equals("Comparator") && n.startsWith("Comparators"))) return true;
            if (c.equals("java/util/Collections")) return true;
        }
        if (Set.of("java/lang/Enum", "java/lang/Iterable", "java/lang/Record", "java/lang/Runnable", "java/lang/Comparable", "java/lang/CharSequence", "java/lang/AutoCloseable", "jdk/internal/util/Preconditions", "jdk/internal/util/ArraysSupport").contains(c)) return true;
        return !c.equals("java/lang/Throwable") && in.w.isSub(c, "java/lang/Throwable");
    }

    /** classes whose initialisers only set up machinery the analysis models itself */
    boolean skipClinit(String c) {
        if (c.startsWith("jdk/internal/") || c.equals("java/util/Arrays$LegacyMergeSort") || c.equals("java/util/Collections") && false) return true;
        return in.w.isSub(c, "org/antlr/v4/runtime/Recognizer");
    }

    // ------------------------------------------------------------------------------------------------- partition helpers

    static List<Out> one(State s, V v) { return Interp.one(s, v); }
    List<Out> thrown(State s, String c, String m) { return in.thrown(s, c, m); }
    List<Out> top(State s, String type, String why) { s.event("UNMODELLED", why, null); return one(s, new V.Top(type, why)); }

    List<Out> cond(State s, Poly p, int set, K yes, K no) {
        int sg = s.facts.sign(p);
        Facts y = (sg & set) == 0 ? null : s.facts.assume(p, set), n = (sg & ~set & 7) == 0 ? null : s.facts.assume(p, ~set & 7);
        List<Out> r = new ArrayList<>();
        if (y != null) { State t = n == null ? s : s.copy(); t.facts = y; r.addAll(yes.go(t)); }
        if (n != null) { State t = y == null ? s : s.copy(); t.facts = n; r.addAll(no.go(t)); }
        return r;
    }

    List<Out> within(State s, Poly p, Itv r, K yes, K no) {
        if (s.facts.itv(p).within(r)) return yes.go(s);
        List<Out> l = new ArrayList<>();
        Facts in = s.facts.within(p, r);
        Facts hi = r.hi() == null ? null : s.facts.within(p, Itv.above(r.hi(), !r.hiOpen())), lo = r.lo() == null ? null : s.facts.within(p, Itv.below(r.lo(), !r.loOpen()));
        if (in != null) { State t = s.copy(); t.facts = in; l.addAll(yes.go(t)); }
        if (hi != null) { State t = s.copy(); t.facts = hi; l.addAll(no.go(t)); }
        if (lo != null) { State t = s.copy(); t.facts = lo; l.addAll(no.go(t)); }
        return l;
    }

    List<Out> pred(State s, String key, K yes, K no) {
        Boolean b = s.facts.pred(key);
        if (b != null) return b ? yes.go(s) : no.go(s);
        List<Out> r = new ArrayList<>();
        State t = s.copy(); t.facts = t.facts.setPred(key, true); t.mark("with " + key); r.addAll(yes.go(t));
        State u = s.copy(); u.facts = u.facts.setPred(key, false); u.mark("with not " + key); r.addAll(no.go(u));
        return r;
    }

    /** TRUE / FALSE / null = open: is the term a whole number */
    static Boolean isIntegral(Facts f, Poly p) {
        Poly sub = Poly.ZERO; boolean changed = false;
        for (var e : p.t.entrySet()) { // known values
            Poly m = Poly.of(e.getValue());
            for (Poly.Atom a : e.getKey().f) { Itv v = f.itv(Poly.atom(a)); if (v.isPt()) { changed = true; m = m.scale(v.lo()); } else m = m.mul(Poly.atom(a)); }
            sub = sub.add(m);
        }
        if (changed) return isIntegral(f, sub);
        if (p.isConst()) return p.constant().isInt();
        if (p.integral()) return true;
        if (p.single() != null) return f.intAtom(p.single());
        Itv v = f.itv(p);
        if (v.isPt()) return v.lo().isInt();
        Boolean b = f.pred(intKey(p));
        if (b != null) return b;
        if (p.t.size() == 1 && p.t.firstKey().f.size() > 1) { // k*a*b with k*a known whole and b whole
            Rat k = p.t.firstEntry().getValue(); List<Poly.Atom> at = p.t.firstKey().f;
            for (Poly.Atom a : at) { Poly q = Poly.ONE.scale(k); boolean first = true; for (Poly.Atom x : at) { if (x.equals(a) && first) { first = false; continue; } q = q.mul(Poly.atom(x)); } if ((a.integral || Boolean.TRUE.equals(f.pred("int(" + a.key + ")"))) && Boolean.TRUE.equals(f.pred(intKey(q)))) return true; }
        }
        Poly r = Poly.ZERO; int frac = 0;
        boolean lin = true;
        for (var e : p.t.entrySet()) {
            List<Poly.Atom> at = e.getKey().f;
            if (at.isEmpty()) { if (!e.getValue().isInt()) frac++; continue; }
            boolean allInt = true, known = true;
            for (Poly.Atom a : at) { if (a.integral) continue; Boolean x = f.intAtom(a); if (x == null) known = false; else if (!x) allInt = false; }
            if (!known) return null;
            if (allInt && e.getValue().isInt()) continue;
            if (!allInt && at.size() == 1 && (e.getValue().equals(Rat.ONE) || e.getValue().equals(Rat.MINUS_ONE))) { frac++; continue; }
            return null;
        }
        return frac == 0 ? Boolean.TRUE : frac == 1 ? Boolean.FALSE : null;
    }

    /** the predicate name of "p is whole": up to integral summands and sign */
    static String intKey(Poly p) {
        Poly r = Poly.ZERO;
        for (var e : p.t.entrySet()) {
            boolean all = true; Poly m = Poly.ONE;
            for (Poly.Atom a : e.getKey().f) { all &= a.integral; m = m.mul(Poly.atom(a)); }
            Rat k = e.getValue();
            if (all) k = k.sub(k.floor());
            if (k.sign() != 0) r = r.add(m.scale(k));
        }
        if (r.lead().sign() < 0) { Poly n = intNorm(r.neg()); r = n; }
        return "int(" + r.key() + ")";
    }
    private static Poly intNorm(Poly p) {
        Poly r = Poly.ZERO;
        for (var e : p.t.entrySet()) {
            boolean all = true; Poly m = Poly.ONE;
            for (Poly.Atom a : e.getKey().f) { all &= a.integral; m = m.mul(Poly.atom(a)); }
            Rat k = e.getValue();
            if (all) k = k.sub(k.floor());
            if (k.sign() != 0) r = r.add(m.scale(k));
        }
        return r;
    }

    List<Out> integral(State s, Poly p, K yes, K no) {
        Boolean b = isIntegral(s.facts, p);
        if (b != null) return b ? yes.go(s) : no.go(s);
        return pred(s, intKey(p), yes, t -> { Facts g = t.facts.assume(p, Facts.NEG | Facts.POS); if (g == null) return List.of(); t.facts = g; return no.go(t); });
    }

    List<Out> then(List<Out> r, java.util.function.BiFunction<State, V, List<Out>> f) {
        List<Out> l = new ArrayList<>();
        for (Out o : r) if (o.exc != null) l.add(o); else l.addAll(f.apply(o.s, o.ret));
        return l;
    }

    static V bool(boolean b) { return V.I.of(b ? 1 : 0); }

    // ------------------------------------------------------------------------------------------------- constants and constant folding

    static final Object NO = new Object();

    Object real(V v, String desc) {
        if (v instanceof V.Null) return null;
        if (v instanceof V.I i) {
            if (!i.p.isConst()) return NO;
            int k = i.p.constant().n.intValue();
            switch (desc.charAt(0)) { case 'Z': return k != 0; case 'C': return (char) k; case 'B': return (byte) k; case 'S': return (short) k; case 'I': return k; default: return NO; }
        }
        if (v instanceof V.J j) return j.p.isConst() ? (Object) j.p.constant().n.longValue() : NO;
        if (v instanceof V.D d) { if (!d.p.isConst()) return NO; double x = toDouble(d.p.constant()); return d.dbl ? (Object) x : (Object) (float) x; }
        if (v instanceof V.Im m) {
            if (m.konst != null) return m.konst;
            if (m.cls.equals(S)) return m.str.isConst() ? m.str.constant() : NO;
            if (m.cls.equals(CV)) return m.str.isConst() ? new org.apache.maven.artifact.versioning.ComparableVersion(m.str.constant()) : NO;
            if (m.num != null && m.num.isConst()) {
                Rat r = m.num.constant();
                switch (m.cls) {
                    case INTEGER: return r.n.intValue();
                    case LONG: return r.n.longValue();
                    case BOOLEAN: return r.sign() != 0;
                    case DOUBLE: return toDouble(r);
                    case FLOAT: return (float) toDouble(r);
                    case "java/lang/Short": return r.n.shortValue();
                    case "java/lang/Byte": return r.n.byteValue();
                    case "java/lang/Character": return (char) r.n.intValue();
                    case BI: return r.n;
                    case BD: {
                        BigDecimal b;
                        try { b = new BigDecimal(Str.dec(r)); } catch (ArithmeticException e) { return NO; }
                        if (m.form.equals("int")) return b.setScale(0);
                        if (m.form.equals("strip")) return b.stripTrailingZeros();
                        if (m.form.startsWith("scale:")) try { return b.setScale(Integer.parseInt(m.form.substring(6))); } catch (RuntimeException e) { return NO; }
                        return NO; }
                    case LD: return java.time.LocalDate.ofEpochDay(r.n.longValue());
                    case LDT: return r.isInt() ? java.time.LocalDateTime.ofEpochSecond(r.n.longValue(), 0, java.time.ZoneOffset.UTC) : NO;
                    default: return NO;
                }
            }
        }
        if (v instanceof V.Cls) return NO;
        return NO;
    }

    static double toDouble(Rat r) { return new BigDecimal(r.n).divide(new BigDecimal(r.d), java.math.MathContext.DECIMAL128).doubleValue(); }

    static V.Im decOf(BigDecimal b) { return V.Im.dec(Poly.of(Rat.of(b)), b.scale() == 0 ? "int" : "scale:" + b.scale()); }

    V abs(State s, Object o, Class<?> t) {
        if (t == void.class) return null;
        if (t.isPrimitive()) {
            if (t == boolean.class) return bool((Boolean) o);
            if (t == char.class) return V.I.of((Character) o);
            if (t == long.class) return new V.J(Poly.of((Long) o));
            if (t == double.class) return Interp.dbl(o.toString(), true);
            if (t == float.class) return Interp.dbl(o.toString(), false);
            return V.I.of(((Number) o).longValue());
        }
        if (o == null) return V.NULL;
        if (o instanceof String x) return V.Im.str(Str.of(x));
        if (o instanceof Boolean b) return V.Im.num(BOOLEAN, Poly.of(b ? 1 : 0));
        if (o instanceof Character c) return V.Im.num("java/lang/Character", Poly.of(c));
        if (o instanceof BigDecimal b) return decOf(b);
        if (o instanceof BigInteger b) return V.Im.num(BI, Poly.of(Rat.of(b)));
        if (o instanceof Integer || o instanceof Long || o instanceof Short || o instanceof Byte) return V.Im.num(o.getClass().getName().replace('.', '/'), Poly.of(((Number) o).longValue()));
        if (o instanceof Double || o instanceof Float) { V d = Interp.dbl(o.toString(), o instanceof Double); return d instanceof V.D x ? V.Im.num(o instanceof Double ? DOUBLE : FLOAT, x.p) : new V.Top("L" + DOUBLE + ";", "" + o); }
        if (o instanceof java.time.LocalDate d) return V.Im.num(LD, Poly.of(d.toEpochDay()));
        if (o instanceof java.time.LocalDateTime d && d.getNano() == 0) return V.Im.num(LDT, Poly.of(d.toEpochSecond(java.time.ZoneOffset.UTC)));
        if (o instanceof org.apache.maven.artifact.versioning.ComparableVersion c) return V.Im.of(CV, Str.of(c.toString()));
        if (o.getClass().isArray()) {
            int n = java.lang.reflect.Array.getLength(o); V[] e = new V[n];
            for (int i = 0; i < n; i++) e[i] = abs(s, java.lang.reflect.Array.get(o, i), o.getClass().getComponentType());
            return s.array(Type.getDescriptor(o.getClass()), e);
        }
        if (o.getClass().getName().startsWith("java.")) return V.Im.konst(o.getClass().getName().replace('.', '/'), o, o.toString());
        return new V.Top("L" + o.getClass().getName().replace('.', '/') + ";", "value of " + o.getClass());
    }

    static final Set<String> IMPURE = Set.of("now", "systemDefault", "getDefault", "random", "defaultCharset", "getProperty", "identityHashCode", "getenv", "getBoolean", "getInteger", "getLong", "setDefault");

    boolean foldable(String o) {
        return IMM.contains(o) || o.equals("java/lang/Math") || o.equals("java/lang/StrictMath") || o.startsWith("java/math/") || o.startsWith("java/time/") || o.equals("java/util/Locale") || o.startsWith("java/util/regex/Pattern") || o.equals("java/lang/Number");
    }

    private final Map<String, Object> methods = new HashMap<>();

    private List<Out> fold(State s, String owner, String name, String desc, V[] a, boolean stat) {
        if (!foldable(owner) || IMPURE.contains(name)) return null;
        if (owner.equals(S) && name.equals("format") || name.equals("matcher")) return null;
        Type[] ts = Type.getArgumentTypes(desc);
        Object[] r = new Object[ts.length];
        Object recv = null;
        int off = 0;
        if (!stat) { recv = real(a[0], "L"); if (recv == NO || recv == null) return null; off = 1; }
        for (int i = 0; i < ts.length; i++) {
            if (a[i + off] instanceof V.Ref && s.arr(a[i + off]) != null) return null;
            r[i] = real(a[i + off], ts[i].getDescriptor()); if (r[i] == NO) return null;
        }
        Object mo = methods.computeIfAbsent((stat ? "s " : "v ") + owner + "." + name + desc, k -> {
            try {
                Class<?> c = Class.forName(owner.replace('/', '.'));
                Class<?>[] p = new Class<?>[ts.length];
                for (int i = 0; i < ts.length; i++) p[i] = cls(ts[i]);
                return c.getMethod(name, p);
            } catch (ReflectiveOperationException | LinkageError e) { return NO; }
        });
        if (mo == NO) return null;
        java.lang.reflect.Method m = (java.lang.reflect.Method) mo;
        if (!java.lang.reflect.Modifier.isPublic(m.getModifiers())) return null;
        Class<?> rt = m.getReturnType();
        if (java.util.stream.BaseStream.class.isAssignableFrom(rt) || Collection.class.isAssignableFrom(rt) || Optional.class == rt) return null;
        try {
            Object o = m.invoke(recv, r);
            return one(s, abs(s, o, rt));
        } catch (java.lang.reflect.InvocationTargetException e) {
            return thrown(s, e.getCause().getClass().getName().replace('.', '/'), String.valueOf(e.getCause().getMessage()));
        } catch (IllegalAccessException | IllegalArgumentException e) { return null; }
    }

    static Class<?> cls(Type t) throws ClassNotFoundException {
        switch (t.getSort()) {
            case Type.BOOLEAN: return boolean.class; case Type.CHAR: return char.class; case Type.BYTE: return byte.class; case Type.SHORT: return short.class;
            case Type.INT: return int.class; case Type.LONG: return long.class; case Type.FLOAT: return float.class; case Type.DOUBLE: return double.class; case Type.VOID: return void.class;
            default: return Class.forName(t.getSort() == Type.ARRAY ? t.getDescriptor().replace('/', '.') : t.getClassName());
        }
    }

    // ------------------------------------------------------------------------------------------------- entry points used by the interpreter

    /** a library rule applied to operands it has no form for (an unknown of the wrong kind) does not apply */
    List<Out> safely(Nat n, State s, V[] a, String desc, String what) {
        try { return n.call(s, a, desc); }
        catch (NullPointerException | ClassCastException e) { if (Boolean.getBoolean("traces")) { System.err.println("rule " + what + " not applicable to " + Arrays.toString(a)); e.printStackTrace(); } return null; }
    }

    List<Out> call(State s, String owner, String name, String desc, V[] a, boolean stat) {
        List<Out> f = fold(s, owner, name, desc, a, stat);
        if (f != null) return f;
        Nat n = nats.get(owner + "." + name + desc.substring(0, desc.indexOf(')') + 1));
        if (n == null) n = nats.get(owner + "." + name);
        if (n != null) { List<Out> r = safely(n, s, a, desc, owner + "." + name); if (r != null) return r; }
        if (!stat && a[0] instanceof V.Im m && !owner.equals(m.cls)) { /* interface or Object method on a value */
            n = nats.get(m.cls + "." + name + desc.substring(0, desc.indexOf(')') + 1));
            if (n == null) n = nats.get(m.cls + "." + name);
            if (n != null) { List<Out> r = safely(n, s, a, desc, owner + "." + name); if (r != null) return r; }
        }
        if (in.w.get(owner) != null && in.w.isSub(owner, "org/antlr/v4/runtime/Recognizer")) return recognizer(s, owner, name, desc, a);
        if (!stat && a[0] instanceof V.Ref && in.classOf(s, a[0]) != null && !in.classOf(s, a[0]).startsWith("[") && in.w.isSub(in.classOf(s, a[0]), "org/antlr/v4/runtime/Recognizer")) return recognizer(s, owner, name, desc, a);
        // any other pure method of a value class is an uninterpreted function of its arguments
        if ((foldable(owner) || (!stat && a[0] instanceof V.Im)) && !IMPURE.contains(name)) {
            StringBuilder k = new StringBuilder(owner.substring(owner.lastIndexOf('/') + 1)).append('.').append(name).append('(');
            boolean ok = true;
            for (V v : a) { if (v instanceof V.Top || v instanceof V.Ref || v instanceof V.Fn) ok = false; k.append(k.charAt(k.length() - 1) == '(' ? "" : ",").append(v instanceof V.Im m ? m.key : v.toString()); }
            if (ok) return uninterpreted(s, k.append(')').toString(), desc.substring(desc.indexOf(')') + 1));
        }
        return null;
    }

    List<Out> uninterpreted(State s, String key, String ret) {
        s.event("UNINTERP", key, null);
        in.unmodelled.add(key);
        return fresh(s, key, ret);
    }

    /** an unknown value of a type named by key */
    List<Out> fresh(State s, String key, String ret) {
        switch (ret) {
            case "V": return one(s, null);
            case "Z": return pred(s, key, t -> one(t, bool(true)), t -> one(t, bool(false)));
            case "I": return one(s, new V.I(Poly.var(key, Itv.INT, true)));
            case "S": return one(s, new V.I(Poly.var(key, Itv.of(-32768, 32767), true)));
            case "B": return one(s, new V.I(Poly.var(key, Itv.of(-128, 127), true)));
            case "C": return one(s, new V.I(Poly.var(key, Itv.of(0, 65535), true)));
            case "J": return one(s, new V.J(Poly.var(key, Itv.LONG, true)));
            case "F": case "D": return one(s, new V.D(Poly.var(key, Itv.ALL, false), ret.equals("D")));
            case "Ljava/lang/String;": return one(s, V.Im.str(Str.atom(key)));
            case "Ljava/math/BigDecimal;": return one(s, V.Im.dec(Poly.var(key, Itv.ALL, false), "of:" + key));
            case "Ljava/math/BigInteger;": return one(s, V.Im.num(BI, Poly.var(key, Itv.ALL, true)));
            case "Ljava/time/LocalDate;": return one(s, V.Im.num(LD, Poly.var(key, DAYS, true)));
            case "Ljava/time/LocalDateTime;": return one(s, V.Im.num(LDT, Poly.var(key, SECS, true)));
            case "Ljava/lang/Integer;": return one(s, V.Im.num(INTEGER, Poly.var(key, Itv.INT, true)));
            case "Ljava/lang/Long;": return one(s, V.Im.num(LONG, Poly.var(key, Itv.LONG, true)));
            case "Ljava/lang/Double;": return one(s, V.Im.num(DOUBLE, Poly.var(key, Itv.ALL, false)));
            case "Ljava/lang/Boolean;": return one(s, V.Im.num(BOOLEAN, Poly.var(key, Itv.BOOL, true)));
            default: return ret.startsWith("Ljava/") ? one(s, V.Im.key(ret.substring(1, ret.length() - 1), key)) : one(s, new V.Top(ret, key));
        }
    }
    static final Itv DAYS = Itv.of(-365243219162L, 365241780471L), SECS = Itv.of(-31557014167219200L, 31556889864403199L);

    V getStatic(State s, World.C oc, String owner, String name, String desc) {
        V v = s.stat(owner + "." + name);
        if (v != null) return v;
        if (oc != null && (oc.repo || oc.stub || interpretable(owner))) {
            Object k = oc.fields.containsKey(name) ? oc.fields.get(name).value : null;
            if (k != null) return Interp.ldc(k);
            return Interp.defaultValue(desc);
        }
        if (owner.startsWith("java/")) {
            try {
                Object o = Class.forName(owner.replace('/', '.')).getField(name).get(null);
                if (o instanceof Class<?> c) return new V.Cls(c.isPrimitive() ? "prim:" + c.getName() : c.getName().replace('.', '/'));
                if (o instanceof Comparator) { return staticRef(s, owner, name, o); }
                Class<?> t = Class.forName(owner.replace('/', '.')).getField(name).getType();
                return abs(s, o, t);
            } catch (ReflectiveOperationException | LinkageError e) { /* fall through */ }
        }
        if (oc != null && oc.fields.containsKey(name) && oc.fields.get(name).value != null) return Interp.ldc(oc.fields.get(name).value);
        s.event("UNMODELLED", "static field " + owner + "." + name, null);
        return new V.Top(desc, "static " + owner + "." + name);
    }

    private V staticRef(State s, String owner, String name, Object o) {
        if (owner.equals(S) && name.equals("CASE_INSENSITIVE_ORDER")) return V.Im.konst("java/util/Comparator", o, "CASE_INSENSITIVE_ORDER");
        return new V.Top("Ljava/lang/Object;", owner + "." + name);
    }

    List<Out> construct(State s, String cls, String desc, V[] a) {
        // constant folding
        Type[] ts = Type.getArgumentTypes(desc);
        if (!cls.equals(S) || ts.length > 0) {
            Object[] r = new Object[ts.length]; boolean ok = true;
            for (int i = 0; i < ts.length && ok; i++) { if (s.arr(a[i]) != null) { ok = false; break; } r[i] = real(a[i], ts[i].getDescriptor()); if (r[i] == NO) ok = false; }
            if (ok) try {
                Class<?>[] p = new Class<?>[ts.length];
                for (int i = 0; i < p.length; i++) p[i] = cls(ts[i]);
                Object o = Class.forName(cls.replace('/', '.')).getConstructor(p).newInstance(r);
                V v = abs(s, o, o.getClass());
                if (v instanceof V.Im m && NUMBOX.contains(cls)) v = V.Im.num(cls, m.num.add(Poly.ZERO));
                return one(s, v);
            } catch (java.lang.reflect.InvocationTargetException e) {
                return thrown(s, e.getCause().getClass().getName().replace('.', '/'), String.valueOf(e.getCause().getMessage()));
            } catch (ReflectiveOperationException | IllegalArgumentException e) { /* fall through */ }
        }
        Nat n = nats.get(cls + ".<init>" + desc.substring(0, desc.indexOf(')') + 1));
        if (n == null) n = nats.get(cls + ".<init>");
        return n == null ? null : safely(n, s, a, desc, cls + ".<init>");
    }

    // ------------------------------------------------------------------------------------------------- numbers

    List<Out> longToDouble(State s, Poly p, boolean dbl) {
        long lim = dbl ? 1L << 53 : 1L << 24;
        return within(s, p, Itv.of(-lim, lim), t -> one(t, new V.D(p, dbl)), t -> one(t, new V.D(Poly.var((dbl ? "rd(" : "rf(") + p.key() + ")", Itv.ALL, false), dbl)));
    }
    V floatToDouble(V.D d) { if (d.p.isConst()) { return Interp.dbl("" + (double) (float) toDouble(d.p.constant()), true); } return new V.D(Poly.var("f2d(" + d.p.key() + ")", Itv.ALL, false), true); }
    V d2f(V.D d) { return Interp.dbl("" + (float) toDouble(d.p.constant()), false); }

    /** the decimal value p as a double: exact while it has few digits */
    List<Out> toDoubleV(State s, Poly p) {
        if (p.isConst()) return one(s, Interp.dbl("" + toDouble(p.constant()), true));
        if (p.integral() && s.facts.itv(p).within(Itv.of(-(1L << 53), 1L << 53))) return one(s, new V.D(p, true));
        return pred(s, "short(" + p.key() + ")", t -> one(t, new V.D(p, true)), t -> one(t, new V.D(Poly.var("rd(" + p.key() + ")", Itv.ALL, false), true)));
    }

    List<Out> doubleToInt(State s, Poly p, boolean lng) {
        Itv R = lng ? Itv.LONG : Itv.INT;
        if (p.isConst()) { double d = toDouble(p.constant()); return one(s, lng ? new V.J(Poly.of((long) d)) : V.I.of((int) d)); }
        List<Out> r = new ArrayList<>();
        Facts hi = s.facts.within(p, Itv.above(R.hi(), true)), lo = s.facts.within(p, Itv.below(R.lo(), true)), mid = s.facts.within(p, R);
        if (hi != null) { State t = s.copy(); t.facts = hi; r.add(Out.ok(t, Interp.mk(lng, Poly.of(R.hi())))); }
        if (lo != null) { State t = s.copy(); t.facts = lo; r.add(Out.ok(t, Interp.mk(lng, Poly.of(R.lo())))); }
        if (mid != null) { State t = s.copy(); t.facts = mid; for (Out o : trunc(t, p)) r.add(Out.ok(o.s, Interp.mk(lng, ((V.Im) o.ret).num))); }
        return r;
    }

    /** truncation towards zero: BigInteger value */
    List<Out> trunc(State s, Poly p) {
        if (p.isConst()) return one(s, V.Im.num(BI, Poly.of(p.constant().trunc())));
        return integral(s, p, t -> one(t, V.Im.num(BI, p)), t -> {
            Poly q = truncTerm(t.facts, p);
            Facts g = t.facts.assume(p.sub(q), Facts.NEG | Facts.POS);
            if (g == null) return List.of();
            t.facts = g;
            return cond(t, p, Facts.POS, u -> { u.facts = nn(nn(u.facts, q, Facts.POS | Facts.ZERO), p.sub(q), Facts.POS); return u.facts == null ? List.of() : one(u, V.Im.num(BI, q)); },
                    u -> { u.facts = nn(nn(u.facts, q, Facts.NEG | Facts.ZERO), p.sub(q), Facts.NEG); return u.facts == null ? List.of() : one(u, V.Im.num(BI, q)); });
        });
    }
    static Facts nn(Facts f, Poly p, int set) { return f == null ? null : f.assume(p, set); }
    static Poly truncTerm(Facts f, Poly p) { return p.integral() ? p : Poly.var("trunc(" + p.key() + ")", Itv.ALL, true); }

    List<Out> dblArith(State s, int op, V.D x, V.D y, boolean dbl) {
        if (x.p.isConst() && y.p.isConst()) {
            double a = toDouble(x.p.constant()), b = toDouble(y.p.constant()), r;
            switch ((op - Opcodes.IADD) / 4) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; default: r = a % b; }
            return one(s, Interp.dbl(dbl ? "" + r : "" + (float) r, dbl));
        }
        int k = (op - Opcodes.IADD) / 4;
        Poly e = k == 0 ? x.p.add(y.p) : k == 1 ? x.p.sub(y.p) : k == 2 ? x.p.mul(y.p) : null;
        long lim = dbl ? 1L << 53 : 1L << 24;
        if (e != null && e.integral() && s.facts.itv(e).within(Itv.of(-lim, lim))) return one(s, new V.D(e, dbl));
        String nm = new String[]{"fadd", "fsub", "fmul", "fdiv", "frem"}[Math.min(k, 4)] + (dbl ? "" : "f");
        return one(s, new V.D(Poly.var(nm + "(" + x.p.key() + "," + y.p.key() + ")", Itv.ALL, false), dbl));
    }

    List<Out> quotient(State s, Poly p, Poly q) {
        if (p.isConst() && q.isConst()) return one(s, new V.J(Poly.of(Rat.of(p.constant().n.divide(q.constant().n)))));
        if (q.isConst() && q.constant().equals(Rat.ONE)) return one(s, new V.J(p));
        if (q.isConst() && q.constant().equals(Rat.MINUS_ONE)) return one(s, new V.J(p.neg()));
        return one(s, new V.J(quoTerm(s.facts, p, q)));
    }
    static Poly quoTerm(Facts f, Poly p, Poly q) {
        if (q.isConst() && p.scale(Rat.ONE.div(q.constant())).integral()) return p.scale(Rat.ONE.div(q.constant()));
        Itv v = f.itv(p); Itv r = Itv.ALL;
        if (v.lo() != null && v.hi() != null) { Rat m = v.lo().neg().compareTo(v.hi()) > 0 ? v.lo().neg() : v.hi(); r = new Itv(m.neg(), false, m, false); }
        return Poly.var("quo(" + p.key() + "," + q.key() + ")", r, true);
    }
    List<Out> remainder(State s, Poly p, Poly q) {
        if (p.isConst() && q.isConst()) { Rat k = p.constant().div(q.constant()); return one(s, new V.J(Poly.of(p.constant().sub(q.constant().mul(k.trunc()))))); }
        if (q.isConst() && (q.constant().equals(Rat.ONE) || q.constant().equals(Rat.MINUS_ONE))) return Interp.map(trunc(s, p), (t, v) -> new V.J(p.sub(((V.Im) v).num)));
        return one(s, new V.J(remTerm(s.facts, p, q)));
    }
    static Poly remTerm(Facts f, Poly p, Poly q) {
        if (q.isConst() && q.constant().n.abs().equals(BigInteger.ONE)) return Poly.ZERO;
        Itv v = f.itv(p);
        Rat lo = v.lo() == null ? null : v.lo().sign() < 0 ? v.lo() : Rat.ZERO, hi = v.hi() == null ? null : v.hi().sign() > 0 ? v.hi() : Rat.ZERO;
        return Poly.var("rem(" + p.key() + "," + q.key() + ")", new Itv(lo, lo == null, hi, hi == null), p.integral() && q.integral());
    }

    /** division rounded to a scale: exact normal form of the rounded quotient */
    static Poly rdiv(Facts f, Poly p, Poly q, int scale, String mode) {
        if (q.isConst() && q.constant().sign() != 0) { p = p.scale(Rat.ONE.div(q.constant())); q = Poly.ONE; }
        if (p.isConst() && q.isConst()) {
            Rat r = p.constant();
            BigDecimal b = new BigDecimal(r.n).divide(new BigDecimal(r.d), scale, java.math.RoundingMode.valueOf(mode));
            return Poly.of(Rat.of(b));
        }
        if (q.isConst() && scale >= 0 && p.scale(Rat.of(BigInteger.TEN.pow(scale))).integral()) return p;
        return Poly.var("round" + scale + mode + "(" + (q.isConst() ? p.key() : p.key() + " / " + q.key()) + ")", Itv.ALL, scale <= 0);
    }

    // ------------------------------------------------------------------------------------------------- text

    /** String.valueOf of a value of the given static type: Im string outcomes */
    List<Out> stringify(State s, V v, String desc) {
        if (v instanceof V.Null) return one(s, V.Im.str(Str.of("null")));
        if (v instanceof V.I i) {
            if (desc.equals("Z")) return cond(s, i.p, Facts.ZERO, t -> one(t, V.Im.str(Str.of("false"))), t -> one(t, V.Im.str(Str.of("true"))));
            if (desc.equals("C")) return one(s, V.Im.str(i.p.isConst() ? Str.of("" + (char) i.p.constant().n.intValue()) : Str.atom("chr(" + i.p.key() + ")")));
            return one(s, V.Im.str(Str.text(i.p, true, null)));
        }
        if (v instanceof V.J j) return one(s, V.Im.str(Str.text(j.p, true, null)));
        if (v instanceof V.D d) return one(s, V.Im.str(dblText(d.p, d.dbl)));
        if (v instanceof V.Im m) {
            if (m.cls.equals(S)) return one(s, m);
            return toStr(s, m);
        }
        if (v instanceof V.Top) return one(s, V.Im.str(Str.atom("text of " + v)));
        if (v instanceof V.Ref && s.obj(v) != null) {
            List<Out> r = in.invoke(s, Opcodes.INVOKEVIRTUAL, "java/lang/Object", "toString", "()Ljava/lang/String;", new V[]{v});
            return Interp.map(r, (t, x) -> x instanceof V.Im m && m.str != null ? m : V.Im.str(x instanceof V.Null ? Str.of("null") : Str.atom("text of " + x)));
        }
        return one(s, V.Im.str(Str.atom("text of " + v)));
    }

    Str dblText(Poly p, boolean dbl) {
        if (p.isConst()) return Str.of(dbl ? "" + toDouble(p.constant()) : "" + (float) toDouble(p.constant()));
        return Str.text(p, false, "dbl");
    }

    List<Out> toStr(State s, V.Im m) {
        Object r = real(m, "L");
        if (r != NO && r != null) return one(s, V.Im.str(Str.of(r.toString())));
        switch (m.cls) {
            case INTEGER: case LONG: case BI: case "java/lang/Short": case "java/lang/Byte": return one(s, V.Im.str(Str.text(m.num, true, null)));
            case BOOLEAN: return cond(s, m.num, Facts.ZERO, t -> one(t, V.Im.str(Str.of("false"))), t -> one(t, V.Im.str(Str.of("true"))));
            case DOUBLE: case FLOAT: return one(s, V.Im.str(dblText(m.num, true)));
            case BD: return one(s, V.Im.str(m.form.equals("int") ? Str.text(m.num, true, null) : Str.text(m.num, false, "dec:" + m.form)));
            case LD: return one(s, V.Im.str(Str.text(m.num, false, "date")));
            case LDT: return one(s, V.Im.str(Str.text(m.num, false, "isodt")));
            case CV: return one(s, V.Im.str(m.str));
            default: return one(s, V.Im.str(Str.atom("str(" + m.key + ")")));
        }
    }

    static boolean dateForm(Str.T t) { return !t.canon() && (t.form().equals("date") || t.form().equals("datetime") || t.form().equals("isodt")); }
    static boolean plain(Str s) { return s.parts.size() == 1 && s.parts.get(0) instanceof Str.A a && a.key().startsWith("~"); }

    /** an unknown text that is not empty and neither begins nor ends with a blank */
    static boolean solidAtom(Str.A a) { return a.key().startsWith("~") && !a.key().startsWith("~?"); }
    interface NumK { List<Out> go(State s, Poly p, String form); }

    /** reads text as a decimal numeral */
    List<Out> parseDec(State s, Str x, NumK yes, K no) {
        if (x.isConst()) {
            try { BigDecimal b = new BigDecimal(x.constant()); return yes.go(s, Poly.of(Rat.of(b)), b.scale() == 0 ? "int" : "scale:" + b.scale()); } catch (NumberFormatException e) { return no.go(s); }
        }
        Str.T t = x.text();
        if (t != null) {
            if (dateForm(t)) return no.go(s);
            String form = t.canon() ? (Boolean.TRUE.equals(isIntegral(s.facts, t.p())) ? "int" : "canon") : t.form().startsWith("dec:") ? t.form().substring(4) : t.form().equals("ilit") ? "int" : t.form() + ":" + t.p().key();
            return yes.go(s, t.p(), form);
        }
        if (plain(x) || hasNonNumeric(x)) return no.go(s);
        String k = x.key();
        return pred(s, "isNumber(" + k + ")", u -> yes.go(u, Poly.var("num(" + k + ")", Itv.ALL, false), "txt:" + k), no);
    }

    static boolean hasNonNumeric(Str x) {
        for (Str.Part p : x.parts) {
            if (p instanceof Str.C c) for (char ch : c.s().toCharArray()) if (!(Character.isDigit(ch) || "+-.eE".indexOf(ch) >= 0)) return true;
            if (p instanceof Str.A a && a.key().startsWith("~")) return true;
            if (p instanceof Str.T t && dateForm(t) ) return true;
        }
        return false;
    }

    /** reads text as a plain integer numeral (Integer.parseInt / Long.parseLong syntax) */
    List<Out> parseInt(State s, Str x, Itv range, NumK yes, K no) {
        if (x.isConst()) {
            try { BigInteger b = parseIntSyntax(x.constant()); if (b != null && range.contains(Rat.of(b))) return yes.go(s, Poly.of(Rat.of(b)), "int"); } catch (NumberFormatException e) { /* no */ }
            return no.go(s);
        }
        Str.T t = x.text();
        if (t != null) {
            if (dateForm(t)) return no.go(s);
            K ok = u -> integral(u, t.p(), w -> within(w, t.p(), range, z -> yes.go(z, t.p(), "int"), no), no);
            if (t.canon() || t.form().equals("ilit")) return ok.go(s);
            if (t.form().equals("dbl") || t.form().equals("dlit")) return no.go(s);
            if (Boolean.FALSE.equals(isIntegral(s.facts, t.p()))) return no.go(s);
            return pred(s, "plainInteger(" + x.key() + ")", ok, no);
        }
        if (plain(x) || hasNonNumeric(x)) return no.go(s);
        String k = x.key();
        if (Boolean.FALSE.equals(s.facts.pred("isNumber(" + k + ")"))) return no.go(s);
        Poly n = Poly.var("num(" + k + ")", Itv.ALL, false);
        return pred(s, "isInteger(" + k + ")", u -> {
            u.facts = u.facts.setPred("isNumber(" + k + ")", true); if (u.facts == null) return List.of();
            u.facts = u.facts.setPred(intKey(n), true); if (u.facts == null) return List.of();
            return within(u, n, range, z -> yes.go(z, n, "int"), no); }, no);
    }

    static BigInteger parseIntSyntax(String t) {
        if (t.isEmpty()) return null;
        int i = t.charAt(0) == '-' || t.charAt(0) == '+' ? 1 : 0;
        if (i == t.length()) return null;
        for (int j = i; j < t.length(); j++) if (Character.digit(t.charAt(j), 10) < 0) return null;
        return new BigInteger(t.charAt(0) == '+' ? t.substring(1) : t);
    }

    static Poly len(Str x) {
        Poly p = Poly.ZERO;
        for (Str.Part q : x.parts) p = p.add(q instanceof Str.C c ? Poly.of(c.s().length()) : Poly.var("len(" + q.key() + ")", q instanceof Str.T ? Itv.of(1, 1 << 20) : q.key().startsWith("~") && !q.key().startsWith("~?") ? Itv.of(1, 1 << 20) : Itv.NAT, true));
        return p;
    }

    /** difference term whose sign is the lexicographic order of two texts */
    static Poly order(Str a, Str b) {
        if (a.equals(b)) return Poly.ZERO;
        if (a.isConst() && b.isConst()) return Poly.of(Integer.signum(a.constant().compareTo(b.constant())));
        return rank("str", a.key()).sub(rank("str", b.key()));
    }
    static Poly rank(String kind, String key) { return Poly.var("rank " + kind + " " + key, Itv.ALL, false); }

    /** difference term that is zero iff two texts are equal */
    static Poly equality(Str a, Str b) {
        if (a.equals(b)) return Poly.ZERO;
        if (a.isConst() && b.isConst()) return Poly.ONE;
        Str.T x = a.text(), y = b.text();
        if (x != null && y != null) {
            if (x.canon() && y.canon()) return x.p().sub(y.p());
            if (!x.canon() && !y.canon() && x.form().equals(y.form()) && (dateForm(x))) return x.p().sub(y.p());
            if (dateForm(x) != dateForm(y)) return Poly.ONE;
        }
        if (x != null && x.canon() && b.isConst()) {
            try { BigDecimal d = new BigDecimal(b.constant()); if (Str.dec(Rat.of(d)).equals(b.constant())) return x.p().sub(Poly.of(Rat.of(d))); } catch (NumberFormatException e) { /* no number */ }
            return Poly.ONE;
        }
        if (y != null && y.canon() && a.isConst()) return equality(b, a);
        if ((x != null && plain(b)) || (y != null && plain(a))) return Poly.ONE;
        if ((x != null && !dateForm(x) && b.isConst() && !numeral(b.constant())) || (y != null && !dateForm(y) && a.isConst() && !numeral(a.constant()))) return Poly.ONE;
        if ((x != null && dateForm(x) && b.isConst() && !datey(b.constant())) || (y != null && dateForm(y) && a.isConst() && !datey(a.constant()))) return Poly.ONE;
        if ((plain(a) && b.isConst() && !wordy(b.constant(), a)) || (plain(b) && a.isConst() && !wordy(a.constant(), b))) return Poly.ONE;
        if (a.isConst() && a.constant().isEmpty() && plain(b)) return len(b);
        if (b.isConst() && b.constant().isEmpty() && plain(a)) return len(a);
        // strip common constant affixes
        if (!a.parts.isEmpty() && !b.parts.isEmpty()) {
            String pa = a.parts.get(0) instanceof Str.C c ? c.s() : null, pb = b.parts.get(0) instanceof Str.C c ? c.s() : null;
            if (pa != null && pb != null) { int n = Math.min(pa.length(), pb.length()); if (!pa.substring(0, n).equals(pb.substring(0, n))) return Poly.ONE; }
        }
        return order(a, b);
    }
    static boolean numeral(String s) { try { new BigDecimal(s); return true; } catch (NumberFormatException e) { return s.equals("NaN") || s.contains("Infinity"); } }
    static boolean datey(String s) { return s.length() > 7 && Character.isDigit(s.charAt(s.length() - 1)) && s.contains("-"); }
    /** may a text that is neither numeral, date nor boolean word equal this constant */
    static boolean wordy(String s, Str of) { return (!s.isBlank() || !solidAtom((Str.A) of.parts.get(0))) && !numeral(s) && !s.equalsIgnoreCase("true") && !s.equalsIgnoreCase("false") && s.indexOf('\'') < 0 && s.indexOf('"') < 0; }

    List<Out> eqTerm(State s, Poly d) { return cond(s, d, Facts.ZERO, t -> one(t, bool(true)), t -> one(t, bool(false))); }

    List<Out> objectsEqual(State s, V a, V b) {
        if (a == null) a = V.NULL; if (b == null) b = V.NULL;
        if (a instanceof V.I x && b instanceof V.I y) return eqTerm(s, x.p.sub(y.p));
        if (a instanceof V.J x && b instanceof V.J y) return eqTerm(s, x.p.sub(y.p));
        if (a instanceof V.D x && b instanceof V.D y) return eqTerm(s, x.p.sub(y.p));
        if (a instanceof V.Null) return one(s, bool(b instanceof V.Null));
        return in.invoke(s, Opcodes.INVOKEVIRTUAL, "java/lang/Object", "equals", "(Ljava/lang/Object;)Z", new V[]{a, b});
    }

    // ------------------------------------------------------------------------------------------------- antlr boundary

    /** lexer and parser objects: constructors keep their input, parse() yields the parse tree the analysis supplies for the text */
    /** lexers, parsers and token streams hold the position of one parse */
    void sharedUse(State s, V r, String name) {
        if (s.isShared(r)) s.event("SHAREDWRITE", "state of a shared " + in.classOf(s, r).replace('/', '.') + " (" + name + ")", null, new State.Acc(((V.Ref) r).id + ".state", ((V.Ref) r).id, s.held(), false));
    }
    private List<Out> recognizer(State s, String owner, String name, String desc, V[] a) {
        String ret = desc.substring(desc.indexOf(')') + 1);
        if (name.equals("<init>")) { if (a.length > 1) s.put(a[0], "zz.input", a[1]); return one(s, null); }
        if (List.of("setTokenStream", "setInputStream", "setTokenSource").contains(name) && a.length > 1) { s.put(a[0], "zz.input", a[1]); sharedUse(s, a[0], name); return one(s, null); }
        if (name.equals("reset")) { sharedUse(s, a[0], name); return one(s, null); }
        if (ret.endsWith("$ParseContext;") || (ret.endsWith("Context;") && Type.getArgumentTypes(desc).length == 0)) {
            V in0 = a[0];
            for (int i = 0; i < 6 && s.obj(in0) != null; i++) {
                V nx = s.obj(in0).get("zz.input");
                if (nx == null) break;
                in0 = nx;
            }
            V text = in0;
            sharedUse(s, a[0], name);
            if (text instanceof V.Im m && m.str != null) {
                V t = s.stat("tree:" + m.str.key());
                if (t != null) { s.event("PARSE", m.str.key(), null); return one(s, t); }
                s.event("ALTERED", "the parser is given the text " + m.str, null);
                java.util.regex.Matcher base = java.util.regex.Pattern.compile("~expr#\\d+").matcher(m.str.key());
                V t0 = base.find() ? s.stat("tree:" + base.group()) : null;
                if (t0 != null) return one(s, t0);
                return one(s, new V.Top(ret, "parse tree of " + m.str));
            }
            s.event("UNMODELLED", "parser input", null);
            return one(s, new V.Top(ret, "parse tree"));
        }
        switch (ret) {
            case "V": return one(s, null);
            case "I": return one(s, V.I.of(0));
            case "Z": return one(s, V.I.of(0));
            default: return null;
        }
    }
}
