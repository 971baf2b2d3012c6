package sa;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import static org.objectweb.asm.Opcodes.*;

/**
 * Interprocedural abstract interpreter over bytecode with a disjunctive (trace partitioned) state: every control-flow decision the abstract
 * state leaves open is followed both ways under the corresponding fact. No class of the analysed repository is ever loaded or run.
 */
public final class Interp {
    /** one outcome of a call: normal return (exc == null) or exception */
    static final class Out {
        final State s; final V ret, exc;
        Out(State s, V ret, V exc) { this.s = s; this.ret = ret; this.exc = exc; }
        static Out ok(State s, V ret) { return new Out(s, ret, null); }
    }

    static final class Budget extends RuntimeException { Budget(String m) { super(m); } }

    static final class Code {
        AbstractInsnNode[] ins; int[] line; IdentityHashMap<LabelNode, Integer> lab = new IdentityHashMap<>();
        int[] hs, he, hh; String[] ht;
    }

    static final class Fr {
        int pc; V[] loc, stk; int sp; State s; int[] forks; int back;
        Fr copy(State st) { Fr f = new Fr(); f.pc = pc; f.loc = loc.clone(); f.stk = stk.clone(); f.sp = sp; f.s = st; f.forks = forks == null ? null : forks.clone(); f.back = back; return f; }
        void push(V v) { stk[sp++] = v; }
        V pop() { return stk[--sp]; }
        V peek(int k) { return stk[sp - 1 - k]; }
    }

    final World w; final Lib lib;
    long steps, maxSteps = 60_000_000, calls;
    int depth, maxDepth = 600, maxForks = 48, maxBack = 20_000, maxOuts = 20_000;
    final Map<MethodNode, Code> codes = new IdentityHashMap<>();
    /** repository methods analysed, with the number of abstract activations */
    final TreeMap<String, Integer> analysed = new TreeMap<>();
    final Set<String> unmodelled = new TreeSet<>();

    Interp(World w) { this.w = w; this.lib = new Lib(this); }

    Code code(MethodNode m) {
        return codes.computeIfAbsent(m, x -> {
            Code c = new Code();
            c.ins = x.instructions.toArray(); c.line = new int[c.ins.length];
            int ln = 0;
            for (int i = 0; i < c.ins.length; i++) {
                if (c.ins[i] instanceof LabelNode l) c.lab.put(l, i);
                if (c.ins[i] instanceof LineNumberNode l) ln = l.line;
                c.line[i] = ln;
            }
            int n = x.tryCatchBlocks.size();
            c.hs = new int[n]; c.he = new int[n]; c.hh = new int[n]; c.ht = new String[n];
            for (int i = 0; i < n; i++) { TryCatchBlockNode t = x.tryCatchBlocks.get(i); c.hs[i] = c.lab.get(t.start); c.he[i] = c.lab.get(t.end); c.hh[i] = c.lab.get(t.handler); c.ht[i] = t.type; }
            return c;
        });
    }

    static boolean wide(V v) { return v instanceof V.J || (v instanceof V.D d && d.dbl) || (v instanceof V.Top t && (t.type.equals("J") || t.type.equals("D"))); }

    static V defaultValue(String desc) {
        switch (desc.charAt(0)) {
            case 'J': return new V.J(Poly.ZERO);
            case 'D': return new V.D(Poly.ZERO, true);
            case 'F': return new V.D(Poly.ZERO, false);
            case 'L': case '[': return V.NULL;
            default: return V.I.of(0);
        }
    }

    String where(World.C c, int line) { return (c.n.sourceFile == null ? c.n.name : c.n.sourceFile) + ":" + line; }

    // ------------------------------------------------------------------------------------------------- calls

    List<Out> top(State s, String type, String why) {
        if (type.equals("V")) return one(s, null);
        return one(s, new V.Top(type, why));
    }
    static List<Out> one(State s, V v) { return List.of(Out.ok(s, v)); }

    V.Ref exc(State s, String cls, String msg) {
        V.Ref r = s.alloc(cls);
        s.put(r, "java/lang/Throwable.detailMessage", msg == null ? V.NULL : V.Im.str(Str.of(msg)));
        return r;
    }
    List<Out> thrown(State s, String cls, String msg) { return List.of(new Out(s, null, exc(s, cls, msg))); }

    boolean interpretable(String cls) {
        World.C c = w.get(cls);
        if (c == null) return false;
        if (c.repo || c.stub) return true;
        return lib.interpretable(cls);
    }

    /** dynamic class of a value, or null when unknown */
    String classOf(State s, V v) {
        if (v instanceof V.Im i) return i.cls;
        if (v instanceof V.Cls) return "java/lang/Class";
        if (v instanceof V.Ref) { State.HO h = s.get(v); return h instanceof State.Obj o ? o.cls : ((State.Arr) h).desc; }
        return null;
    }

    /** calls a method on abstract arguments; args includes the receiver for instance methods */
    List<Out> invoke(State s, int op, String owner, String name, String desc, V[] args) {
        calls++;
        String ret = desc.substring(desc.indexOf(')') + 1);
        if (op == INVOKESTATIC) {
            World.M m = resolveStatic(owner, name, desc);
            String decl = m == null ? owner : m.c().n.name;
            List<Out> r = lib.call(s, decl, name, desc, args, true);
            if (r == null && !decl.equals(owner)) r = lib.call(s, owner, name, desc, args, true);
            if (r != null) return r;
            World.M red = redirect(decl, name, desc, true);
            if (red != null) return exec(red, args, s);
            if (m != null && interpretable(decl) && (m.m().access & ACC_NATIVE) == 0) return exec(m, args, s);
            return unknown(s, decl, name, desc, args);
        }
        V recv = args[0];
        if (recv instanceof V.Null) return thrown(s, "java/lang/NullPointerException", "null receiver of " + name);
        if (recv instanceof V.Fn fn) {
            if (!(name.equals("equals") || name.equals("hashCode") || name.equals("toString") || name.equals("getClass"))) {
                World.M m = w.resolve(fn.iface, name, desc);
                if (m != null && (m.m().access & ACC_ABSTRACT) == 0) return exec(m, args, s);
                return callFn(s, fn, Arrays.copyOfRange(args, 1, args.length), desc);
            }
        }
        if (recv instanceof V.Top t) return topCall(s, t, owner, name, desc, args);
        String cls = classOf(s, recv);
        if (cls == null) cls = "java/lang/Object";
        String start = op == INVOKESPECIAL ? owner : cls;
        if (start.startsWith("[")) start = "java/lang/Object";
        World.M m = w.resolve(start, name, desc);
        String decl = m == null ? owner : m.c().n.name;
        List<Out> r = lib.call(s, decl, name, desc, args, false);
        if (r == null && !decl.equals(start) && op != INVOKESPECIAL) r = lib.call(s, start, name, desc, args, false);
        if (r == null && !owner.equals(decl) && !owner.equals(start) && (m == null || !interpretable(decl))) r = lib.call(s, owner, name, desc, args, false);
        if (s.isShared(recv) && UNSAFE.contains(cls) && !name.equals("<init>")) { State.Acc a = new State.Acc(((V.Ref) recv).id + ".state", ((V.Ref) recv).id, s.held(), false); String t = "state of a shared " + cls.replace('/', '.') + " (" + name + ")"; if (r == null) s.event("SHAREDWRITE", t, null, a); else for (Out o : r) o.s.event("SHAREDWRITE", t, null, a); }
        if (r != null) return r;
        World.M red = redirect(decl, name, desc, false);
        if (red != null) return exec(red, args, s);
        if (m != null && interpretable(decl) && (m.m().access & (ACC_NATIVE | ACC_ABSTRACT)) == 0) return exec(m, args, s);
        return unknown(s, decl, name, desc, args);
    }

    static final Set<String> UNSAFE = Set.of("java/lang/StringBuilder", "java/text/SimpleDateFormat", "java/text/DecimalFormat", "java/text/NumberFormat", "java/util/GregorianCalendar", "java/util/Scanner", "java/util/regex/Matcher");

    World.M redirect(String decl, String name, String desc, boolean stat) {
        World.C c = w.get("zz/R_" + decl.replace('/', '_'));
        if (c == null) return null;
        String d = stat ? desc : "(L" + decl + ";" + desc.substring(1);
        MethodNode m = c.methods.get(name + d);
        if (m == null) m = c.methods.get((name.equals("of") || name.equals("ofNullable") || name.equals("empty") || name.equals("copyOf") ? name : name) + d);
        return m == null ? null : new World.M(c, m);
    }

    World.M resolveStatic(String owner, String name, String desc) {
        for (String x = owner; x != null; ) {
            World.C c = w.get(x);
            if (c == null) return null;
            MethodNode m = c.methods.get(name + desc);
            if (m != null) return new World.M(c, m);
            x = c.n.superName;
        }
        return null;
    }

    private List<Out> topCall(State s, V.Top t, String owner, String name, String desc, V[] args) {
        s.event("UNMODELLED", "call of " + owner + "." + name + " on an unknown object (" + t.why + ")", null);
        return top(s, desc.substring(desc.indexOf(')') + 1), "call on " + t.why);
    }

    List<Out> unknown(State s, String owner, String name, String desc, V[] args) {
        String id = owner + "." + name + desc;
        unmodelled.add(id);
        s.event("UNMODELLED", id, null);
        String ret = desc.substring(desc.indexOf(')') + 1);
        return top(s, ret, "unmodelled " + owner.substring(owner.lastIndexOf('/') + 1) + "." + name);
    }

    /** applies a functional object */
    List<Out> callFn(State s, V.Fn fn, V[] callArgs, String desc) {
        Handle h = fn.impl;
        List<V> all = new ArrayList<>(fn.captured);
        List<String> srcTypes = new ArrayList<>();
        for (int i = 0; i < fn.captured.size(); i++) srcTypes.add(null);
        Type[] inst = Type.getArgumentTypes(fn.instDesc);
        for (int i = 0; i < callArgs.length; i++) { all.add(callArgs[i]); srcTypes.add(i < inst.length ? inst[i].getDescriptor() : null); }
        List<String> target = new ArrayList<>();
        boolean isNew = h.getTag() == H_NEWINVOKESPECIAL, isStatic = h.getTag() == H_INVOKESTATIC;
        if (!isNew && !isStatic) target.add("L" + h.getOwner() + ";");
        for (Type t : Type.getArgumentTypes(h.getDesc())) target.add(t.getDescriptor());
        V[] a = new V[target.size() + (isNew ? 1 : 0)];
        int off = isNew ? 1 : 0;
        for (int i = 0; i < target.size(); i++) {
            V v = adapt(all.get(i), target.get(i), srcTypes.get(i));
            if (v == null) return thrown(s, "java/lang/NullPointerException", "unboxing null");
            a[i + off] = v;
        }
        List<Out> r;
        String implRet;
        if (isNew) {
            implRet = "L" + h.getOwner() + ";";
            r = instantiate(s, h.getOwner(), h.getDesc(), a);
        } else {
            implRet = h.getDesc().substring(h.getDesc().indexOf(')') + 1);
            int op = isStatic ? INVOKESTATIC : h.getTag() == H_INVOKESPECIAL ? INVOKESPECIAL : h.getTag() == H_INVOKEINTERFACE ? INVOKEINTERFACE : INVOKEVIRTUAL;
            List<Out> pre = isStatic ? init(s, h.getOwner()) : null;
            if (pre == null) r = invoke(s, op, h.getOwner(), h.getName(), h.getDesc(), a);
            else { r = new ArrayList<>(); for (Out o : pre) if (o.exc != null) r.add(o); else r.addAll(invoke(o.s, op, h.getOwner(), h.getName(), h.getDesc(), a)); }
        }
        String want = desc.substring(desc.indexOf(')') + 1);
        if (want.equals("V") || want.equals(implRet)) return want.equals("V") && !implRet.equals("V") ? map(r, (st, v) -> null) : r;
        List<Out> l = new ArrayList<>();
        for (Out o : r) {
            if (o.exc != null) { l.add(o); continue; }
            V v = o.ret == null ? V.NULL : adapt(o.ret, want, implRet);
            if (v == null) l.addAll(thrown(o.s, "java/lang/NullPointerException", "unboxing null"));
            else l.add(Out.ok(o.s, v));
        }
        return l;
    }

    interface Mapper { V apply(State s, V v); }
    static List<Out> map(List<Out> r, Mapper f) {
        List<Out> l = new ArrayList<>(r.size());
        for (Out o : r) l.add(o.exc != null ? o : Out.ok(o.s, f.apply(o.s, o.ret)));
        return l;
    }

    static final Map<String, String> BOX = Map.of("I", "java/lang/Integer", "J", "java/lang/Long", "D", "java/lang/Double", "F", "java/lang/Float", "Z", "java/lang/Boolean", "B", "java/lang/Byte", "S", "java/lang/Short", "C", "java/lang/Character");

    static V box(V v, String prim) {
        if (v instanceof V.I i) return V.Im.num(BOX.getOrDefault(prim, "java/lang/Integer"), i.p);
        if (v instanceof V.J j) return V.Im.num("java/lang/Long", j.p);
        if (v instanceof V.D d) return V.Im.num(d.dbl ? "java/lang/Double" : "java/lang/Float", d.p);
        return v;
    }

    static V unbox(V v, String prim) {
        Poly p;
        if (v instanceof V.Im i && i.num != null) p = i.num;
        else if (v instanceof V.I i) p = i.p; else if (v instanceof V.J j) p = j.p; else if (v instanceof V.D d) p = d.p;
        else if (v instanceof V.Null) return null;
        else return new V.Top(prim, v instanceof V.Top t ? t.why : "unboxing");
        switch (prim) {
            case "J": return new V.J(p);
            case "D": return new V.D(p, true);
            case "F": return new V.D(p, false);
            default: return new V.I(p);
        }
    }

    /** boxing / unboxing adaptation of method handles; null signals unboxing of null */
    static V adapt(V v, String target, String src) {
        char t = target.charAt(0);
        if (t == 'L' || t == '[') return v instanceof V.I || v instanceof V.J || v instanceof V.D ? box(v, src == null || src.length() != 1 ? "I" : src) : v;
        if (t == 'V') return v;
        if (v instanceof V.I || v instanceof V.J || v instanceof V.D || v instanceof V.Im || v instanceof V.Null) return unbox(v, target);
        return v instanceof V.Top x ? new V.Top(target, x.why) : v;
    }

    /** new C(args): a[0] is a slot for the fresh object */
    List<Out> instantiate(State s, String cls, String desc, V[] a) {
        List<Out> r = new ArrayList<>();
        for (Out o : init(s, cls)) {
            if (o.exc != null) { r.add(o); continue; }
            if (lib.immutable(cls)) {
                V[] b = Arrays.copyOfRange(a, 1, a.length);
                List<Out> c = lib.construct(o.s, cls, desc, b);
                r.addAll(c != null ? c : unknown(o.s, cls, "<init>", desc.substring(0, desc.indexOf(')') + 1) + "L" + cls + ";", b));
                continue;
            }
            V.Ref ref = o.s.alloc(cls);
            V[] b = a.clone(); b[0] = ref;
            for (Out p : invoke(o.s, INVOKESPECIAL, cls, "<init>", desc, b)) r.add(p.exc != null ? p : Out.ok(p.s, ref));
        }
        return r;
    }

    /** class initialisation */
    List<Out> init(State s, String cls) {
        World.C c = w.get(cls);
        if (c == null || s.inited.contains(cls)) return one(s, null);
        s.inited.add(cls);
        if (!interpretable(cls) || lib.skipClinit(cls)) return one(s, null);
        List<Out> cur = c.n.superName != null && (c.n.access & ACC_INTERFACE) == 0 ? init(s, c.n.superName) : one(s, null);
        MethodNode cl = c.methods.get("<clinit>()V");
        if (cl == null) return cur;
        List<Out> r = new ArrayList<>();
        for (Out o : cur) { if (o.exc != null) r.add(o); else r.addAll(exec(new World.M(c, cl), new V[0], o.s)); }
        return r;
    }

    // ------------------------------------------------------------------------------------------------- method bodies

    List<Out> exec(World.M m, V[] args, State s0) {
        MethodNode mn = m.m();
        World.C cls = m.c();
        if (mn.instructions.size() == 0) return unknown(s0, cls.n.name, mn.name, mn.desc, args);
        if (depth >= maxDepth) { s0.event("WIDEN", "call depth limit at " + m.id(), null); return top(s0, mn.desc.substring(mn.desc.indexOf(')') + 1), "depth limit"); }
        Code c = code(mn);
        if (cls.repo) analysed.merge(m.id(), 1, Integer::sum);
        Fr f0 = new Fr();
        f0.loc = new V[Math.max(mn.maxLocals, 1) + 2]; f0.stk = new V[mn.maxStack + 3]; f0.s = s0;
        int k = 0;
        for (V a : args) { f0.loc[k] = a; k += wide(a) ? 2 : 1; }
        if (cls.repo && c.line.length > 0) s0.mark(cls.n.name.substring(cls.n.name.lastIndexOf('/') + 1) + "." + mn.name + " (" + where(cls, firstLine(c)) + ")");
        List<Out> outs = new ArrayList<>();
        ArrayDeque<Fr> work = new ArrayDeque<>();
        work.push(f0);
        depth++;
        boolean sy = (mn.access & ACC_SYNCHRONIZED) != 0;
        V mon = !sy ? null : (mn.access & ACC_STATIC) != 0 ? new V.Cls(cls.n.name) : args[0];
        if (sy) s0.lock(mon);
        try {
            while (!work.isEmpty()) { run(work.pop(), c, m, work, outs); if (outs.size() + work.size() > maxOuts) throw new Budget("too many partitions in " + m.id()); }
        } finally { depth--; }
        if (sy) for (Out o : outs) o.s.unlock(mon);
        return outs;
    }

    private static int firstLine(Code c) { for (int l : c.line) if (l > 0) return l; return 0; }

    /** dispatches an exception in a frame; true when handled */
    private boolean dispatch(Fr f, Code c, V exc, List<Out> outs) {
        String cls = exc instanceof V.Top ? "java/lang/Throwable" : classOf(f.s, exc);
        for (int i = 0; i < c.hs.length; i++) {
            if (f.pc < c.hs[i] || f.pc >= c.he[i]) continue;
            if (c.ht[i] == null || w.isSub(cls, c.ht[i])) { f.sp = 0; f.push(exc); f.pc = c.hh[i]; return true; }
        }
        outs.add(new Out(f.s, null, exc));
        return false;
    }

    private boolean fork(Fr f, Code c) {
        if (f.forks == null) f.forks = new int[c.ins.length];
        return ++f.forks[f.pc] <= maxForks;
    }

    private void run(Fr f, Code c, World.M m, ArrayDeque<Fr> work, List<Out> outs) {
        World.C cls = m.c();
        for (;;) {
            AbstractInsnNode in = c.ins[f.pc];
            int op = in.getOpcode();
            if (op < 0) { f.pc++; continue; }
            if (++steps > maxSteps) throw new Budget("step budget exhausted in " + m.id());
            switch (op) {
                case NOP: break;
                case ACONST_NULL: f.push(V.NULL); break;
                case ICONST_M1: case ICONST_0: case ICONST_1: case ICONST_2: case ICONST_3: case ICONST_4: case ICONST_5: f.push(V.I.of(op - ICONST_0)); break;
                case LCONST_0: case LCONST_1: f.push(new V.J(Poly.of(op - LCONST_0))); break;
                case FCONST_0: case FCONST_1: case FCONST_2: f.push(new V.D(Poly.of(op - FCONST_0), false)); break;
                case DCONST_0: case DCONST_1: f.push(new V.D(Poly.of(op - DCONST_0), true)); break;
                case BIPUSH: case SIPUSH: f.push(V.I.of(((IntInsnNode) in).operand)); break;
                case LDC: f.push(ldc(((LdcInsnNode) in).cst)); break;
                case ILOAD: case LLOAD: case FLOAD: case DLOAD: case ALOAD: { V v = f.loc[((VarInsnNode) in).var]; f.push(v == null ? new V.Top("Ljava/lang/Object;", "unset local") : v); break; }
                case ISTORE: case LSTORE: case FSTORE: case DSTORE: case ASTORE: f.loc[((VarInsnNode) in).var] = f.pop(); break;
                case IINC: { IincInsnNode ii = (IincInsnNode) in; V v = f.loc[ii.var];
                    if (v instanceof V.I i) {
                        Poly p = i.p.add(Poly.of(ii.incr));
                        Itv r = f.s.facts.itv(p);
                        f.loc[ii.var] = r.within(Itv.INT) || !p.isConst() ? new V.I(p) : V.I.of((int) (i.p.constant().n.longValue() + ii.incr));
                    } break; }
                case POP: f.sp--; break;
                case POP2: f.sp -= wide(f.peek(0)) ? 1 : 2; break;
                case DUP: f.push(f.peek(0)); break;
                case DUP_X1: { V a = f.pop(), b = f.pop(); f.push(a); f.push(b); f.push(a); break; }
                case DUP_X2: { V a = f.pop(), b = f.pop(); if (wide(b)) { f.push(a); f.push(b); f.push(a); } else { V d = f.pop(); f.push(a); f.push(d); f.push(b); f.push(a); } break; }
                case DUP2: { V a = f.peek(0); if (wide(a)) f.push(a); else { V b = f.peek(1); f.push(b); f.push(a); } break; }
                case DUP2_X1: { V a = f.pop(), b = f.pop(); if (wide(a)) { f.push(a); f.push(b); f.push(a); } else { V d = f.pop(); f.push(b); f.push(a); f.push(d); f.push(b); f.push(a); } break; }
                case DUP2_X2: { V a = f.pop(), b = f.pop();
                    if (wide(a)) { if (wide(b)) { f.push(a); f.push(b); f.push(a); } else { V d = f.pop(); f.push(a); f.push(d); f.push(b); f.push(a); } }
                    else { V d = f.pop(); if (wide(d)) { f.push(b); f.push(a); f.push(d); f.push(b); f.push(a); } else { V e = f.pop(); f.push(b); f.push(a); f.push(e); f.push(d); f.push(b); f.push(a); } } break; }
                case SWAP: { V a = f.pop(), b = f.pop(); f.push(a); f.push(b); break; }
                case GOTO: if (!jump(f, c, ((JumpInsnNode) in).label, m, outs)) return; continue;
                case IRETURN: case LRETURN: case FRETURN: case DRETURN: case ARETURN: outs.add(Out.ok(f.s, f.pop())); return;
                case RETURN: outs.add(Out.ok(f.s, null)); return;
                case ATHROW: { V e = f.pop(); if (e instanceof V.Null) e = exc(f.s, "java/lang/NullPointerException", null); if (!dispatch(f, c, e, outs)) return; continue; }
                case MONITORENTER: f.s.lock(f.pop()); break;
                case MONITOREXIT: f.s.unlock(f.pop()); break;
                case IFEQ: case IFNE: case IFLT: case IFGE: case IFGT: case IFLE: {
                    V v = f.pop();
                    if (!branch(f, c, in, v instanceof V.I i ? i.p : null, signs(op), m, work, outs)) return; continue; }
                case IF_ICMPEQ: case IF_ICMPNE: case IF_ICMPLT: case IF_ICMPGE: case IF_ICMPGT: case IF_ICMPLE: {
                    V b = f.pop(), a = f.pop();
                    if (!branch(f, c, in, a instanceof V.I x && b instanceof V.I y ? x.p.sub(y.p) : null, signs(op - IF_ICMPEQ + IFEQ), m, work, outs)) return; continue; }
                case IFNULL: case IFNONNULL: {
                    V v = f.pop();
                    if (v instanceof V.Top) { if (!either(f, c, in, m, work, outs)) return; continue; }
                    if ((v instanceof V.Null) == (op == IFNULL)) { if (!jump(f, c, ((JumpInsnNode) in).label, m, outs)) return; continue; }
                    break; }
                case IF_ACMPEQ: case IF_ACMPNE: {
                    V b = f.pop(), a = f.pop();
                    List<Map.Entry<Facts, Boolean>> l = sameRef(f.s, a, b);
                    boolean first = true;
                    Fr base = f; Facts keep = f.s.facts;
                    List<Fr> more = new ArrayList<>();
                    if (l.size() > 1 && !fork(f, c)) { widen(f, m, outs); return; }
                    for (int i = l.size() - 1; i >= 0; i--) {
                        Fr g = i == 0 ? base : base.copy(base.s.copy());
                        g.s.facts = l.get(i).getKey();
                        boolean taken = l.get(i).getValue() == (op == IF_ACMPEQ);
                        if (taken) { if (!jump(g, c, ((JumpInsnNode) in).label, m, outs)) { if (i == 0) return; continue; } } else g.pc++;
                        if (i > 0) work.push(g);
                    }
                    continue; }
                case TABLESWITCH: case LOOKUPSWITCH: if (!doSwitch(f, c, in, m, work, outs)) return; continue;
                case NEW: {
                    String t = ((TypeInsnNode) in).desc;
                    int r = ensureInit(f, c, t, work, outs); if (r < 0) return; if (r > 0) continue;
                    f.push(lib.immutable(t) ? new V.Uninit(t) : f.s.alloc(t)); break; }
                case NEWARRAY: case ANEWARRAY: {
                    String el = op == ANEWARRAY ? arrEl(((TypeInsnNode) in).desc) : prim(((IntInsnNode) in).operand);
                    V n = f.pop();
                    if (n instanceof V.I i && i.p.isConst()) {
                        long len = i.p.constant().n.longValue();
                        if (len < 0) { if (!dispatch(f, c, exc(f.s, "java/lang/NegativeArraySizeException", "" + len), outs)) return; continue; }
                        if (len > 100_000) { f.s.event("UNMODELLED", "array of " + len, null); f.push(new V.Top("[" + el, "large array")); break; }
                        V[] e = new V[(int) len]; Arrays.fill(e, defaultValue(el)); f.push(f.s.array("[" + el, e));
                    } else { f.s.event("UNMODELLED", "array of symbolic length " + n, where(cls, c.line[f.pc])); f.push(new V.Top("[" + el, "array of symbolic length")); }
                    break; }
                case MULTIANEWARRAY: { MultiANewArrayInsnNode mi = (MultiANewArrayInsnNode) in; for (int i = 0; i < mi.dims; i++) f.pop(); f.s.event("UNMODELLED", "multi-dimensional array", null); f.push(new V.Top(mi.desc, "multi array")); break; }
                case ARRAYLENGTH: { V a = f.pop();
                    if (a instanceof V.Null) { if (!dispatch(f, c, exc(f.s, "java/lang/NullPointerException", null), outs)) return; continue; }
                    State.Arr x = f.s.arr(a); f.push(x == null ? new V.Top("I", "array length") : V.I.of(x.e.length)); break; }
                case IALOAD: case LALOAD: case FALOAD: case DALOAD: case AALOAD: case BALOAD: case CALOAD: case SALOAD: {
                    V i = f.pop(), a = f.pop();
                    Boolean r = arrayAccess(f, c, a, i, null, work, outs, m);
                    if (r == null) return; if (!r) continue; break; }
                case IASTORE: case LASTORE: case FASTORE: case DASTORE: case AASTORE: case BASTORE: case CASTORE: case SASTORE: {
                    V v = f.pop(), i = f.pop(), a = f.pop();
                    Boolean r = arrayAccess(f, c, a, i, v, work, outs, m);
                    if (r == null) return; if (!r) continue; break; }
                case GETSTATIC: case PUTSTATIC: {
                    FieldInsnNode fi = (FieldInsnNode) in;
                    World.C oc = w.fieldOwner(fi.owner, fi.name);
                    String on = oc == null ? fi.owner : oc.n.name;
                    int r = ensureInit(f, c, on, work, outs); if (r < 0) return; if (r > 0) continue;
                    String key = on + "." + fi.name;
                    if (op == GETSTATIC && watch != null && watch.contains("static " + key)) f.s.event("SHAREDREAD", key, where(cls, c.line[f.pc]), new State.Acc("static " + key, -1, f.s.held(), false));
                    if (op == GETSTATIC) f.push(lib.getStatic(f.s, oc, on, fi.name, fi.desc));
                    else { V v = f.pop(), was = f.s.stat(key); f.s.setStat(key, v); if (!m.m().name.equals("<clinit>") && (oc == null || oc.repo || cls.repo)) { World.C fo = oc == null ? null : oc; FieldNode fn = fo == null ? null : fo.fields.get(fi.name); f.s.event("STATICWRITE", key, where(cls, c.line[f.pc]), f.s.write("static " + key, -1, fn != null && (fn.access & ACC_VOLATILE) != 0, was, v)); } }
                    break; }
                case GETFIELD: {
                    FieldInsnNode fi = (FieldInsnNode) in; V o = f.pop();
                    if (o instanceof V.Null) { if (!dispatch(f, c, exc(f.s, "java/lang/NullPointerException", "field " + fi.name + " of null"), outs)) return; continue; }
                    State.Obj x = f.s.obj(o);
                    if (x == null) { f.s.event("UNMODELLED", "field " + fi.owner + "." + fi.name + " of " + o, where(cls, c.line[f.pc])); f.push(new V.Top(fi.desc, "field of unknown object")); break; }
                    if (watch != null && f.s.isShared(o) && !sync(cls) && watch.contains(((V.Ref) o).id + "." + fi.name)) f.s.event("SHAREDREAD", fi.owner + "." + fi.name, where(cls, c.line[f.pc]), acc(f.s, o, fi.owner, fi.name));
                    V v = x.get(fkey(fi)); f.push(v == null ? defaultValue(fi.desc) : v); break; }
                case PUTFIELD: {
                    FieldInsnNode fi = (FieldInsnNode) in; V v = f.pop(), o = f.pop();
                    if (o instanceof V.Null) { if (!dispatch(f, c, exc(f.s, "java/lang/NullPointerException", "field " + fi.name + " of null"), outs)) return; continue; }
                    if (f.s.obj(o) == null) { f.s.event("UNMODELLED", "store to field " + fi.owner + "." + fi.name + " of " + o, where(cls, c.line[f.pc])); break; }
                    if (f.s.isShared(o)) { State.Acc ac = acc(f.s, o, fi.owner, fi.name); V was = f.s.obj(o).get(fkey(fi)); f.s.event(sync(cls) ? "SYNCWRITE" : "SHAREDWRITE", fi.owner + "." + fi.name, where(cls, c.line[f.pc]), f.s.write(ac.loc(), ac.id(), ac.vol(), was == null ? defaultValue(fi.desc) : was, v)); }
                    f.s.put(o, fkey(fi), v); break; }
                case INSTANCEOF: {
                    V v = f.pop(); String t = ((TypeInsnNode) in).desc;
                    if (v instanceof V.Top) {
                        if (!fork(f, c)) { widen(f, m, outs); return; }
                        Fr g = f.copy(f.s.copy()); g.push(V.I.of(0)); g.pc++; work.push(g); f.push(V.I.of(1)); break; }
                    f.push(V.I.of(isInstance(f.s, v, t) ? 1 : 0)); break; }
                case CHECKCAST: {
                    V v = f.peek(0); String t = ((TypeInsnNode) in).desc;
                    if (v instanceof V.Null || v instanceof V.Fn) break;
                    if (v instanceof V.Top x) { f.pop(); f.push(new V.Top(t.startsWith("[") ? t : "L" + t + ";", x.why)); break; }
                    if (!isInstance(f.s, v, t)) { if (!dispatch(f, c, exc(f.s, "java/lang/ClassCastException", classOf(f.s, v) + " cannot be cast to " + t), outs)) return; continue; }
                    break; }
                case INVOKEVIRTUAL: case INVOKESPECIAL: case INVOKESTATIC: case INVOKEINTERFACE: {
                    MethodInsnNode mi = (MethodInsnNode) in;
                    if (op == INVOKESTATIC) { World.M rm = resolveStatic(mi.owner, mi.name, mi.desc); int r = ensureInit(f, c, rm == null ? mi.owner : rm.c().n.name, work, outs); if (r < 0) return; if (r > 0) continue; }
                    int n = nargs(mi.desc);
                    V[] a = new V[n + (op == INVOKESTATIC ? 0 : 1)];
                    for (int i = a.length - 1; i >= 0; i--) a[i] = f.pop();
                    List<Out> r;
                    V.Uninit un = op == INVOKESPECIAL && a[0] instanceof V.Uninit u ? u : null;
                    if (un != null) {
                        V[] b = Arrays.copyOfRange(a, 1, a.length);
                        r = lib.construct(f.s, un.cls, mi.desc, b);
                        if (r == null) r = unknown(f.s, un.cls, "<init>", mi.desc.substring(0, mi.desc.indexOf(')') + 1) + "L" + un.cls + ";", b);
                    } else r = invoke(f.s, op, mi.owner, mi.name, mi.desc, a);
                    if (!resume(f, c, r, un, mi.desc.endsWith(")V") && un == null, m, work, outs)) return;
                    continue; }
                case INVOKEDYNAMIC: {
                    InvokeDynamicInsnNode id = (InvokeDynamicInsnNode) in;
                    int n = nargs(id.desc);
                    V[] a = new V[n];
                    for (int i = n - 1; i >= 0; i--) a[i] = f.pop();
                    if (!resume(f, c, indy(f.s, id, a, cls), null, false, m, work, outs)) return;
                    continue; }
                default: {
                    List<Out> r = arith(f, op);
                    if (r == null) throw new IllegalStateException("opcode " + op + " in " + m.id());
                    if (!resume(f, c, r, null, false, m, work, outs)) return;
                    continue; }
            }
            f.pc++;
        }
    }

    /** stubs of library classes that synchronise internally */
    /** locations whose reads are to be logged, or null */
    Set<String> watch;

    private State.Acc acc(State s, V o, String owner, String field) {
        World.C oc = w.fieldOwner(owner, field); FieldNode fn = oc == null ? null : oc.fields.get(field);
        return new State.Acc(((V.Ref) o).id + "." + field, ((V.Ref) o).id, s.held(), fn != null && (fn.access & ACC_VOLATILE) != 0);
    }

    static boolean sync(World.C c) { return c.stub && (c.n.name.equals("java/lang/ThreadLocal") || c.n.name.startsWith("java/util/concurrent/") || c.n.name.startsWith("com/github/benmanes/")); }

    static int nargs(String desc) { return Type.getArgumentTypes(desc).length; }

    private final Map<String, String> fkeys = new HashMap<>();
    String fkey(FieldInsnNode fi) { return fld(fi.owner, fi.name); }
    String fld(String owner, String name) { return fkeys.computeIfAbsent(owner + "." + name, k -> { World.C oc = w.fieldOwner(owner, name); return (oc == null ? owner : oc.n.name) + "." + name; }); }

    private static String arrEl(String d) { return d.startsWith("[") ? d : "L" + d + ";"; }
    private static String prim(int t) { switch (t) { case T_BOOLEAN: return "Z"; case T_CHAR: return "C"; case T_FLOAT: return "F"; case T_DOUBLE: return "D"; case T_BYTE: return "B"; case T_SHORT: return "S"; case T_INT: return "I"; default: return "J"; } }

    boolean isInstance(State s, V v, String t) {
        if (v instanceof V.Null) return false;
        if (v instanceof V.Fn fn) return w.isSub(fn.iface, t);
        String c = classOf(s, v);
        return c != null && w.isSub(c, t);
    }

    static V ldc(Object c) {
        if (c instanceof String x) return V.Im.lit(x);
        if (c instanceof Integer x) return V.I.of(x);
        if (c instanceof Long x) return new V.J(Poly.of(x));
        if (c instanceof Float x) return dbl(x.toString(), false);
        if (c instanceof Double x) return dbl(x.toString(), true);
        if (c instanceof Type t) return t.getSort() == Type.OBJECT ? new V.Cls(t.getInternalName()) : t.getSort() == Type.ARRAY ? new V.Cls(t.getDescriptor()) : new V.Top("Ljava/lang/Object;", "method type");
        return new V.Top("Ljava/lang/Object;", "constant " + c);
    }

    static V dbl(String s, boolean d) {
        try { return new V.D(Poly.of(Rat.of(new java.math.BigDecimal(s))), d); } catch (NumberFormatException e) { return new V.Top(d ? "D" : "F", s); }
    }

    static int signs(int op) {
        switch (op) {
            case IFEQ: return Facts.ZERO;
            case IFNE: return Facts.NEG | Facts.POS;
            case IFLT: return Facts.NEG;
            case IFGE: return Facts.POS | Facts.ZERO;
            case IFGT: return Facts.POS;
            default: return Facts.NEG | Facts.ZERO;
        }
    }

    private void widen(Fr f, World.M m, List<Out> outs) {
        Code c = code(m.m());
        f.s.event("WIDEN", m.id(), where(m.c(), c.line[f.pc]));
        outs.addAll(top(f.s, m.m().desc.substring(m.m().desc.indexOf(')') + 1), "loop bound in " + m.id()));
    }

    private boolean jump(Fr f, Code c, LabelNode l, World.M m, List<Out> outs) {
        int t = c.lab.get(l);
        if (t <= f.pc && ++f.back > maxBack) { widen(f, m, outs); return false; }
        f.pc = t;
        return true;
    }

    private boolean either(Fr f, Code c, AbstractInsnNode in, World.M m, ArrayDeque<Fr> work, List<Out> outs) {
        if (!fork(f, c)) { widen(f, m, outs); return false; }
        Fr g = f.copy(f.s.copy());
        if (jump(g, c, ((JumpInsnNode) in).label, m, outs)) work.push(g);
        f.pc++;
        return true;
    }

    private boolean branch(Fr f, Code c, AbstractInsnNode in, Poly p, int taken, World.M m, ArrayDeque<Fr> work, List<Out> outs) {
        LabelNode l = ((JumpInsnNode) in).label;
        if (p == null) return either(f, c, in, m, work, outs);
        int s = f.s.facts.sign(p);
        boolean t = (s & taken) != 0, e = (s & ~taken & 7) != 0;
        if (t && e) {
            Facts ft = f.s.facts.assume(p, taken), fe = f.s.facts.assume(p, 7 & ~taken);
            if (ft != null && fe != null) {
                if (!fork(f, c)) { widen(f, m, outs); return false; }
                Fr g = f.copy(f.s.copy()); g.s.facts = ft;
                if (m.c().repo) { String w = where(m.c(), c.line[f.pc]); g.s.mark(w + " with " + p + " " + sg(taken)); f.s.mark(w + " with " + p + " " + sg(7 & ~taken)); }
                if (jump(g, c, l, m, outs)) work.push(g);
                f.s.facts = fe; f.pc++;
                return true;
            }
            t = ft != null;
        }
        if (t) return jump(f, c, l, m, outs);
        f.pc++;
        return true;
    }
    static String sg(int s) { switch (s) { case 1: return "< 0"; case 2: return "= 0"; case 4: return "> 0"; case 3: return "<= 0"; case 6: return ">= 0"; case 5: return "!= 0"; default: return "any"; } }

    private boolean doSwitch(Fr f, Code c, AbstractInsnNode in, World.M m, ArrayDeque<Fr> work, List<Out> outs) {
        V v = f.pop();
        List<Integer> keys = new ArrayList<>(); List<LabelNode> labels; LabelNode dflt;
        if (in instanceof TableSwitchInsnNode t) { for (int i = t.min; i <= t.max; i++) keys.add(i); labels = t.labels; dflt = t.dflt; }
        else { LookupSwitchInsnNode t = (LookupSwitchInsnNode) in; keys = t.keys; labels = t.labels; dflt = t.dflt; }
        if (v instanceof V.I i && i.p.isConst()) {
            int k = keys.indexOf((int) i.p.constant().n.longValue());
            return jump(f, c, k < 0 ? dflt : labels.get(k), m, outs);
        }
        if (!fork(f, c)) { widen(f, m, outs); return false; }
        Facts rest = f.s.facts;
        for (int k = 0; k < keys.size(); k++) {
            Facts g = rest;
            if (v instanceof V.I i) { Poly d = i.p.sub(Poly.of(keys.get(k))); g = rest == null ? null : rest.assume(d, Facts.ZERO); if (rest != null) rest = rest.assume(d, Facts.NEG | Facts.POS); }
            if (g == null) continue;
            Fr x = f.copy(f.s.copy()); x.s.facts = g;
            if (jump(x, c, labels.get(k), m, outs)) work.push(x);
        }
        if (rest == null) return false;
        f.s.facts = rest;
        return jump(f, c, dflt, m, outs);
    }

    /** -1: all paths ended; 0: initialised, go on; 1: frame state replaced, retry the instruction */
    private int ensureInit(Fr f, Code c, String cls, ArrayDeque<Fr> work, List<Out> outs) {
        if (f.s.inited.contains(cls)) return 0;
        List<Out> r = init(f.s, cls);
        if (r.size() == 1 && r.get(0).exc == null && r.get(0).s == f.s) return 0;
        for (Out o : r) {
            Fr g = f.copy(o.s);
            if (o.exc != null) { if (!dispatch(g, c, o.exc, outs)) continue; }
            work.push(g);
        }
        return -1;
    }

    /** continues a frame with the outcomes of a call at the current instruction */
    private boolean resume(Fr f, Code c, List<Out> r, V.Uninit un, boolean isVoid, World.M m, ArrayDeque<Fr> work, List<Out> outs) {
        if (r.isEmpty()) return false;
        if (r.size() > 1 && !fork(f, c)) { for (Out o : r) { Fr g = f.copy(o.s); widen(g, m, outs); } return false; }
        for (int i = r.size() - 1; i >= 0; i--) {
            Out o = r.get(i);
            Fr g = i == 0 ? f : f.copy(o.s);
            g.s = o.s;
            if (o.exc != null) { if (!dispatch(g, c, o.exc, outs)) { if (i == 0) return false; continue; } }
            else {
                if (un != null) { for (int k = 0; k < g.sp; k++) if (g.stk[k] == un) g.stk[k] = o.ret; for (int k = 0; k < g.loc.length; k++) if (g.loc[k] == un) g.loc[k] = o.ret; }
                else if (!isVoid) g.push(o.ret == null ? V.NULL : o.ret);
                g.pc++;
            }
            if (i > 0) work.push(g);
        }
        return true;
    }

    /** null: ended; true: done, advance; false: control moved */
    private Boolean arrayAccess(Fr f, Code c, V a, V i, V store, ArrayDeque<Fr> work, List<Out> outs, World.M m) {
        if (a instanceof V.Null) return dispatch(f, c, exc(f.s, "java/lang/NullPointerException", null), outs) ? false : null;
        State.Arr x = f.s.arr(a);
        if (x == null || !(i instanceof V.I ii)) {
            f.s.event("UNMODELLED", "array access " + a + "[" + i + "]", where(m.c(), c.line[f.pc]));
            if (store == null) f.push(a instanceof V.Top t && t.type.startsWith("[") ? new V.Top(t.type.substring(1), "array element") : new V.Top(x != null ? x.desc.substring(1) : "Ljava/lang/Object;", "array element"));
            return true;
        }
        if (ii.p.isConst()) {
            long k = ii.p.constant().n.longValue();
            if (k < 0 || k >= x.e.length) return dispatch(f, c, exc(f.s, "java/lang/ArrayIndexOutOfBoundsException", "Index " + k + " out of bounds for length " + x.e.length), outs) ? false : null;
            if (store == null) f.push(x.e[(int) k]);
            else {
                if (f.s.isShared(a)) f.s.event(sync(m.c()) ? "SYNCWRITE" : "SHAREDWRITE", "array " + x.desc, where(m.c(), c.line[f.pc]), f.s.write(((V.Ref) a).id + ".[]", ((V.Ref) a).id, false, x.e[(int) k], store));
                V[] e = x.e.clone(); e[(int) k] = store; f.s.set(a, new State.Arr(x.desc, e));
            }
            return true;
        }
        // symbolic index: one partition per element
        if (!fork(f, c)) { widen(f, m, outs); return null; }
        if (x.e.length > 64) { f.s.event("UNMODELLED", "symbolic index into a long array", where(m.c(), c.line[f.pc])); if (store == null) f.push(new V.Top(x.desc.substring(1), "array element")); return true; }
        for (int k = 0; k < x.e.length; k++) {
            Facts g = f.s.facts.assume(ii.p.sub(Poly.of(k)), Facts.ZERO);
            if (g == null) continue;
            Fr y = f.copy(f.s.copy()); y.s.facts = g;
            if (store == null) y.push(x.e[k]); else { V[] e = x.e.clone(); e[k] = store; y.s.set(a, new State.Arr(x.desc, e)); }
            y.pc++;
            work.push(y);
        }
        Facts lo = f.s.facts.assume(ii.p, Facts.NEG), hi = f.s.facts.assume(ii.p.sub(Poly.of(x.e.length)), Facts.POS | Facts.ZERO);
        for (Facts g : new Facts[]{lo, hi}) if (g != null) { Fr y = f.copy(f.s.copy()); y.s.facts = g; if (dispatch(y, c, exc(y.s, "java/lang/ArrayIndexOutOfBoundsException", null), outs)) work.push(y); }
        return null;
    }

    /** reference equality under the facts */
    List<Map.Entry<Facts, Boolean>> sameRef(State s, V a, V b) {
        Facts f = s.facts;
        if (a instanceof V.Top || b instanceof V.Top) return List.of(Map.entry(f, true), Map.entry(f, false));
        if (a instanceof V.Null || b instanceof V.Null) return List.of(Map.entry(f, a instanceof V.Null && b instanceof V.Null));
        if (a instanceof V.Ref || b instanceof V.Ref) return List.of(Map.entry(f, a.equals(b)));
        if (a instanceof V.Im x && b instanceof V.Im y) {
            if (!x.cls.equals(y.cls)) return List.of(Map.entry(f, false));
            if (x == y || x.sameObject(y)) return List.of(Map.entry(f, true));
            if (x.num != null && y.num != null) {
                Poly d = x.num.sub(y.num);
                int sg = f.sign(d);
                if (x.cls.equals("java/lang/Boolean")) { List<Map.Entry<Facts, Boolean>> l = new ArrayList<>(); Facts e = f.assume(d, Facts.ZERO), n = f.assume(d, 5); if (e != null) l.add(Map.entry(e, true)); if (n != null) l.add(Map.entry(n, false)); return l; }
                if ((sg & Facts.ZERO) == 0) return List.of(Map.entry(f, false));
                List<Map.Entry<Facts, Boolean>> l = new ArrayList<>();
                l.add(Map.entry(f, false));
                Facts e = f.assume(d, Facts.ZERO);
                if (e != null && !x.cls.startsWith("java/math/") && !x.cls.equals("java/lang/Double")) l.add(Map.entry(e, true));
                return l;
            }
            if (x.str != null && y.str != null && x.str.isConst() && y.str.isConst() && !x.str.equals(y.str)) return List.of(Map.entry(f, false));
            if (x.konst != null && y.konst != null) return List.of(Map.entry(f, x.konst == y.konst));
            return List.of(Map.entry(f, false));
        }
        return List.of(Map.entry(f, a == b || a.equals(b)));
    }

    // ------------------------------------------------------------------------------------------------- arithmetic

    Poly wrapAtom(String op, Poly p, Itv r) { return Poly.var(op + "(" + p.key() + ")", r, true); }

    /** the outcomes of reducing an exact integer term to a machine range */
    List<Out> reduce(State s, Poly p, boolean lng, boolean shift) {
        Itv R = lng ? Itv.LONG : Itv.INT;
        java.util.function.Function<Poly, V> mk = lng ? q -> new V.J(q) : q -> new V.I(q);
        if (p.isConst()) { java.math.BigInteger b = p.constant().n; return one(s, mk.apply(Poly.of(lng ? b.longValue() : b.intValue()))); }
        Itv v = s.facts.itv(p);
        if (v.within(R)) return one(s, mk.apply(p));
        List<Out> r = new ArrayList<>();
        Facts in = s.facts.within(p, R);
        Rat mod = Rat.of(java.math.BigInteger.TWO.pow(lng ? 64 : 32));
        Facts hi = s.facts.within(p, Itv.above(R.hi(), true)), lo = s.facts.within(p, Itv.below(R.lo(), true));
        int n = (in != null ? 1 : 0) + (hi != null ? 1 : 0) + (lo != null ? 1 : 0);
        if (in != null) { State t = n > 1 ? s.copy() : s; t.facts = in; r.add(Out.ok(t, mk.apply(p))); }
        if (hi != null) { State t = s.copy(); t.facts = hi; t.mark("overflow of " + p); Poly q = shift ? p.sub(Poly.of(mod)) : wrapAtom(lng ? "wrap64" : "wrap32", p, R); t.facts = hi.assume(p.sub(q), Facts.POS); if (t.facts != null) r.add(Out.ok(t, mk.apply(q))); }
        if (lo != null) { State t = s.copy(); t.facts = lo; t.mark("overflow of " + p); Poly q = shift ? p.add(Poly.of(mod)) : wrapAtom(lng ? "wrap64" : "wrap32", p, R); t.facts = lo.assume(p.sub(q), Facts.NEG); if (t.facts != null) r.add(Out.ok(t, mk.apply(q))); }
        return r;
    }

    List<Out> tri(State s, Poly d) { return tri(s, d, -1, 0, 1); }
    List<Out> tri(State s, Poly d, int lt, int eq, int gt) {
        int sg = s.facts.sign(d);
        List<Out> r = new ArrayList<>();
        int[] bits = {Facts.NEG, Facts.ZERO, Facts.POS}, vals = {lt, eq, gt};
        for (int i = 0; i < 3; i++) if ((sg & bits[i]) != 0) { Facts g = s.facts.assume(d, bits[i]); if (g != null) { State t = sg == bits[i] ? s : s.copy(); t.facts = g; r.add(Out.ok(t, V.I.of(vals[i]))); } }
        return r;
    }

    private List<Out> arith(Fr f, int op) {
        State s = f.s;
        switch (op) {
            case INEG: case LNEG: { V v = f.pop(); if (v instanceof V.I i) return reduce(s, i.p.neg(), false, true); if (v instanceof V.J j) return reduce(s, j.p.neg(), true, true); return one(s, v); }
            case FNEG: case DNEG: { V v = f.pop(); return one(s, v instanceof V.D d ? new V.D(d.p.neg(), d.dbl) : v); }
            case I2L: { V v = f.pop(); return one(s, v instanceof V.I i ? new V.J(i.p) : new V.Top("J", "i2l")); }
            case I2F: case I2D: { V v = f.pop(); return one(s, v instanceof V.I i ? new V.D(i.p, op == I2D) : new V.Top(op == I2D ? "D" : "F", "i2d")); }
            case L2I: { V v = f.pop(); return v instanceof V.J j ? reduce(s, j.p, false, false) : one(s, new V.Top("I", "l2i")); }
            case L2F: case L2D: { V v = f.pop(); return v instanceof V.J j ? lib.longToDouble(s, j.p, op == L2D) : one(s, new V.Top(op == L2D ? "D" : "F", "l2d")); }
            case F2D: { V v = f.pop(); return one(s, v instanceof V.D d ? lib.floatToDouble(d) : new V.Top("D", "f2d")); }
            case D2F: { V v = f.pop(); return one(s, v instanceof V.D d && d.p.isConst() ? lib.d2f(d) : new V.Top("F", "d2f")); }
            case F2I: case D2I: { V v = f.pop(); return v instanceof V.D d ? lib.doubleToInt(s, d.p, false) : one(s, new V.Top("I", "d2i")); }
            case F2L: case D2L: { V v = f.pop(); return v instanceof V.D d ? lib.doubleToInt(s, d.p, true) : one(s, new V.Top("J", "d2l")); }
            case I2B: case I2S: case I2C: { V v = f.pop(); if (!(v instanceof V.I i)) return one(s, new V.Top("I", "narrow"));
                Itv r = op == I2B ? Itv.of(-128, 127) : op == I2S ? Itv.of(-32768, 32767) : Itv.of(0, 65535);
                if (i.p.isConst()) { int k = i.p.constant().n.intValue(); return one(s, V.I.of(op == I2B ? (byte) k : op == I2S ? (short) k : (char) k)); }
                if (s.facts.itv(i.p).within(r)) return one(s, i);
                return one(s, new V.I(wrapAtom("narrow" + op, i.p, r))); }
            case LCMP: { V b = f.pop(), a = f.pop(); return a instanceof V.J x && b instanceof V.J y ? tri(s, x.p.sub(y.p)) : one(s, new V.Top("I", "lcmp")); }
            case FCMPL: case FCMPG: case DCMPL: case DCMPG: { V b = f.pop(), a = f.pop(); return a instanceof V.D x && b instanceof V.D y ? tri(s, x.p.sub(y.p)) : one(s, new V.Top("I", "dcmp")); }
            default:
        }
        if (op >= IADD && op <= LXOR) {
            V b = f.pop(), a = f.pop();
            return binary(s, op, a, b);
        }
        return null;
    }

    List<Out> binary(State s, int op, V a, V b) {
        boolean shiftOp = op >= ISHL && op <= LUSHR;
        int kind = op >= ISHL && op <= LXOR ? (op - ISHL) % 2 : (op - IADD) % 4; // 0 int 1 long 2 float 3 double
        String type = kind == 0 ? "I" : kind == 1 ? "J" : kind == 2 ? "F" : "D";
        if (kind >= 2) {
            if (!(a instanceof V.D x) || !(b instanceof V.D y)) return one(s, new V.Top(type, "arithmetic on unknown"));
            return lib.dblArith(s, op, x, y, kind == 3);
        }
        Poly p = a instanceof V.I i ? i.p : a instanceof V.J j ? j.p : null, q = b instanceof V.I i ? i.p : b instanceof V.J j ? j.p : null;
        if (p == null || q == null) return one(s, new V.Top(type, "arithmetic on unknown"));
        boolean L = kind == 1;
        switch (op) {
            case IADD: case LADD: return reduce(s, p.add(q), L, true);
            case ISUB: case LSUB: return reduce(s, p.sub(q), L, true);
            case IMUL: case LMUL: return reduce(s, p.mul(q), L, false);
            case IDIV: case LDIV: case IREM: case LREM: {
                boolean div = op == IDIV || op == LDIV;
                List<Out> r = new ArrayList<>();
                Facts z = s.facts.assume(q, Facts.ZERO), n = s.facts.assume(q, 5);
                if (z != null) { State t = n == null ? s : s.copy(); t.facts = z; r.addAll(thrown(t, "java/lang/ArithmeticException", "/ by zero")); }
                if (n != null) {
                    State t = z == null ? s : s.copy(); t.facts = n;
                    for (Out o : div ? lib.quotient(t, p, q) : lib.remainder(t, p, q)) {
                        if (div) r.addAll(reduce(o.s, ((V.J) o.ret).p, L, true)); else r.add(Out.ok(o.s, L ? o.ret : new V.I(((V.J) o.ret).p)));
                    }
                }
                return r; }
            default: {
                if (p.isConst() && q.isConst()) {
                    long x = p.constant().n.longValue(), y = q.constant().n.longValue(); long r;
                    switch (op) {
                        case ISHL: r = (int) x << y; break; case LSHL: r = x << y; break;
                        case ISHR: r = (int) x >> y; break; case LSHR: r = x >> y; break;
                        case IUSHR: r = (int) x >>> y; break; case LUSHR: r = x >>> y; break;
                        case IAND: case LAND: r = x & y; break;
                        case IOR: case LOR: r = x | y; break;
                        default: r = x ^ y;
                    }
                    return one(s, L ? new V.J(Poly.of(r)) : V.I.of((int) r));
                }
                if (!shiftOp && s.facts.itv(p).within(Itv.BOOL) && s.facts.itv(q).within(Itv.BOOL)) {
                    List<Out> r = new ArrayList<>();
                    for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
                        Facts g = s.facts.assume(p.sub(Poly.of(x)), Facts.ZERO); if (g != null) g = g.assume(q.sub(Poly.of(y)), Facts.ZERO);
                        if (g == null) continue;
                        State t = s.copy(); t.facts = g;
                        int v = op == IAND || op == LAND ? x & y : op == IOR || op == LOR ? x | y : x ^ y;
                        r.add(Out.ok(t, L ? new V.J(Poly.of(v)) : V.I.of(v)));
                    }
                    return r;
                }
                if ((op == ISHL || op == LSHL) && q.isConst()) { long k = q.constant().n.longValue() & (L ? 63 : 31); return reduce(s, p.scale(Rat.of(java.math.BigInteger.TWO.pow((int) k))), L, false); }
                if ((op == ISHR || op == LSHR) && q.isConst()) return one(s, mk(L, Poly.var("shr(" + p.key() + "," + q.key() + ")", L ? Itv.LONG : Itv.INT, true)));
                return one(s, mk(L, Poly.var("op" + op + "(" + p.key() + "," + q.key() + ")", L ? Itv.LONG : Itv.INT, true))); }
        }
    }
    static V mk(boolean L, Poly p) { return L ? new V.J(p) : new V.I(p); }

    // ------------------------------------------------------------------------------------------------- invokedynamic

    private List<Out> indy(State s, InvokeDynamicInsnNode id, V[] a, World.C cls) {
        String bo = id.bsm.getOwner();
        switch (bo) {
            case "java/lang/invoke/LambdaMetafactory":
                return one(s, new V.Fn(Type.getReturnType(id.desc).getInternalName(), id.name, ((Type) id.bsmArgs[0]).getDescriptor(), (Handle) id.bsmArgs[1], List.of(a), ((Type) id.bsmArgs[2]).getDescriptor()));
            case "java/lang/invoke/StringConcatFactory": {
                Type[] ts = Type.getArgumentTypes(id.desc);
                String recipe = id.name.equals("makeConcat") ? "\u0001".repeat(ts.length) : (String) id.bsmArgs[0];
                List<Object> parts = new ArrayList<>(); int ai = 0, ci = 1; StringBuilder sb = new StringBuilder();
                for (char ch : recipe.toCharArray()) {
                    if (ch == 1) { if (sb.length() > 0) { parts.add(sb.toString()); sb.setLength(0); } parts.add(new Object[]{a[ai], ts[ai].getDescriptor()}); ai++; }
                    else if (ch == 2) sb.append(id.bsmArgs[ci++]); else sb.append(ch);
                }
                if (sb.length() > 0) parts.add(sb.toString());
                List<Out> cur = one(s, V.Im.str(Str.of("")));
                for (Object p : parts) {
                    List<Out> nx = new ArrayList<>();
                    for (Out o : cur) {
                        if (o.exc != null) { nx.add(o); continue; }
                        Str pre = ((V.Im) o.ret).str;
                        if (p instanceof String x) nx.add(Out.ok(o.s, V.Im.str(pre.cat(Str.of(x)))));
                        else for (Out q : lib.stringify(o.s, (V) ((Object[]) p)[0], (String) ((Object[]) p)[1])) nx.add(q.exc != null ? q : Out.ok(q.s, V.Im.str(pre.cat(((V.Im) q.ret).str))));
                    }
                    cur = nx;
                }
                return cur; }
            case "java/lang/runtime/SwitchBootstraps": {
                V v = a[0]; int from = a[1] instanceof V.I i && i.p.isConst() ? (int) i.p.constant().n.longValue() : 0;
                if (v instanceof V.Null) return one(s, V.I.of(-1));
                if (v instanceof V.Top) break;
                for (int i = from; i < id.bsmArgs.length; i++) {
                    Object l = id.bsmArgs[i];
                    if (l instanceof Type t) { String n = t.getSort() == Type.ARRAY ? t.getDescriptor() : t.getInternalName(); if (isInstance(s, v, n)) return one(s, V.I.of(i)); }
                    else if (l instanceof String x) {
                        State.Obj o = s.obj(v);
                        if (o != null) { V nm = o.get("java/lang/Enum.name"); if (nm instanceof V.Im m && m.str.isConst() && m.str.constant().equals(x)) return one(s, V.I.of(i)); }
                        else if (v instanceof V.Im m && m.str != null && m.str.isConst()) { if (m.str.constant().equals(x)) return one(s, V.I.of(i)); }
                        else { s.event("UNMODELLED", "string switch on a symbolic string", null); return one(s, new V.Top("I", "switch")); }
                    } else if (l instanceof Integer x) {
                        if (v instanceof V.Im m && m.num != null && m.num.isConst()) { if (m.num.equals(Poly.of(x))) return one(s, V.I.of(i)); }
                        else { s.event("UNMODELLED", "switch on a symbolic number", null); return one(s, new V.Top("I", "switch")); }
                    } else { s.event("UNMODELLED", "switch label " + l, null); return one(s, new V.Top("I", "switch")); }
                }
                return one(s, V.I.of(id.bsmArgs.length)); }
            case "java/lang/runtime/ObjectMethods": {
                List<String> fields = new ArrayList<>();
                for (int i = 2; i < id.bsmArgs.length; i++) fields.add(((Handle) id.bsmArgs[i]).getName());
                String rc = ((Type) id.bsmArgs[0]).getInternalName();
                if (id.name.equals("equals")) {
                    State.Obj x = s.obj(a[0]), y = s.obj(a[1]);
                    if (y == null || !y.cls.equals(x.cls)) return one(s, V.I.of(0));
                    List<Out> cur = one(s, V.I.of(1));
                    for (String fn : fields) {
                        List<Out> nx = new ArrayList<>();
                        for (Out o : cur) { if (o.exc != null || o.ret.equals(V.I.of(0))) { nx.add(o); continue; } String k = fld(rc, fn); V p = x.get(k), q = y.get(k); nx.addAll(lib.objectsEqual(o.s, p, q)); }
                        cur = nx;
                    }
                    return cur;
                }
                if (id.name.equals("hashCode")) return one(s, new V.I(Poly.var("hash(" + a[0] + ")", Itv.INT, true)));
                return one(s, V.Im.str(Str.atom("str(" + a[0] + ")"))); }
            default:
        }
        s.event("UNMODELLED", "invokedynamic " + bo, null);
        return top(s, Type.getReturnType(id.desc).getDescriptor(), "invokedynamic " + bo);
    }
}
