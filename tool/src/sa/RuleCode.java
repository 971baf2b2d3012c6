package sa;

import java.util.*;
import org.antlr.v4.runtime.atn.ATN;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.*;
import org.objectweb.asm.tree.analysis.AnalyzerException;
import org.objectweb.asm.tree.analysis.Frame;
import org.objectweb.asm.tree.analysis.Interpreter;
import org.objectweb.asm.tree.analysis.Value;

/**
 * The code of one parser rule method as an automaton over its parsing actions. Control flow is followed with constants in locals and on the
 * stack: the lookahead token is split into every token type, a prediction into every alternative, so branches on them are decided exactly.
 * A branch on anything else goes both ways and is listed in open; force fixes such branches. Methods of the parser that are no rules are inlined.
 */
final class RuleCode implements Opcodes {
    /** a value: a known number, something read from the token stream, or anything else */
    record CV(int size, boolean token, Long k) implements Value { public int getSize() { return size; } }
    private record At(int pc, List<CV> vals, int stack, Integer la) { }
    record Pred(int decision, int alt) { }

    final World.C pc; final Map<Integer, String> names; final Set<String> rules; final ATN atn; final boolean labels; final Map<AbstractInsnNode, Boolean> force;
    final Map<AbstractInsnNode, Integer> open = new LinkedHashMap<>();
    final Map<Pred, Nfa.St> predicted = new LinkedHashMap<>();
    int states;

    RuleCode(World.C pc, ATN atn, Map<Integer, String> names, Collection<String> rules, boolean labels, Map<AbstractInsnNode, Boolean> force) { this.pc = pc; this.atn = atn; this.names = names; this.rules = new HashSet<>(rules); this.labels = labels; this.force = force; }

    Nfa of(MethodNode mn) {
        Nfa.St start = new Nfa.St(), fin = new Nfa.St();
        List<CV> args = new ArrayList<>();
        if ((mn.access & ACC_STATIC) == 0) args.add(other(1));
        for (Type t : Type.getArgumentTypes(mn.desc)) args.add(other(t.getSize()));
        for (Map.Entry<Exit, Nfa.St> e : body(mn, args, null, start, 0).entrySet()) e.getValue().to(null, fin);
        return new Nfa(start, fin);
    }

    private record Exit(CV value, Integer la) { }
    private static CV other(int size) { return new CV(size, false, null); }
    private static CV tok(int size) { return new CV(size, true, null); }
    private static CV num(long k) { return new CV(1, false, k); }

    private Map<Exit, Nfa.St> body(MethodNode mn, List<CV> args, Integer la0, Nfa.St entry, int depth) {
        InsnList l = mn.instructions;
        Map<Exit, Nfa.St> exits = new LinkedHashMap<>();
        Map<At, Nfa.St> seen = new HashMap<>();
        Deque<At> work = new ArrayDeque<>();
        Frame<CV> f0 = new Frame<>(mn.maxLocals, mn.maxStack);
        int v = 0;
        for (CV a : args) { f0.setLocal(v++, a); if (a.size == 2) f0.setLocal(v++, other(1)); }
        while (v < mn.maxLocals) f0.setLocal(v++, other(1));
        entry.to(null, at(seen, work, 0, f0, la0));
        while (!work.isEmpty()) {
            At a = work.pop();
            Nfa.St s = seen.get(a);
            if (++states > 400000) throw new Model.Anchor("parser rule method " + mn.name + " (its control flow does not settle)");
            if (a.pc >= l.size()) continue;
            AbstractInsnNode n = l.get(a.pc);
            int op = n.getOpcode();
            Frame<CV> f = new Frame<>(mn.maxLocals, mn.maxStack);
            for (int i = 0; i < mn.maxLocals; i++) f.setLocal(i, a.vals.get(i));
            for (int i = 0; i < a.stack; i++) f.push(a.vals.get(mn.maxLocals + i));
            if (op < 0) { s.to(null, at(seen, work, a.pc + 1, f, a.la)); continue; }
            if (op == ATHROW) continue;
            if (op >= IRETURN && op <= RETURN) {
                Exit e = new Exit(op == RETURN ? null : f.getStack(f.getStackSize() - 1), a.la);
                s.to(null, exits.computeIfAbsent(e, k -> new Nfa.St()));
                continue;
            }
            if (n instanceof JumpInsnNode j) {
                Boolean go = op == GOTO ? Boolean.TRUE : null;
                boolean token = true;
                if (op >= IF_ICMPEQ && op <= IF_ACMPNE) { CV y = f.pop(), x = f.pop(); token = (x.token || x.k != null) && (y.token || y.k != null); if (op <= IF_ICMPLE && x.k != null && y.k != null) go = cmp(op - IF_ICMPEQ, x.k, y.k); }
                else if (op != GOTO) { CV x = f.pop(); token = x.token; if (op <= IFLE && x.k != null) go = cmp(op - IFEQ, x.k, 0); }
                if (go == null && !token) {
                    if (force.containsKey(n)) go = force.get(n);
                    else open.put(n, line(n));
                }
                if (go == null || go) s.to(null, at(seen, work, l.indexOf(j.label), f, a.la));
                if (go == null || !go) s.to(null, at(seen, work, a.pc + 1, f, a.la));
                continue;
            }
            if (n instanceof TableSwitchInsnNode t) {
                CV x = f.pop();
                if (x.k != null) s.to(null, at(seen, work, l.indexOf(x.k >= t.min && x.k <= t.max ? t.labels.get((int) (x.k - t.min)) : t.dflt), f, a.la));
                else { for (LabelNode b : t.labels) s.to(null, at(seen, work, l.indexOf(b), f, a.la)); s.to(null, at(seen, work, l.indexOf(t.dflt), f, a.la)); }
                continue;
            }
            if (n instanceof LookupSwitchInsnNode t) {
                CV x = f.pop();
                if (x.k != null) { int i = t.keys.indexOf((int) (long) x.k); s.to(null, at(seen, work, l.indexOf(i >= 0 ? t.labels.get(i) : t.dflt), f, a.la)); }
                else { for (LabelNode b : t.labels) s.to(null, at(seen, work, l.indexOf(b), f, a.la)); s.to(null, at(seen, work, l.indexOf(t.dflt), f, a.la)); }
                continue;
            }
            String sym = null;
            if (n instanceof MethodInsnNode k) {
                Type[] at = Type.getArgumentTypes(k.desc);
                CV[] in = new CV[at.length + (op == INVOKESTATIC ? 0 : 1)];
                for (int i = in.length - 1; i >= 0; i--) in[i] = f.pop();
                CV last = in.length == 0 ? null : in[in.length - 1];
                Type rt = Type.getReturnType(k.desc);
                if (k.name.equals("recoverInline")) continue;
                if (k.name.equals("LA") && last != null && last.k != null && last.k == 1) {
                    for (int t : a.la != null ? List.of(a.la) : names.keySet()) { Frame<CV> g = new Frame<>(f); g.push(num(t)); s.to(null, at(seen, work, a.pc + 1, g, t)); }
                    continue;
                }
                if (k.name.equals("match") && k.desc.startsWith("(I)")) {
                    if (last.k != null && a.la != null && (long) a.la != last.k) continue;
                    Integer t = last.k != null ? Integer.valueOf((int) (long) last.k) : a.la;
                    f.push(tok(1));
                    Nfa.St to = at(seen, work, a.pc + 1, f, null);
                    if (t != null) s.to("T:" + names.getOrDefault(t, "?"), to); else for (String x : names.values()) s.to("T:" + x, to);
                    continue;
                }
                if (k.name.equals("consume") && k.desc.startsWith("()")) {
                    f.push(tok(1));
                    Nfa.St to = at(seen, work, a.pc + 1, f, null);
                    if (a.la != null) s.to("T:" + names.get(a.la), to); else for (String x : names.values()) s.to("T:" + x, to);
                    continue;
                }
                if (k.name.equals("matchWildcard")) { f.push(tok(1)); Nfa.St to = at(seen, work, a.pc + 1, f, null); for (String x : names.values()) s.to("T:" + x, to); continue; }
                if (k.name.equals("precpred")) {
                    Frame<CV> g = new Frame<>(f); g.push(num(0));
                    f.push(num(1));
                    s.to("P:" + (last.k == null ? "?" : last.k), at(seen, work, a.pc + 1, f, a.la));
                    s.to("!P:" + (last.k == null ? "?" : last.k), at(seen, work, a.pc + 1, g, a.la));
                    continue;
                }
                if (k.name.equals("adaptivePredict")) {
                    CV d = in.length > 2 ? in[2] : null;
                    if (d == null || d.k == null || d.k < 0 || d.k >= atn.decisionToState.size()) { f.push(tok(1)); s.to(null, at(seen, work, a.pc + 1, f, null)); continue; }
                    int dec = (int) (long) d.k;
                    for (int alt = 1; alt <= atn.decisionToState.get(dec).getNumberOfTransitions(); alt++) {
                        Frame<CV> g = new Frame<>(f); g.push(num(alt));
                        Nfa.St to = at(seen, work, a.pc + 1, g, null);
                        s.to(null, to);
                        if (depth == 0) predicted.computeIfAbsent(new Pred(dec, alt), z -> new Nfa.St()).to(null, to);
                    }
                    continue;
                }
                if (k.owner.equals(pc.n.name)) {
                    boolean rule = rules.contains(k.name) && k.desc.endsWith("Context;");
                    if (rule) {
                        sym = "R:" + k.name + (k.desc.startsWith("(I)") ? "(" + (last.k == null ? "?" : last.k) + ")" : k.name.equals("expression") ? "(0)" : "");
                        f.push(other(1));
                        s.to(sym, at(seen, work, a.pc + 1, f, null));
                        continue;
                    }
                    MethodNode own = null;
                    for (MethodNode x : pc.n.methods) if (x.name.equals(k.name) && x.desc.equals(k.desc) && x.instructions.size() > 0) own = x;
                    if (own != null && depth < 6) {
                        List<CV> args2 = Arrays.asList(in);
                        Nfa.St en = new Nfa.St();
                        s.to(null, en);
                        for (Map.Entry<Exit, Nfa.St> e : body(own, args2, a.la, en, depth + 1).entrySet()) {
                            Frame<CV> g = new Frame<>(f);
                            if (rt.getSort() != Type.VOID) g.push(e.getKey().value);
                            e.getValue().to(null, at(seen, work, a.pc + 1, g, e.getKey().la));
                        }
                        continue;
                    }
                }
                if (rt.getSort() != Type.VOID) f.push(k.name.equals("LT") || k.name.equals("getCurrentToken") ? tok(rt.getSize()) : other(rt.getSize()));
                s.to(null, at(seen, work, a.pc + 1, f, a.la));
                continue;
            }
            if (labels && n instanceof FieldInsnNode x && op == PUTFIELD && x.owner.startsWith(pc.n.name + "$") && !x.name.equals("exception")) sym = "=" + x.name;
            else if (labels && op == NEW && ((TypeInsnNode) n).desc.startsWith(pc.n.name + "$")) { String x = ((TypeInsnNode) n).desc.substring(pc.n.name.length() + 1).replace("Context", ""); if (!x.equals("Expression")) sym = "new " + x; }
            if (op == IINC) { IincInsnNode i = (IincInsnNode) n; CV x = f.getLocal(i.var); f.setLocal(i.var, x.k == null ? x : cap(x.k + i.incr)); }
            else try { f.execute(n, INT); } catch (AnalyzerException e) { throw new IllegalStateException(e); }
            s.to(sym, at(seen, work, a.pc + 1, f, a.la));
        }
        return exits;
    }
    private static CV cap(long k) { return k > 300 || k < -300 ? other(1) : num(k); }

    private static Nfa.St at(Map<At, Nfa.St> seen, Deque<At> work, int pc, Frame<CV> f, Integer la) {
        List<CV> vals = new ArrayList<>(f.getLocals() + f.getStackSize());
        for (int i = 0; i < f.getLocals(); i++) vals.add(f.getLocal(i));
        for (int i = 0; i < f.getStackSize(); i++) vals.add(f.getStack(i));
        At a = new At(pc, vals, f.getStackSize(), la);
        Nfa.St s = seen.get(a);
        if (s == null) { seen.put(a, s = new Nfa.St()); work.push(a); }
        return s;
    }
    private static int line(AbstractInsnNode n) { for (; n != null; n = n.getPrevious()) if (n instanceof LineNumberNode x) return x.line; return 0; }
    private static boolean cmp(int k, long a, long b) { switch (k) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a >= b; case 4: return a > b; default: return a <= b; } }

    private static final Interpreter<CV> INT = new Interpreter<>(ASM9) {
        public CV newValue(Type t) { return t == Type.VOID_TYPE ? null : other(t == null ? 1 : t.getSize()); }
        public CV newOperation(AbstractInsnNode n) {
            int op = n.getOpcode();
            if (op >= ICONST_M1 && op <= ICONST_5) return num(op - ICONST_0);
            if (op == LCONST_0 || op == LCONST_1) return new CV(2, false, (long) (op - LCONST_0));
            if (op == BIPUSH || op == SIPUSH) return num(((IntInsnNode) n).operand);
            if (op == LDC) { Object c = ((LdcInsnNode) n).cst; return c instanceof Integer i ? num(i) : c instanceof Long i ? new CV(2, false, i) : other(c instanceof Double ? 2 : 1); }
            if (op == GETSTATIC) return other(Type.getType(((FieldInsnNode) n).desc).getSize());
            return other(op == DCONST_0 || op == DCONST_1 ? 2 : 1);
        }
        public CV copyOperation(AbstractInsnNode n, CV v) { return v; }
        public CV unaryOperation(AbstractInsnNode n, CV v) {
            int op = n.getOpcode();
            if (v.k != null) switch (op) {
                case I2L: return new CV(2, false, v.k);
                case L2I: return num((int) (long) v.k);
                case INEG: return num(-(int) (long) v.k);
                case LNEG: return new CV(2, false, -v.k);
                case I2B: return num((byte) (long) v.k);
                case I2C: return num((char) (long) v.k);
                case I2S: return num((short) (long) v.k);
                default:
            }
            int size = op == GETFIELD ? Type.getType(((FieldInsnNode) n).desc).getSize() : op == I2L || op == I2D || op == L2D || op == F2L || op == F2D || op == D2L || op == LNEG || op == DNEG ? 2 : 1;
            boolean keep = op != GETFIELD && op != ARRAYLENGTH;
            return new CV(size, keep && v.token, null);
        }
        public CV binaryOperation(AbstractInsnNode n, CV x, CV y) {
            int op = n.getOpcode();
            boolean wide = op == LADD || op == LSUB || op == LMUL || op == LDIV || op == LREM || op == LAND || op == LOR || op == LXOR || op == LSHL || op == LSHR || op == LUSHR || op == DADD || op == DSUB || op == DMUL || op == DDIV || op == DREM || op == LALOAD || op == DALOAD;
            if (x.k != null && y.k != null) {
                long a = x.k, b = y.k; int i = (int) a, j = (int) b;
                switch (op) {
                    case IADD: return cap(i + j);
                    case ISUB: return cap(i - j);
                    case IMUL: return cap(i * j);
                    case IDIV: if (j != 0) return num(i / j); break;
                    case IREM: if (j != 0) return num(i % j); break;
                    case IAND: return num(i & j);
                    case IOR: return num(i | j);
                    case IXOR: return num(i ^ j);
                    case ISHL: return num(i << j);
                    case ISHR: return num(i >> j);
                    case IUSHR: return num(i >>> j);
                    case LADD: return new CV(2, false, a + b);
                    case LSUB: return new CV(2, false, a - b);
                    case LAND: return new CV(2, false, a & b);
                    case LOR: return new CV(2, false, a | b);
                    case LXOR: return new CV(2, false, a ^ b);
                    case LSHL: return new CV(2, false, a << j);
                    case LSHR: return new CV(2, false, a >> j);
                    case LUSHR: return new CV(2, false, a >>> j);
                    case LCMP: return num(Long.compare(a, b));
                    default:
                }
            }
            if (op == PUTFIELD) return null;
            return new CV(wide ? 2 : 1, (x.token || x.k != null) && (y.token || y.k != null) && (x.token || y.token), null);
        }
        public CV ternaryOperation(AbstractInsnNode n, CV x, CV y, CV z) { return null; }
        public CV naryOperation(AbstractInsnNode n, List<? extends CV> l) {
            Type t = n instanceof InvokeDynamicInsnNode d ? Type.getReturnType(d.desc) : n instanceof MethodInsnNode m ? Type.getReturnType(m.desc) : Type.INT_TYPE;
            return t == Type.VOID_TYPE ? null : other(t.getSize());
        }
        public void returnOperation(AbstractInsnNode n, CV v, CV e) { }
        public CV merge(CV x, CV y) { return x.equals(y) ? x : other(x.size); }
    };
}
