package sa;

import java.util.*;
import java.util.function.*;
import org.antlr.v4.runtime.atn.*;
import org.antlr.v4.runtime.misc.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.*;

/** Lexer and parser: the generated tables (ATN) and the generated code, decided as automata. */
final class GrammarChecks {
    static final String LEX = Model.PKG + "parser/antlr/BooleanExpressionLexer", PAR = Model.PKG + "parser/antlr/BooleanExpressionParser";

    static ATN atn(Model m, String cls) {
        World.C c = m.w.get(cls);
        if (c == null) throw new Model.Anchor("generated class " + cls);
        for (FieldNode f : c.n.fields) if (f.name.equals("_serializedATN") && f.value instanceof String s) return new ATNDeserializer().deserialize(s.toCharArray());
        throw new Model.Anchor("the serialised grammar of " + cls);
    }
    /** token types by name */
    static Map<Integer, String> tokens(Model m, String cls) {
        World.C c = m.w.get(cls);
        Map<Integer, String> r = new TreeMap<>();
        for (FieldNode f : c.n.fields) if (f.value instanceof Integer i && !f.name.startsWith("RULE_") && (f.access & Opcodes.ACC_FINAL) != 0) r.put(i, f.name);
        r.put(-1, "EOF");
        return r;
    }

    // ------------------------------------------------------------------------------------------------------------------ lexer tables

    /** the lexer's tables as a deterministic automaton: longest match, then rule order, non-greedy loops as the ANTLR runtime treats them */
    static final class LexDfa {
        final ATN atn; final Map<String, int[]> memo = new HashMap<>(); final List<List<Cfg>> states = new ArrayList<>(); final Map<List<Cfg>, Integer> ids = new HashMap<>();
        record Cfg(int state, List<Integer> stack, int alt, boolean lazy) { }
        final List<int[]> classes;
        LexDfa(ATN atn, List<int[]> classes) {
            this.atn = atn; this.classes = classes;
            List<Cfg> init = new ArrayList<>();
            ATNState s = atn.modeToStartState.get(0);
            for (int i = 0; i < s.getNumberOfTransitions(); i++) close(new Cfg(s.transition(i).target.stateNumber, List.of(), i + 1, false), init, false);
            id(init);
        }
        int id(List<Cfg> l) { Integer k = ids.get(l); if (k == null) { k = states.size(); ids.put(l, k); states.add(l); if (k > 20000) throw new Interp.Budget("lexer states"); } return k; }
        boolean close(Cfg c, List<Cfg> out, boolean accepted) {
            ATNState s = atn.states.get(c.state);
            if (s instanceof RuleStopState) {
                if (c.stack.isEmpty()) { if (!out.contains(c)) out.add(c); return true; }
                return close(new Cfg(c.stack.get(c.stack.size() - 1), c.stack.subList(0, c.stack.size() - 1), c.alt, c.lazy), out, accepted);
            }
            if (!s.onlyHasEpsilonTransitions() && (!accepted || !c.lazy) && !out.contains(c)) out.add(c);
            for (int i = 0; i < s.getNumberOfTransitions(); i++) {
                Transition t = s.transition(i);
                if (!t.isEpsilon()) continue;
                if (t instanceof AbstractPredicateTransition) throw new Interp.Budget("lexer predicate");
                List<Integer> st = c.stack;
                if (t instanceof RuleTransition r) { st = new ArrayList<>(st); st.add(r.followState.stateNumber); if (st.size() > 50) throw new Interp.Budget("recursive lexer rule"); }
                boolean lazy = c.lazy || t.target instanceof DecisionState d && d.nonGreedy;
                accepted = close(new Cfg(t.target.stateNumber, st, c.alt, lazy), out, accepted);
            }
            return accepted;
        }
        /** successor on a character, -1 when none */
        int step(int k, int ch) {
            int[] row = memo.computeIfAbsent("" + k, z -> { int[] r = new int[classes.size()]; Arrays.fill(r, -2); return r; });
            int ci = cls(ch);
            if (row[ci] != -2) return row[ci];
            List<Cfg> out = new ArrayList<>();
            int skip = 0;
            for (Cfg c : states.get(k)) {
                boolean acc = c.alt == skip;
                if (acc && c.lazy) continue;
                ATNState s = atn.states.get(c.state);
                for (int i = 0; i < s.getNumberOfTransitions(); i++) {
                    Transition t = s.transition(i);
                    if (t.isEpsilon() || !t.matches(ch, 0, 0x10FFFF)) continue;
                    boolean lazy = c.lazy || t.target instanceof DecisionState d && d.nonGreedy;
                    if (close(new Cfg(t.target.stateNumber, c.stack, c.alt, lazy), out, acc)) { skip = c.alt; break; }
                }
            }
            return row[ci] = out.isEmpty() ? -1 : id(out);
        }
        int cls(int ch) { for (int i = 0; i < classes.size(); i++) if (ch >= classes.get(i)[0] && ch <= classes.get(i)[1]) return i; throw new IllegalStateException(); }
        /** token type accepted here, 0 when none; skipped tokens are -2 */
        int accept(int k) {
            for (Cfg c : states.get(k)) {
                ATNState s = atn.states.get(c.state);
                if (s instanceof RuleStopState && c.stack.isEmpty()) {
                    int rule = s.ruleIndex, type = atn.ruleToTokenType[rule];
                    return skips(rule) ? -2 : type;
                }
            }
            return 0;
        }
        boolean skips(int rule) {
            for (ATNState s : atn.states) if (s != null && s.ruleIndex == rule) for (int i = 0; i < s.getNumberOfTransitions(); i++) if (s.transition(i) instanceof ActionTransition a) {
                if (a.actionIndex < 0 || a.actionIndex >= atn.lexerActions.length) continue;
                if (atn.lexerActions[a.actionIndex].getActionType() == LexerActionType.SKIP) return true;
            }
            return false;
        }
    }

    /** documented tokens, most specific first: label, regular expression */
    static final String[][] TOKENS;
    static {
        List<String[]> l = new ArrayList<>();
        String[] kw = {"IN", "TO", "AND", "OR", "NOT", "TRUE", "FALSE", "CONTAINS_ALL", "CONTAINS_ANY", "MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED"};
        for (String k : kw) l.add(new String[]{k, k + "|" + k.toLowerCase(Locale.ROOT)});
        l.add(new String[]{"AND", "&&"}); l.add(new String[]{"OR", "\\|\\|"});
        for (String k : kw) { StringBuilder b = new StringBuilder(); for (char c : k.toCharArray()) b.append(c == '_' ? "_" : "[" + c + Character.toLowerCase(c) + "]"); l.add(new String[]{k + " in mixed case", b.toString()}); }
        for (String[] o : new String[][]{{"ADD", "+"}, {"SUBTRACT", "-"}, {"MULTIPLY", "*"}, {"DIVIDE", "/"}, {"MODULUS", "%"}, {"EXPONENT", "^"}, {"NE", "!="}, {"GT", ">"}, {"GE", ">="}, {"LT", "<"}, {"LE", "<="}, {"EQ", "="}, {"LPAREN", "("}, {"RPAREN", ")"}, {"T__0", ","}}) l.add(new String[]{o[0], o[1].replaceAll("(.)", "[$1]").replace("[^]", "\\^")});
        l.add(new String[]{"DECIMAL", "[0-9]+\\.[0-9]+"}); l.add(new String[]{"APP_VERSION", "[0-9]\\.[0-9]+(\\.[0-9]+)+"}); l.add(new String[]{"APP_VERSION with a first part of several digits", "[0-9]+\\.[0-9]+(\\.[0-9]+)+"}); l.add(new String[]{"INTEGER", "[0-9]+"});
        l.add(new String[]{"DATE", "[0-9][0-9][0-9][0-9]-[0-9][0-9]-[0-9][0-9]"}); l.add(new String[]{"DATETIME", "[0-9][0-9][0-9][0-9]-[0-9][0-9]-[0-9][0-9] [0-9][0-9]:[0-9][0-9]:[0-9][0-9]"});
        l.add(new String[]{"skipped blank", "[ \t\r\n\f]+"}); l.add(new String[]{"WORD", "'[^']*'"}); l.add(new String[]{"WORD", "\"[^\"]*\""}); l.add(new String[]{"FIELD", "[a-zA-Z0-9_.]+"});
        TOKENS = l.toArray(new String[0][]);
    }

    /** small regular expressions: literals, classes, groups, |, *, + */
    static final class Re {
        final String p; int i;
        static final class N { final List<Object[]> out = new ArrayList<>(); } // {lo, hi, N} or {N}
        N start, fin;
        Re(String p) { this.p = p; N[] r = alt(); start = r[0]; fin = r[1]; if (i < p.length()) throw new IllegalStateException(p); }
        private N[] alt() { N a = new N(), b = new N(); while (true) { N[] s = seq(); a.out.add(new Object[]{s[0]}); s[1].out.add(new Object[]{b}); if (i < p.length() && p.charAt(i) == '|') i++; else return new N[]{a, b}; } }
        private N[] seq() { N a = new N(), b = a; while (i < p.length() && p.charAt(i) != '|' && p.charAt(i) != ')') { N[] x = rep(); b.out.add(new Object[]{x[0]}); b = x[1]; } return new N[]{a, b}; }
        private N[] rep() { N[] x = atom(); while (i < p.length() && (p.charAt(i) == '*' || p.charAt(i) == '+')) { boolean star = p.charAt(i++) == '*'; N a = new N(), b = new N(); a.out.add(new Object[]{x[0]}); x[1].out.add(new Object[]{b}); x[1].out.add(new Object[]{x[0]}); if (star) a.out.add(new Object[]{b}); x = new N[]{a, b}; } return x; }
        private N[] atom() {
            char c = p.charAt(i++); N a = new N(), b = new N();
            if (c == '(') { N[] x = alt(); i++; return x; }
            if (c == '[') {
                boolean neg = p.charAt(i) == '^'; if (neg) i++;
                List<int[]> rs = new ArrayList<>();
                while (p.charAt(i) != ']') { int lo = p.charAt(i++), hi = lo; if (p.charAt(i) == '-' && p.charAt(i + 1) != ']') { hi = p.charAt(i + 1); i += 2; } rs.add(new int[]{lo, hi}); }
                i++;
                if (neg) { rs.sort(Comparator.comparingInt(r -> r[0])); int at = 0; for (int[] r : rs) { if (r[0] > at) a.out.add(new Object[]{at, r[0] - 1, b}); at = r[1] + 1; } a.out.add(new Object[]{at, 0x10FFFF, b}); }
                else for (int[] r : rs) a.out.add(new Object[]{r[0], r[1], b});
                return new N[]{a, b};
            }
            if (c == '\\') c = p.charAt(i++);
            a.out.add(new Object[]{(int) c, (int) c, b});
            return new N[]{a, b};
        }
        static Set<N> close(Collection<N> s) { Set<N> r = new LinkedHashSet<>(s); Deque<N> w = new ArrayDeque<>(s); while (!w.isEmpty()) for (Object[] o : w.pop().out) if (o.length == 1 && r.add((N) o[0])) w.push((N) o[0]); return r; }
        void bounds(Set<Integer> cuts) { Set<N> seen = new HashSet<>(); Deque<N> w = new ArrayDeque<>(List.of(start)); while (!w.isEmpty()) { N n = w.pop(); if (!seen.add(n)) continue; for (Object[] o : n.out) { if (o.length == 3) { cuts.add((Integer) o[0]); cuts.add((Integer) o[1] + 1); } w.push((N) o[o.length - 1]); } } }
    }

    static final class Tokens extends Check {
        String explanation() { return "Automata: the lexer's serialised tables are determinised (longest match, rule order, non-greedy loops as the ANTLR runtime executes them) and compared, over all inputs, with an automaton of the documented tokens: after every input prefix both must accept the same token. Token names are resolved through the constants of the generated classes; lexer and parser constants must agree."; }
        /** what the lexer reads is the expression itself */
        private static void unchanged(Ctx c) {
            String rule = "the text reaches the lexer as it was given";
            c.rules.add(rule);
            for (boolean cached : new boolean[]{false, true}) for (String def : new String[]{null, "dflt"}) for (Dsl.E e : List.of(Dsl.word(Str.of("a b"), '\''), Dsl.fld("x"), new Dsl.Bin(Dsl.fld("x"), Dsl.AND, new Dsl.Cmp(Dsl.fld("y"), Dsl.EQ, Dsl.word(Str.of("a"), '"'))))) {
                Model m = c.m; State s = m.start();
                String key = "text of " + e + (cached ? " through a cache" : "") + (def == null ? "" : " with a default field");
                for (Model.Res r : m.parse(s, cached ? m.cachedParser : m.boolParser, m.expression(s, e), def == null ? null : V.Im.str(Str.of(def)))) {
                    c.obligations++; c.partitions++;
                    for (State.Event v : r.s.eventList()) if (v.kind().equals("ALTERED")) { c.violation(key, rule, v.text(), Ctx.path(r.s)); break; }
                }
            }
        }
        void run(Ctx c) {
            Model m = c.m;
            ATN atn = atn(m, LEX);
            Map<Integer, String> names = tokens(m, LEX), pn = tokens(m, PAR);
            c.rules.add("lexer and parser agree on token numbers");
            for (Map.Entry<Integer, String> e : names.entrySet()) { if (e.getKey() <= 0 || !Character.isUpperCase(e.getValue().charAt(0))) continue; c.obligations++; if (pn.containsValue(e.getValue()) && !e.getValue().equals(pn.get(e.getKey()))) c.violation("token number " + e.getValue(), "lexer and parser agree on token numbers", "token " + e.getValue() + " is " + e.getKey() + " in the lexer and another one in the parser", List.of()); }
            List<Re> res = new ArrayList<>();
            TreeSet<Integer> cuts = new TreeSet<>(List.of(0));
            for (String[] t : TOKENS) { Re r = new Re(t[1]); r.bounds(cuts); res.add(r); }
            for (ATNState s : atn.states) if (s != null) for (int i = 0; i < s.getNumberOfTransitions(); i++) { IntervalSet l = s.transition(i).label(); if (l != null) for (Interval v : l.getIntervals()) { cuts.add(Math.max(0, v.a)); cuts.add(v.b + 1); } }
            List<int[]> classes = new ArrayList<>();
            List<Integer> cl = new ArrayList<>(cuts); cl.removeIf(x -> x > 0x10FFFF);
            for (int i = 0; i < cl.size(); i++) classes.add(new int[]{cl.get(i), i + 1 < cl.size() ? cl.get(i + 1) - 1 : 0x10FFFF});
            LexDfa d = new LexDfa(atn, classes);
            unchanged(c);
            String rule = "every text is split into the documented tokens";
            c.rules.add(rule);
            record P(int lex, List<Set<Re.N>> spec, String w) { }
            List<Set<Re.N>> s0 = new ArrayList<>(); for (Re r : res) s0.add(Re.close(List.of(r.start)));
            Set<Object> seen = new HashSet<>(); Deque<P> q = new ArrayDeque<>(); q.add(new P(0, s0, ""));
            Map<String, Integer> witnesses = new HashMap<>();
            while (!q.isEmpty()) {
                P p = q.poll();
                if (!seen.add(List.of(p.lex, p.spec))) continue;
                c.scenarios = 1; c.partitions++;
                if (!p.w.isEmpty()) {
                    c.obligations++;
                    String want = null; for (int i = 0; i < res.size() && want == null; i++) if (p.spec.get(i).contains(res.get(i).fin)) want = TOKENS[i][0];
                    int k = p.lex < 0 ? 0 : d.accept(p.lex);
                    String got = k == 0 ? null : k == -2 ? "skipped blank" : names.getOrDefault(k, "token " + k);
                    String base = want == null ? null : want.replaceAll(" (in|with) .*", "");
                    if (!Objects.equals(base, got)) c.violation("token " + (want == null ? "none" : want) + " read as " + got, rule, "the text " + show(p.w) + " is " + (want == null ? "no token" : "the token " + want) + ", but the lexer takes it for " + (got == null ? "none" : got), List.of("BooleanExpressionLexer._serializedATN"));
                }
                for (int[] k : classes) {
                    int ch = pick(k);
                    int n = p.lex < 0 ? -1 : d.step(p.lex, ch);
                    List<Set<Re.N>> ns = new ArrayList<>(); boolean any = false;
                    for (Set<Re.N> s : p.spec) { Set<Re.N> t = new LinkedHashSet<>(); for (Re.N x : s) for (Object[] o : x.out) if (o.length == 3 && ch >= (Integer) o[0] && ch <= (Integer) o[1]) t.add((Re.N) o[2]); t = Re.close(t); any |= !t.isEmpty(); ns.add(t); }
                    if (n < 0 && !any) continue;
                    q.add(new P(n, ns, p.w + new String(Character.toChars(ch))));
                }
            }
            c.count("lexer states", d.states.size()); c.count("product states", seen.size()); c.count("character classes", classes.size());
            m.in.analysed.put("BooleanExpressionLexer._serializedATN", 1);
        }
        private static int pick(int[] k) { for (int ch : new int[]{'a', 'B', '5', '\u00e9'}) if (ch >= k[0] && ch <= k[1]) return ch; return k[0]; }
        private static String show(String s) { return "\"" + s.replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r").replace("\f", "\\f") + "\""; }
    }

    // ------------------------------------------------------------------------------------------------------------------ parser

    static RuleCode code(Ctx c, World.C pc, Map<Integer, String> names, boolean labels, Map<AbstractInsnNode, Boolean> force) { ATN atn = atn(c.m, PAR); return new RuleCode(pc, atn, names, Arrays.asList(ruleNames(c, pc, atn)), labels, force); }

    /** a rule of the parser's tables as an automaton */
    static Nfa table(ATN atn, int rule, Map<Integer, String> names, String[] rules) { return table(atn, rule, atn.ruleToStartState[rule], names, rules); }
    /** what the tables of a rule accept from a state on */
    static Nfa table(ATN atn, int rule, ATNState from, Map<Integer, String> names, String[] rules) {
        Map<Integer, Nfa.St> st = new HashMap<>();
        Function<ATNState, Nfa.St> of = s -> st.computeIfAbsent(s.stateNumber, k -> new Nfa.St());
        Deque<ATNState> w = new ArrayDeque<>(); Set<ATNState> seen = new HashSet<>();
        w.push(from);
        while (!w.isEmpty()) {
            ATNState s = w.pop();
            if (!seen.add(s) || s instanceof RuleStopState) continue;
            for (int i = 0; i < s.getNumberOfTransitions(); i++) {
                Transition t = s.transition(i);
                ATNState to = t.target;
                if (t instanceof RuleTransition r) { to = r.followState; of.apply(s).to("R:" + rules[r.ruleIndex] + (rules[r.ruleIndex].equals("expression") ? "(" + r.precedence + ")" : ""), of.apply(to)); }
                else if (t instanceof PrecedencePredicateTransition p) of.apply(s).to("P:" + p.precedence, of.apply(to));
                else if (t.isEpsilon()) of.apply(s).to(null, of.apply(to));
                else for (int k : t.label().toList()) of.apply(s).to("T:" + names.getOrDefault(k, "?" + k), of.apply(to));
                w.push(to);
            }
        }
        return new Nfa(of.apply(from), of.apply(atn.ruleToStopState[rule]));
    }

    /** the documented syntax; precedence numbers are those found in the code */
    static Map<String, Function<Function<String, Integer>, Nfa>> spec(boolean lb) {
        Map<String, Function<Function<String, Integer>, Nfa>> r = new LinkedHashMap<>();
        Function<String, Object> L = x -> lb ? x : "";
        r.put("parse", p -> Nfa.seq(L.apply("new Parse"), "R:expression(0)", "T:EOF"));
        r.put("expression", p -> {
            List<Object> prim = new ArrayList<>(), suf = new ArrayList<>();
            prim.add(Nfa.seq(L.apply("new ParentExpression"), "T:LPAREN", "R:expression(0)", "T:RPAREN"));
            prim.add(Nfa.seq(L.apply("new NotExpression"), "T:NOT", "R:expression(" + p.apply("NOT") + ")"));
            prim.add(Nfa.seq(L.apply("new UnaryArithmeticExpression"), "T:SUBTRACT", L.apply("=op"), "R:expression(" + p.apply("MINUS") + ")", L.apply("=exp")));
            prim.add(Nfa.seq(L.apply("new ArithmeticFunctionExpression"), "R:arithmeticFunction", L.apply("=left"), "R:wordlist", L.apply("=data")));
            prim.add(Nfa.seq(L.apply("new TypesExpression"), "R:types"));
            prim.add(Nfa.seq(L.apply("new ToExpression"), "T:FIELD", L.apply("=field"), "R:numericTypes", L.apply("=lower"), "T:TO", "R:numericTypes", L.apply("=upper")));
            prim.add(Nfa.seq(L.apply("new InExpression"), "T:FIELD", L.apply("=field"), Nfa.opt("T:NOT", L.apply("=not")), "T:IN", "R:wordlist", L.apply("=data")));
            prim.add(Nfa.seq(L.apply("new ArrayExpression"), "T:FIELD", L.apply("=field"), "R:arrayOperators", L.apply("=op"), "R:wordlist", L.apply("=data")));
            for (String o : new String[]{"comparator", "EXPONENT", "DIVIDE", "MULTIPLY", "MODULUS", "ADD", "SUBTRACT", "binary"}) {
                boolean rule = Character.isLowerCase(o.charAt(0));
                String ctx = o.equals("comparator") ? "Comparator" : o.equals("binary") ? "Binary" : "Arithmetic";
                suf.add(Nfa.seq(L.apply("new " + ctx + "Expression"), L.apply("=left"), "P:" + p.apply(o), (rule ? "R:" : "T:") + o, L.apply("=op"), "R:expression(" + p.apply(o + " right") + ")", L.apply("=right")));
            }
            return Nfa.seq(Nfa.alt(prim.toArray()), Nfa.star(Nfa.alt(suf.toArray())));
        });
        r.put("wordlist", p -> Nfa.seq(L.apply("new Wordlist"), "T:LPAREN", Nfa.star("T:WS"), "R:expression(0)", L.apply("=first"), Nfa.star("T:WS"), Nfa.star("T:T__0", Nfa.star("T:WS"), "R:expression(0)", L.apply("=rest"), Nfa.star("T:WS")), "T:RPAREN"));
        BiFunction<String, String, Nfa> set = (n, ts) -> { List<Object> a = new ArrayList<>(); for (String t : ts.split(" ")) a.add(t.equals("bool") ? "R:bool" : t.equals("none") ? "" : "T:" + t); return Nfa.seq(L.apply("new " + n), Nfa.alt(a.toArray())); };
        r.put("comparator", p -> set.apply("Comparator", "GT GE LT LE EQ NE"));
        r.put("arithmeticFunction", p -> set.apply("ArithmeticFunction", "MIN MAX SUM AVG MEAN MODE LEN MEDIAN INT DAYS_ELAPSED"));
        r.put("arrayOperators", p -> set.apply("ArrayOperators", "CONTAINS_ANY CONTAINS_ALL"));
        r.put("numericTypes", p -> set.apply("NumericTypes", "INTEGER DECIMAL"));
        r.put("types", p -> set.apply("Types", "INTEGER DECIMAL APP_VERSION bool WORD FIELD DATE DATETIME none"));
        r.put("binary", p -> set.apply("Binary", "AND OR"));
        r.put("bool", p -> set.apply("Bool", "TRUE FALSE"));
        return r;
    }

    static MethodNode rule(World.C pc, String name) {
        MethodNode best = null;
        for (MethodNode k : pc.n.methods) if (k.name.equals(name) && k.desc.endsWith("Context;") && (best == null || k.desc.startsWith("(I)"))) best = k;
        return best;
    }
    /** precedence level and right operand level of every operator, read from the rule method's automaton */
    static Map<String, Integer> levels(Ctx c, World.C pc, Map<Integer, String> names) {
        MethodNode mn = rule(pc, "expression");
        if (mn == null) throw new Model.Anchor("parser rule method expression");
        Nfa n = code(c, pc, names, false, Map.of()).of(mn);
        Map<String, Integer> r = new TreeMap<>();
        // prefix operators
        for (String[] k : new String[][]{{"T:NOT", "NOT"}, {"T:SUBTRACT", "MINUS"}}) for (String y : next(Nfa.step(Nfa.close(List.of(n.start)), k[0]))) if (y.startsWith("R:expression(")) r.put(k[1], num(y));
        // suffixes
        Set<Nfa.St> seen = new HashSet<>(); Deque<Nfa.St> w = new ArrayDeque<>(List.of(n.start));
        while (!w.isEmpty()) {
            Nfa.St s = w.pop();
            if (!seen.add(s)) continue;
            w.addAll(s.eps);
            for (Map.Entry<String, Set<Nfa.St>> e : s.out.entrySet()) {
                w.addAll(e.getValue());
                if (!e.getKey().startsWith("P:")) continue;
                Set<Nfa.St> t = Nfa.close(e.getValue());
                for (String op : next(t)) if (op.startsWith("T:") || op.startsWith("R:")) for (String rhs : next(Nfa.step(t, op))) if (rhs.startsWith("R:expression(")) { r.put(op.substring(2), Integer.parseInt(e.getKey().substring(2))); r.put(op.substring(2) + " right", num(rhs)); }
            }
        }
        return r;
    }
    private static Set<String> next(Set<Nfa.St> s) { Set<String> r = new TreeSet<>(); for (Nfa.St t : s) r.addAll(t.out.keySet()); return r; }
    private static int num(String y) { return Integer.parseInt(y.substring(y.indexOf('(') + 1, y.length() - 1)); }

    static String[] ruleNames(Ctx c, World.C pc, ATN atn) {
        String[] r = new String[atn.ruleToStartState.length];
        for (FieldNode f : pc.n.fields) if (f.name.startsWith("RULE_") && f.value instanceof Integer i && i < r.length) r[i] = f.name.substring(5);
        for (String x : r) if (x == null) throw new Model.Anchor("parser rule numbers");
        return r;
    }

    static final class Syntax extends Check {
        String explanation() { return "Automata: for every parser rule, the generated code (its control flow over token matches, rule calls, precedence predicates, context classes and labels) and the serialised tables that drive prediction are both compared with the documented syntax as regular languages; a difference is reported with a shortest distinguishing sequence. Set tests before consume() are evaluated for every token type."; }
        void run(Ctx c) {
            Model m = c.m;
            World.C pc = m.w.get(PAR);
            ATN atn = atn(m, PAR);
            Map<Integer, String> names = tokens(m, PAR);
            names.remove(0);
            String[] rn = ruleNames(c, pc, atn);
            Map<String, Integer> lv = levels(c, pc, names);
            int[] states = new int[1];
            int conditions = 0, alternatives = 0;
            for (boolean lb : new boolean[]{true, false}) for (Map.Entry<String, Function<Function<String, Integer>, Nfa>> e : spec(lb).entrySet()) {
                c.scenarios++; c.obligations++; c.partitions++;
                Nfa want = e.getValue().apply(k -> lv.getOrDefault(k, -99));
                if (lb) {
                    c.rules.add("the parser's code follows the documented syntax");
                    MethodNode mn = rule(pc, e.getKey());
                    if (mn == null) throw new Model.Anchor("parser rule method " + e.getKey());
                    m.in.analysed.put("BooleanExpressionParser." + e.getKey(), 1);
                    RuleCode code = code(c, pc, names, true, Map.of());
                    String where = "BooleanExpressionParser." + e.getKey();
                    Nfa got = code.of(mn);
                    List<String> d = Nfa.differ(want, got, states);
                    if (d != null) c.violation("code of rule " + e.getKey(), "the parser's code follows the documented syntax", "rule " + e.getKey() + ": the sequence " + d + " is " + (acc(want, d) ? "documented but not parsed" : "parsed but not documented"), List.of(where));
                    else for (Map.Entry<AbstractInsnNode, Integer> o : code.open.entrySet()) for (boolean way : new boolean[]{true, false}) {
                        c.obligations++; conditions++;
                        c.rules.add("what the parser accepts depends on the tokens alone");
                        List<String> d2 = Nfa.differ(want, code(c, pc, names, true, Map.of(o.getKey(), way)).of(mn), states);
                        if (d2 == null) continue;
                        c.violation("condition in rule " + e.getKey(), "what the parser accepts depends on the tokens alone", "rule " + e.getKey() + ": the condition at BooleanExpressionParser.java:" + o.getValue() + " reads neither the next token nor a prediction, and " + (way ? "when it jumps" : "when it falls through") + " the sequence " + d2 + " is " + (acc(want, d2) ? "documented but not parsed" : "parsed but not documented"), List.of(where));
                        break;
                    }
                    // every alternative of a prediction leads to the code of that alternative
                    RuleCode plain = code(c, pc, names, false, Map.of());
                    Nfa all = plain.of(mn);
                    int k = Arrays.asList(rn).indexOf(e.getKey());
                    for (Map.Entry<RuleCode.Pred, Nfa.St> o : plain.predicted.entrySet()) {
                        c.obligations++; alternatives++;
                        c.rules.add("the code for a predicted alternative is that alternative's");
                        DecisionState ds = atn.decisionToState.get(o.getKey().decision());
                        List<String> d3 = ds.ruleIndex != k ? List.of() : Nfa.differ(table(atn, k, ds.transition(o.getKey().alt() - 1).target, names, rn), new Nfa(o.getValue(), all.fin), states);
                        if (d3 != null) c.violation("alternative " + o.getKey().alt() + " of decision " + o.getKey().decision() + " in rule " + e.getKey(), "the code for a predicted alternative is that alternative's", "rule " + e.getKey() + ": after the prediction of alternative " + o.getKey().alt() + " of decision " + o.getKey().decision() + (ds.ruleIndex != k ? ", a decision of rule " + rn[ds.ruleIndex] : " the code and the tables differ on " + d3), List.of(where));
                    }
                } else {
                    c.rules.add("the parser's tables follow the documented syntax");
                    int k = Arrays.asList(rn).indexOf(e.getKey());
                    if (k < 0) throw new Model.Anchor("parser rule " + e.getKey());
                    List<String> d = Nfa.differ(want, table(atn, k, names, rn), states);
                    if (d != null) c.violation("tables of rule " + e.getKey(), "the parser's tables follow the documented syntax", "rule " + e.getKey() + ": the sequence " + d + " is " + (acc(want, d) ? "documented but not in the tables" : "in the tables but not documented"), List.of("BooleanExpressionParser._serializedATN"));
                }
            }
            c.count("product states", states[0]);
            c.count("conditions on something else than tokens, tried both ways", conditions);
            c.count("predicted alternatives compared with the tables", alternatives);
        }
        private static boolean acc(Nfa n, List<String> w) { Set<Nfa.St> s = Nfa.close(List.of(n.start)); for (String y : w) s = Nfa.step(s, y); return n.accepts(s); }
    }

    static final class Precedence extends Check {
        static final String[][] OPS = {{"EXPONENT", "^", "8"}, {"MULTIPLY", "*", "6"}, {"DIVIDE", "/", "6"}, {"MODULUS", "%", "6"}, {"ADD", "+", "5"}, {"SUBTRACT", "-", "5"}, {"comparator", "=", "4"}, {"binary", "AND", "2"}, {"binary", "OR", "1"}};
        String explanation() { return "Precedence analysis: the precedence level and the level of the right operand of every operator are read from the generated parser's code (and must equal those of its tables, see C31); for every ordered pair of operators the grouping of 'a op b op2 c' that these levels produce is compared with the conventional one (^ before * / % before + - before comparisons before NOT before AND before OR, left to right)."; }
        void run(Ctx c) {
            Model m = c.m; World.C pc = m.w.get(PAR);
            Map<Integer, String> names = tokens(m, PAR);
            Map<String, Integer> lv = levels(c, pc, names);
            String rule = "a op b op2 c groups conventionally";
            c.rules.add(rule); c.scenarios = 1;
            for (String[] a : OPS) for (String[] b : OPS) {
                int pa = Integer.parseInt(a[2]), pb = Integer.parseInt(b[2]);
                if (pa == pb && (pa <= 2 || pa == 4)) continue;
                if (!lv.containsKey(a[0]) || !lv.containsKey(b[0])) throw new Model.Anchor("precedence of " + a[0]);
                c.obligations++; c.partitions++;
                boolean want = pb > pa, got = lv.get(b[0]) >= lv.get(a[0] + " right");
                if (want != got) c.violation("a " + a[1] + " b " + b[1] + " c", rule, "a " + a[1] + " b " + b[1] + " c means " + group(a[1], b[1], got) + " instead of " + group(a[1], b[1], want), List.of("BooleanExpressionParser.expression"));
            }
            for (String[] b : OPS) {
                int pb = Integer.parseInt(b[2]);
                boolean got = lv.get(b[0]) >= lv.get("NOT"), want = pb > 3;
                c.obligations++;
                if (want != got) c.violation("NOT a " + b[1] + " b", rule, "NOT a " + b[1] + " b means " + (got ? "NOT (a " + b[1] + " b)" : "(NOT a) " + b[1] + " b"), List.of("BooleanExpressionParser.expression"));
                if (pb >= 6) continue;
                boolean g2 = lv.get(b[0]) >= lv.get("MINUS");
                c.obligations++;
                if (g2) c.violation("-a " + b[1] + " b", rule, "-a " + b[1] + " b means -(a " + b[1] + " b)", List.of("BooleanExpressionParser.expression"));
            }
            m.in.analysed.put("BooleanExpressionParser.expression", 1);
        }
        private static String group(String a, String b, boolean right) { return right ? "a " + a + " (b " + b + " c)" : "(a " + a + " b) " + b + " c"; }
    }
}
