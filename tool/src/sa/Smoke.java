package sa;
import java.nio.file.*;
import java.util.*;
import static sa.Dsl.*;
public final class Smoke {
    public static void main(String[] a) throws Exception {
        Thread t = new Thread(null, () -> { try { go(); } catch (Throwable e) { e.printStackTrace(); } }, "x", 2000L << 20); t.start(); t.join();
    }
    static void go() throws Exception {
        long t0 = System.currentTimeMillis();
        Path work = Files.createTempDirectory("sm");
        Model m = Model.load(Path.of("/repo"), work, Path.of("/tmp/ts"));
        System.out.println("load " + (System.currentTimeMillis() - t0) + " init events " + m.initEvents);
        Poly x = Poly.var("x", Itv.INT, true), y = Poly.var("y", new Itv(Rat.ZERO, false, null, true), true), z = Poly.var("z", Itv.LONG, true), b = Poly.var("b", Itv.ALL, false);
        V xi = V.Im.num(Lib.INTEGER, x);
        V zl = V.Im.num(Lib.LONG, z), bd = V.Im.dec(b, "of:b");
        List<E> es = List.of(new Cmp(fld("x"), GT, ilit(y)), new Cmp(fld("x"), EQ, fld("z")), new Cmp(fld("x"), LE, fld("b")), new Bin(new Cmp(fld("x"), EQ, ilit(Poly.of(3))), AND, new NotE(new Par(new Cmp(fld("s"), EQ, word(Str.atom("~w")))))),
            new In("x", true, List.of(ilit(Poly.of(1)), ilit(y))), new ToE("x", ilit(Poly.of(1)), ilit(y)), new Cmp(new Ar(fld("x"), ADD, fld("z")), GT, ilit(Poly.of(5))), new ArrE("l", CONTAINS_ALL, List.of(ilit(Poly.of(1)), ilit(Poly.of(2)))));
        for (E e : es) {
            long t1 = System.currentTimeMillis(); long st = m.in.calls;
            State s = m.start();
            V d = new Model.Data("data").put("x", xi).put("z", zl).put("b", bd).put("s", V.Im.str(Str.atom("~s"))).put("l", m.arrayList(s, List.of(xi, zl))).build(s);
            List<Model.Res> r = m.bool(s, e, d);
            System.out.println("## " + e + "  " + (System.currentTimeMillis() - t1) + "ms steps " + m.in.steps + " calls " + (m.in.calls - st) + " outs " + r.size());
            for (Model.Res q : r) System.out.println("   " + q + "  | " + q.s.facts + (q.tainted() ? "  TAINT " + q.taint() : "") + (q.kind.equals("value") ? "" : "\n       " + q.s.traceList()));
        }
        List<E> as = List.of(new Ar(fld("x"), ADD, fld("z")), new Ar(fld("x"), DIVIDE, ilit(Poly.of(4))), new Fun(SUM, List.of(fld("x"), fld("z"))), new Fun(MEDIAN, List.of(fld("x"), fld("z"), fld("x"))), new Neg(fld("x")));
        for (E e : as) {
            long t1 = System.currentTimeMillis();
            State s = m.start();
            V d = new Model.Data("data").put("x", xi).put("z", zl).put("b", bd).build(s);
            List<Model.Res> r = m.arith(s, e, d);
            System.out.println("## " + e + "  " + (System.currentTimeMillis() - t1) + "ms steps " + m.in.steps + " outs " + r.size());
            for (Model.Res q : r) System.out.println("   " + q + "  | " + q.s.facts + (q.tainted() ? "  TAINT " + q.taint() : "") + (q.kind.equals("value") ? "" : "\n       " + q.s.traceList()));
        }
    }
}
