package sa;

import java.util.*;
import static sa.Dsl.*;

/** The registry of properties. */
final class Checks {
    static final Map<String, Check> ALL = new LinkedHashMap<>();
    static final List<String> COMMON = List.of(
        "Library classes behave as documented: JDK value classes through the transfer functions in Lib/Natives, JDK collections, Vavr, commons-lang3 and ANTLR tree walking through their bytecode or the stubs in tool/stubs.",
        "The generated ANTLR parser builds, for a token sequence, the tree its grammar rules prescribe; trees are supplied by the analysis (Dsl.Builder).",
        "Float and Double operands stand for the number their shortest decimal text denotes; NaN and infinities are excluded.");
    static {
        ALL.put("C01", new CmpChecks.OneOrder());
        ALL.put("C02", new CmpChecks.Exact());
        ALL.put("C03", new LogicChecks.Range());
        ALL.put("C04", new LogicChecks.Truth());
        ALL.put("C05", new LogicChecks.Membership());
        ALL.put("C06", new LogicChecks.Contains());
        ALL.put("C07", new FailChecks.NullCheck());
        ALL.put("C08", new FailChecks.Missing());
        ALL.put("C09", new FailChecks.Gating());
        ALL.put("C10", new StateChecks.Pure());
        ALL.put("C11", new StateChecks.Shared());
        ALL.put("C12", new StateChecks.Contained());
        ALL.put("C13", new StateChecks.Cached());
        ALL.put("C14", new StructChecks.Registries());
        ALL.put("C15", new StructChecks.Types());
        ALL.put("C16", new StructChecks.Literals());
        ALL.put("C17", new StructChecks.Tree());
        ALL.put("C18", new StructChecks.DefaultField());
        ALL.put("C19", new StructChecks.Nested());
        ALL.put("C20", new ArithChecks.Whole());
        ALL.put("C21", new ArithChecks.Decimal());
        ALL.put("C22", new ArithChecks.Concat());
        ALL.put("C23", new ArithChecks.MinMaxSum());
        ALL.put("C24", new ArithChecks.Averages());
        ALL.put("C25", new ArithChecks.ModeLenInt());
        ALL.put("C27", new GrammarChecks.Precedence());
        ALL.put("C29", new GrammarChecks.Tokens());
        ALL.put("C30", new EnvChecks.Ambient());
        ALL.put("C31", new GrammarChecks.Syntax());
        ALL.put("C28", new StructChecks.Registered());
        ALL.put("C26", new ArithChecks.Days());
    }
}
