NN, ST = S + "domain/", S + "datatype/"
LX = S + "parser/antlr/"
p("C10", "Evaluation has no side effects and no memory",
  "Evaluating or parsing an expression changes neither the caller's data (map, nested maps, lists, sets, arrays) nor an already parsed expression, and its outcome is determined by the expression, the data and the default field of this call. Whatever was parsed or evaluated before, with success or failure, by this or another evaluator, makes no difference.",
  ["inputs", "histories"], "all expressions, data and earlier evaluations", "tests evaluate once per fixture, mostly with a fresh parser; a write to the caller's data or a stale value shows up only in a later use",
  [BE, AE, LI, VU, CP], [("evaluators", BE), ("evaluators", AE), ("parsed tree", LI)], AI + "effect analysis (writes to caller-owned or shared objects) and continuation of one evaluation's end state into the next", "Every form of expression over every kind of data, twice, and pairs of evaluations with known outcome; longer histories by induction on an unchanged shared state.")
p("C11", "One evaluator may be used by many threads",
  "A BooleanExpressionEvaluator, ArithmeticExpressionEvaluator, BoolParser or CachedBoolParser shared by several threads gives every call the outcome it has alone: no call writes memory that another call reads or writes without synchronisation, and the shared registries are not changed after construction.",
  ["schedules"], "all interleavings of any number of evaluations and parses on shared instances", "the tests are single threaded; races appear only under particular interleavings",
  [BE, AE, BP, CP, LI, S + "operator/OperatorFactory.java", S + "function/FunctionFactory.java", DF], [("shared services", BE), ("parser", BP), ("cache", CP)], AI + "lockset and effect analysis: every write to an object or static field that existed before the call", "All expression forms; thread-safe JDK and Caffeine classes are trusted as documented. Static registries rewritten with equal entries by constructors are not counted.")
p("C12", "Failures are returned, never thrown",
  "Every call of evaluate and parseExpression returns a Try: evaluation of a condition succeeds only with a Boolean, an arithmetic evaluation only with a non-null value and parsing only with a node; everything else (null arguments, absent or unsuitable data, malformed expressions, foreign objects in the data) is a Failure. No exception escapes and null is never returned.",
  ["inputs"], "all expressions (malformed ones included), data and arguments", "tests exercise a few failing inputs; an uncaught path is reached only by a particular combination",
  [BE, AE, BP, CP, LI], [("evaluation entry", BE), ("evaluation entry", AE), ("parse entry", BP)], AI + "exception flow: every outcome of every entry point", "Every form of expression over every kind of data, null arguments, and parse trees with any one part missing; stack and memory exhaustion excluded.")
p("C13", "The cached parser is transparent and bounded",
  "CachedBoolParser returns for every expression and default field the same tree, or the same failure, as BoolParser, whatever was parsed before and whatever has been evicted; and it retains at most the configured number of parsed expressions.",
  ["inputs", "histories"], "all sequences of parses, expressions, default fields and evictions", "tests parse one or two expressions through a cache larger than the test",
  [CP, BP], [("cache", CP)], AI + "relational: cached against uncached parse, structurally, under every eviction pattern; heap reachability of retained trees", "Sequences of up to three parses over every form of expression with and without default field; the cache library through a bounded stub.")
CO, GP, GL = S + "constant/", LX + "BooleanExpressionParser.java", LX + "BooleanExpressionLexer.java"
p("C14", "Operators, functions and data types are registered consistently",
  "After construction of any evaluator or parser, every operator, function and data type constant has exactly one implementation, the one that reports that constant. Every symbol resolves, in any letter case, to its own constant and to nothing else, and symbols are pairwise distinct.",
  ["configurations", "inputs"], "all constants, all registered classes, all documented symbols and a list of near misses", "tests use most operators once; an entry overwritten by another or a symbol that resolves to a sibling shows for that entry only",
  [S + "operator/OperatorFactory.java", S + "function/FunctionFactory.java", DF, CO + "Operator.java", CO + "FunctionType.java"], [("operator registry", S + "operator/OperatorFactory.java"), ("function registry", S + "function/FunctionFactory.java"), ("symbols", CO + "Operator.java")],
  AI + "enumeration of the registries in the abstract heap after construction", "All constants and all concrete classes; symbols in four spellings each.")
p("C15", "Every data type accepts exactly what it can convert, exactly",
  "For every data type and value, the value is valid exactly when it can be converted; the converted value is of the type's class and denotes the same number, text, truth value or day as the original (numbers only if they fit). A list is valid exactly when all its elements are, and converts element by element in order.",
  ["inputs"], "all values of every kind (numbers of any width, texts, versions, dates, collections)", "tests convert a few constants per type; disagreement of the two methods and lossy conversion depend on the value",
  [ST, VU, CO + "ContainerDataType.java"], [("validation and conversion", ST), ("containers", CO + "ContainerDataType.java")],
  AI + "outcomes of isValid are continued into getValue and compared with the exact value", "Eight data types over symbolic values and constant odd texts; collections of up to two elements.")
p("C16", "Literals denote the value they spell",
  "A literal has, in every position of an expression, the type of its token and exactly the value it spells: whole numbers Integer when they fit, else Long, else the parse fails; decimals exactly; quoted texts unchanged between their own pair of quotes, whatever they contain; truth values, versions, dates and datetimes as written.",
  ["inputs"], "all literals of every token kind, in every position", "tests use small numbers and plain texts in a few positions; a text that looks like a number, holds quotes, or a number beyond int is rare",
  [LI, VU, S + "domain/"], [("literal handling", LI), ("value conversion", VU)],
  AI + "translation validation of the listener: the parsed tree against the tokens", "Symbolic literal values; every construct and operand position.")
p("C17", "The parsed tree has the structure of the expression",
  "The tree returned by parseExpression represents the expression as grouped by the grammar: every operator with its own operands on their own sides, every list item in order, nothing dropped, invented or exchanged, in every nesting. All spellings of a keyword or operator that the grammar allows give the same tree.",
  ["inputs", "programs"], "all expressions: every construct in every operand position of every other", "tests check about forty trees; a confusion of operands shows only for particular nestings",
  [LI, S + "domain/"], [("tree construction", LI)],
  AI + "translation validation of the listener: the parsed tree, read through its public getters, against the expression", "All pairs of constructs, three levels of nesting, repeated operands, lists to 40 items (thorough 130) and nests to 30 levels (thorough 60); deeper trees by the induction that a construct's node depends only on its own children's nodes. Parse trees are built as the grammar prescribes (C31).")
p("C18", "The default field stands for omitted operands only",
  "With a default field, an operand left out means that field, in every position; an operand written out always means itself. Without one (none, empty or blank), an expression with an omitted operand is a failure; expressions without omissions do not depend on the default field.",
  ["inputs", "configurations"], "all constructs and positions, default field names (none, empty, blank, dotted, equal to a field used)", "tests use a default field with two expressions",
  [LI, BP, BE], [("default field", LI)],
  AI + "translation validation of the listener under every default field; evaluation with symbolic data under both names", "Every construct with an omission in each position, six default fields.")
p("C19", "Dotted fields walk nested maps",
  "A field name with dots denotes the value reached through nested maps, one segment per level, and nothing else: not a key containing the dots, not an entry of another level. When any level is absent or not a map, the field is absent.",
  ["inputs"], "all data with up to twelve levels, decoy entries at every level", "tests look up one or two nested values in maps that hold nothing else",
  [VU, BE, AE], [("nested lookup", VU)], AI + "each outcome partition against the value at the path", "Names of one to twelve segments; every construct that reads a field; maps with decoys under every prefix and suffix; at every level the path may end in nothing, null, a text, a number, a list or array of values or of maps.")
p("C27", "Operators group by precedence",
  "An expression without parentheses groups as in SQL: unary minus, then ^, then * / %, then + -, then comparisons, then NOT, then AND, then OR; operators of one level group from left to right. Parentheses override this.",
  ["inputs"], "all ordered pairs of operators", "tests parenthesise almost every expression; a wrong grouping gives a value, not an error",
  [GP], [("precedence climbing", GP)], "automata over the generated parser's bytecode: precedence levels read from the code, every ordered pair of operators decided", "All pairs; longer chains follow from the pairs. The pairs that the shipped grammar groups differently are known findings.")
p("C28", "A registered data type stays registered",
  "A data type registered with DataTypeFactory.register is the one every evaluation uses from then on, no matter how many parsers and evaluators are constructed before or after, and leaves the other data types as they were.",
  ["histories", "configurations"], "every data type, registration before or after construction, any later constructions", "no test registers a data type and then constructs another evaluator",
  [DF, BE, AE, BP], [("data type registry", DF)], AI + "histories of register, construct and evaluate over the abstract heap", "Each data type, both orders, one construction of each service followed by an evaluation; longer histories repeat these steps.")
p("C29", "Every text is split into the documented tokens",
  "Keywords, operators, numbers, versions, dates, datetimes, quoted texts and field names are recognised as such, longest match first, for every possible text: keywords and function names in any letter case, a keyword inside a longer word is part of that word, blanks separate and are otherwise ignored, quoted texts end at their own kind of quote.",
  ["inputs"], "all texts over Unicode", "tests lex some hundred texts; a confusion of two token kinds needs a particular text",
  [GL], [("lexer tables", GL)], "automata: determinised lexer tables against the documented token language, product construction over all texts", "Exact over all texts of any length; that the lexer is given the expression's own text is checked on the code of both parsers. Spellings that the shipped grammar does not recognise are known findings.")
p("C30", "Outcomes do not depend on the environment",
  "Parsing and evaluation read nothing but their arguments and the registries: not the default locale, charset or time zone, random numbers, object identities, system settings, threads, files or the network. Only DAYS_ELAPSED reads the clock (and the time zone), anew in every evaluation.",
  ["configurations"], "all environments (locale, charset, time zone, properties)", "tests run in one locale and time zone; a dependence shows only under another one, such as Turkish",
  [BE, AE, BP, CP, S + "util/", S + "operator/", S + "function/"], [("services", BE), ("day count", S + "function/arithmetic/DaysElapsedFunction.java")], "call graph (class hierarchy analysis over bytecode) and a table of ambient inputs", "All repository methods reachable from the public entry points; calls made inside libraries are trusted.")
p("C31", "The parser accepts the documented syntax and labels it correctly",
  "The parser recognises every rule of the documented grammar and nothing else, and hands each part (operator, left and right operand, list, bounds, NOT of NOT IN) to the tree builder under its own name; the tables that drive prediction describe the same language as the code.",
  ["inputs"], "all token sequences", "tests parse some hundred expressions; a missing alternative or a swapped label concerns one construct",
  [GP, S[:-len("com/github/sidhant92/boolparser/")] + "resources/BooleanExpression.g4"], [("rule methods", GP), ("prediction tables", GP)], "automata: control flow of the generated rule methods and the serialised tables against the documented grammar, as regular languages per rule", "Exact per rule for all token sequences: lookahead tokens and predictions are followed value by value, a branch on anything else is tried both ways and must not matter, and the code after each predicted alternative must be that alternative's in the tables. Recovery after syntax errors is outside.")

p("N01", "Malformed expressions are rejected",
  "An expression that the grammar does not derive gives a Failure, never an evaluation of some repaired reading of it.",
  ["inputs"], "all texts that are no expression", "tests try a few malformed texts", [LI, GP], [("error recovery", GP)], "", "")
p("N02", "EXPONENT is numerically accurate",
  "a ^ b is the power rounded to the nearest representable decimal for all numbers, or exact when it is a whole number.",
  ["inputs"], "all numbers", "tests use small powers", [S + "operator/arithmetic/ExponentOperator.java"], [("power", S + "operator/arithmetic/ExponentOperator.java")], "", "")
p("N03", "Nesting depth is limited only by memory",
  "Expressions nested to any depth are parsed and evaluated, or fail with a Failure, without exhausting the stack.",
  ["inputs"], "all nesting depths", "tests nest three levels", [LI, BE], [("recursion", BE)], "", "")
p("N04", "Parsing and evaluation take time linear in their input",
  "The time for a parse or evaluation grows at most linearly with the expression and the lists it reads; a cached parse takes constant time.",
  ["inputs"], "all sizes", "tests measure nothing", [GP, CP], [("prediction", GP)], "", "")
NA += [("N01", "Rejection depends on ANTLR's run-time error recovery (token deletion and insertion by DefaultErrorStrategy) on arbitrary inputs; the library keeps the recovered tree, so the set of accepted texts is decided by the recovery heuristics and not by a construct in this repository. A static rule 'an error listener that throws is installed' would reject the shipped code without deciding the property."),
       ("N02", "The result of Math.pow on doubles has no exact symbolic description in the numeric domain of the analysis; its accuracy (ulps, conversion of BigDecimal operands beyond double) is a run-time numeric quantity. Which operand is base and which exponent, and that it fails rather than throws, is covered by C21 and C12."),
       ("N03", "The depth at which the stack overflows depends on frame sizes and the thread's stack limit, run-time quantities that no static argument in reach bounds; parser, tree builder and evaluators are recursive by design."),
       ("N04", "Running time of adaptive LL(*) prediction and of the JVM's collections is a run-time quantity; a static bound on it would need a cost model of ANTLR's prediction cache.")]
