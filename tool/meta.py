#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run in /verif after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/main/java/com/github/sidhant92/boolparser/"
BE, AE, VU = S + "application/BooleanExpressionEvaluator.java", S + "application/ArithmeticExpressionEvaluator.java", S + "util/ValueUtils.java"
OS, FS, DF = S + "operator/OperatorService.java", S + "function/FunctionEvaluatorService.java", S + "datatype/DataTypeFactory.java"
LI, BP, CP = S + "parser/antlr/BooleanFilterListener.java", S + "parser/antlr/BoolParser.java", S + "parser/antlr/CachedBoolParser.java"
AI = "abstract interpretation of freshly compiled bytecode (trace-partitioned, symbolic numbers/texts/dates with interval and order facts); "
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

VALUES = "all values of the operands (every int, long, decimal, text, version, date, datetime, truth value), in every representation (data value, literal, computed operand)"
p("C01", "Comparison operators describe one order",
  "For any two operands, a comparison and its complement (= and !=, < and >=, > and <=) never both hold and never both fail to hold, and `a op b` has the same outcome as `b mirrored-op a`. When one of the two comparisons fails with an error, so does the other.",
  ["inputs"], VALUES, "the tests compare a few dozen constants per operator; agreement of two operators on every pair, boundaries and mixed types included, is quantified over all values",
  [OS, S + "operator/comparison/", S + "datatype/", BE], [("comparison operators", S + "operator/comparison/"), ("type selection", OS)],
  AI + "relational: outcomes of a op b are continued into the complementary and mirrored comparison", "All pairs of operand kinds and six operators, symbolic values; ComparableVersion and the JDK value classes through transfer functions.")
p("C02", "Comparisons of one kind are exact",
  "Comparing two operands of the same kind (numbers of any width, texts, versions, dates, datetimes, and truth values under = and !=) gives exactly the truth value of the numeric, lexicographic, version or calendar order. The result does not depend on how the operands are represented: int, long, float, double or decimal, data value or literal, single or double quotes.",
  ["inputs"], VALUES, "tests sample constants; precision loss, overflow or text comparison shows only at values they do not use (beyond 2^53, 2^31, equal decimals of different scale)",
  [OS, S + "operator/comparison/", S + "datatype/", VU], [("type widening", OS), ("value conversion", S + "datatype/")],
  AI + "each outcome partition against the exact order", "Every operator over every pair of representations of one kind, symbolic values.")
p("C03", "Ranges are inclusive and use the comparison order",
  "`field lo TO hi` is true exactly when the field's value is at least lo and at most hi in the order of the comparison operators, for every mixture of int, long and decimal values and bounds; it is false when lo exceeds hi. A field value that is absent or not comparable with a bound makes the evaluation fail instead of giving a truth value.",
  ["inputs"], "all field values and bounds", "tests use a handful of ranges with small integers",
  [BE, OS], [("range evaluation", BE)], AI + "each outcome partition against the conjunction of >= and <=", "Field kinds x literal bound kinds, symbolic values.")
p("C04", "AND, OR and NOT follow their truth table, left to right",
  "A boolean combination has the truth value of its operands' truth table; the right operand is evaluated only when the left one does not decide the result, so an error in an operand that is not needed never surfaces. An error in an operand that is needed makes the whole evaluation fail.",
  ["inputs", "programs"], "all operands (conditions of every form, true, false or failing), combinations of connectives up to four leaves and long chains", "tests pick few assignments and almost no failing operands; short-circuiting of errors is not sampled per connective",
  [BE, S + "domain/logical/BooleanNode.java"], [("connectives", BE)], AI + "each outcome partition against the three-valued table", "Every form of condition as operand; nesting up to four leaves, chains and nests of up to 34 with one open operand, other deeper nesting by induction over independent sub nodes.")
p("C05", "IN is the disjunction of equalities, NOT IN its negation",
  "`field IN (items)` is true exactly when the field's value equals (in the sense of =) at least one item, and `NOT IN` gives the opposite truth value. Items may be literals, other fields or computed values; an item or field that is absent from the data makes the evaluation fail.",
  ["inputs"], "all field values and item lists up to three (four) items of every kind, up to 34 with one open item", "tests list a few constants; type mixtures, position in the list and boundary values are unsampled",
  [BE, S + "operator/comparison/InOperator.java", OS], [("membership", S + "operator/comparison/InOperator.java")], AI + "each outcome partition against the disjunction of element equalities", "Lists of one to four items, and of up to 34 with one open item; other longer lists are treated uniformly by the code.")
p("C06", "CONTAINS_ANY and CONTAINS_ALL quantify over elements",
  "For a field holding a list, set or array, `CONTAINS_ANY` is true exactly when some argument equals some element and `CONTAINS_ALL` exactly when every argument does, whatever the order, duplicates or size of either side. A field that is not a collection, and arguments of different types, make the evaluation fail.",
  ["inputs"], "all collections and argument lists up to the enumerated sizes", "tests use few fixed lists",
  [BE, S + "operator/comparison/ContainsAnyOperator.java", S + "operator/comparison/ContainsAllOperator.java", S + "constant/ContainerDataType.java"], [("containment", S + "operator/comparison/ContainsAllOperator.java")], AI + "each outcome partition against the quantified element equality", "Collections and argument lists of up to two (thorough: three) symbolic elements plus constant ones of up to three.")
p("C07", "Null checks test presence only",
  "`field = null` is true exactly when the field (also a nested one) has no value in the data, `field != null` exactly when it has one, on either side of the operator and in any letter case of null. The outcome never depends on the type or value of what is present and is never an error.",
  ["inputs"], "all data values (every kind, collections, maps), literals and computed operands, present, absent, null or nested", "tests check presence for one or two kinds",
  [BE, S + "domain/FieldNode.java", S + "operator/comparison/"], [("null comparison", BE)], AI + "outcome must be presence alone", "Every operand kind and position; nested maps two levels deep.")
p("C08", "Absent data makes the evaluation fail, never a value",
  "When an operand that has to be evaluated refers to a field without a value in the data (absent, null, or below something that is not a map), the evaluation fails: it never yields true, false, a number or a text computed from a substitute. This holds for every operator, function, list item and connective position.",
  ["inputs"], "every operator and function, every operand position, every way to be absent", "tests cover a few operators with one missing field",
  [BE, AE, VU], [("lookup failure", BE), ("lookup failure", AE)], AI + "every reachable outcome must be a failure", "All operators x positions x kinds of the other operand.")
p("C09", "Operands of the wrong kind are rejected",
  "An operator or function applied to operands of a kind it does not support (ordering truth values, arithmetic on dates or texts, aggregates over non-numbers, a number against a version or a non-numeric text, a value that is not a truth value used as a condition, a condition given to the arithmetic evaluator) makes the evaluation fail. It never yields an arbitrary value; equality of a text with a value of another kind compares texts.",
  ["inputs"], "all pairs of operand kinds for all operators and functions, all values", "tests try a few wrong combinations; a type added to one allow list is unsampled",
  [OS, FS, S + "operator/", S + "function/", S + "constant/ContainerDataType.java", BE, AE], [("allowed types", OS), ("allowed types", FS)], AI + "every reachable outcome must be a failure or the documented text comparison", "Full kind matrix, symbolic values.")
p("C20", "Integer arithmetic is exact",
  "+, -, *, % and unary minus over integers give the exact mathematical result for all int and long operands, without wrap-around or rounding: + - * and negation return an Integer when the result fits, else a Long, else a BigDecimal; % has the sign of its left operand and fails for a zero right operand. Nested arithmetic and comparisons over arithmetic use the exact intermediate values.",
  ["inputs"], "all int and long values, data and literals, nesting up to three operators, long chains", "tests use small numbers; overflow and class boundaries are unsampled",
  [S + "operator/arithmetic/", VU, AE], [("arithmetic operators", S + "operator/arithmetic/"), ("result narrowing", VU)], AI + "results as exact polynomials in the operands", "Exact polynomial normal forms; nesting up to three operators, deeper nesting by induction.")
p("C21", "Decimal arithmetic is exact, quotients are cut to three places",
  "+, - and * with a decimal operand give the exact decimal result. / gives the exact quotient cut off (towards zero) after three decimal places, as a whole number when it is one; dividing by zero fails. ^ raises the left operand to the right one; whole powers that a double represents exactly are exact.",
  ["inputs"], "all int, long, decimal, double and float operands, data and literals", "tests use few short decimals; rounding direction and scale matter only for other values",
  [S + "operator/arithmetic/", VU, S + "datatype/DecimalDataType.java"], [("division", S + "operator/arithmetic/DivideOperator.java"), ("decimal conversion", S + "datatype/DecimalDataType.java")], AI + "results as exact polynomials and exact rounded quotients", "Doubles stand for their shortest decimal text; of powers only operands, their sides and exactly representable constants are decided (see N02).")
p("C22", "+ with a text joins the texts in order",
  "When either operand of + is a text, truth value or version, the result is the text of the left operand followed by the text of the right operand, nothing added, dropped or converted. Numbers only add when both operands are numbers; a text that reads as a date counts as a date and is not joined.",
  ["inputs"], "all texts, truth values, versions and numbers on either side", "tests join one or two constants",
  [S + "operator/arithmetic/AddOperator.java", AE], [("text concatenation", S + "operator/arithmetic/AddOperator.java")], AI + "results as symbolic concatenations", "All kind pairs with a text-like operand.")
p("C23", "MIN, MAX and SUM are exact over all their values",
  "MIN, MAX and SUM return the exact smallest, largest and total of the given numbers, whatever their order, duplicates, mixture of int, long and decimal, and whether they come as arguments, in a collection or both. Whole results are narrowed to Integer or Long when they fit.",
  ["inputs"], "all numbers, one to four values in every mixture of representations, up to 34 with one open value", "tests use a few short constant lists",
  [S + "function/arithmetic/", FS, VU], [("aggregates", S + "function/arithmetic/"), ("flattening", VU)], AI + "results as exact terms under the order facts of each partition", "Up to four symbolic values, 5 to 34 with one; the functions treat further values uniformly.")
p("C24", "AVG, MEAN and MEDIAN follow their definitions",
  "AVG and MEAN return the exact total divided by the number of values, cut off (towards zero) after two decimal places for integers and three when a decimal is among them. MEDIAN returns the middle value in numeric order, for an even count the half sum of the two middle values cut off after two places; whole results are whole numbers.",
  ["inputs"], "all numbers, one to four values in every mixture of representations, up to 34 with one open value", "tests use a few short constant lists",
  [S + "function/arithmetic/AvgFunction.java", S + "function/arithmetic/MedianFunction.java", S + "function/arithmetic/MeanFunction.java"], [("averages", S + "function/arithmetic/AvgFunction.java"), ("median", S + "function/arithmetic/MedianFunction.java")], AI + "results as exact rounded quotients under the order facts of each partition", "Up to four symbolic values plus lists of up to 34 with one open value.")
p("C25", "MODE, LEN and INT follow their definitions",
  "MODE over integers returns a most frequent value, on a tie the one that reaches the highest count first. LEN returns the number of characters of a text, of elements of a collection, or of arguments; INT returns its number cut off to a whole number (towards zero) without losing high digits.",
  ["inputs"], "all integers (MODE, up to four values, up to 34 with one open), texts, collections up to 34 elements, all numbers (INT)", "tests use a few constants",
  [S + "function/arithmetic/ModeFunction.java", S + "function/arithmetic/LenFunction.java", S + "function/arithmetic/IntFunction.java"], [("mode", S + "function/arithmetic/ModeFunction.java"), ("len", S + "function/arithmetic/LenFunction.java"), ("int", S + "function/arithmetic/IntFunction.java")], AI + "results as exact terms under the equality facts of each partition", "MODE is constrained for integers of one width: decimals are grouped by BigDecimal equality by design.")
p("C26", "DAYS_ELAPSED counts days from the date to today",
  "DAYS_ELAPSED of a date (date value, date text or literal) is the number of calendar days from that date to the current day in the system's time zone, negative for future dates, as a Long. It takes exactly one date and fails otherwise.",
  ["inputs", "configurations"], "all dates, all current days", "tests can only compare against the day they run on and use dates nearby",
  [S + "function/arithmetic/DaysElapsedFunction.java"], [("day count", S + "function/arithmetic/DaysElapsedFunction.java")], AI + "result as an exact difference of epoch days", "The clock is a symbolic day.")

IMPLEMENTED = [x["id"] for x in P]
NA = []
exec(open(os.path.join(ROOT, "tool", "meta2.py")).read()) if os.path.exists(os.path.join(ROOT, "tool", "meta2.py")) else None

P.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash ./setup.sh",
     "checks": [{"property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough", "evidence_file": f"evidence/{x['id']}.json",
                 "technique": x["technique"], "level": "other", "level_note": x["note"]} for x in P if x["technique"]],
     "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "Static analysis only: the checks compile /repo's current sources, never run them, and interpret the bytecode abstractly. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
for x in P: assert len(x["title"]) <= 80, x["title"]
print(len(P), "properties", len(m["checks"]), "checks", len(NA), "not applicable")
