From a26b3d3822ad756e1e601c304cb2b6b310e914b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 01/20] fix: take each parsed operand from its own sub
 expression

The listener guessed where an operand was from what happened to be on top of
the node stack, and mapped list elements and function calls a second time. An
earlier clause could leak into a later comparison, parts of the expression
were dropped or failed to parse (i in (1,10) and i > 5, (i+1) > (i+2),
min((1+2)*3, 4), a = 1 OR min(1+2,4) > 5, i = 10 AND NOT t).
---
 .../parser/antlr/BooleanFilterListener.java   | 125 ++++++++----------
 1 file changed, 57 insertions(+), 68 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..b714758 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import java.util.Collections;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
@@ -62,8 +63,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
+        final Node leafNode = resolveOperand(ctx.exp);
         currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
         super.enterUnaryArithmeticExpression(ctx);
     }
@@ -98,31 +98,48 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private List<Node> getArrayElements(final List<ParseTree> trees) {
-        return trees
+        final List<ParseTree> elements = trees
                 .stream()
                 .filter(child -> !(child instanceof TerminalNodeImpl))
+                .collect(Collectors.toList());
+        Collections.reverse(elements);
+        final List<Node> items = elements
+                .stream()
                 .map(this::mapContextToNode)
                 .collect(Collectors.toList());
+        Collections.reverse(items);
+        return items;
     }
 
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
-            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
+    private Node mapContextToNode(final ParseTree tree) {
+        final ParseTree ctx = unwrapParent(tree);
+        if (ctx instanceof BooleanExpressionParser.NotExpressionContext || ctx instanceof BooleanExpressionParser.BinaryExpressionContext || ctx instanceof BooleanExpressionParser.ArrayExpressionContext) {
             throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
         }
+        return resolveOperand(ctx);
+    }
+
+    private ParseTree unwrapParent(final ParseTree tree) {
+        ParseTree ctx = tree;
+        while (ctx instanceof BooleanExpressionParser.ParentExpressionContext) {
+            ctx = ((BooleanExpressionParser.ParentExpressionContext) ctx).expression();
+        }
+        return ctx;
+    }
+
+    /**
+     * Resolves the node of a sub expression. A leaf is mapped directly, any other sub expression has already been visited and its node is on
+     * the top of the stack. When an expression has several sub expressions they must be resolved from right to left.
+     */
+    private Node resolveOperand(final ParseTree tree) {
+        final ParseTree ctx = unwrapParent(tree);
+        if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
+            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
+        }
+        if (currentNodes.isEmpty()) {
+            throw new InvalidExpressionException("Error parsing expression (missing operand)");
+        }
+        return currentNodes.pop();
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
@@ -156,45 +173,20 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
 
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        final ParseTree leftCtx = unwrapParent(ctx.left);
+        final ParseTree rightCtx = unwrapParent(ctx.right);
+        final boolean leftTyped = leftCtx instanceof BooleanExpressionParser.TypesExpressionContext && !(rightCtx instanceof BooleanExpressionParser.TypesExpressionContext);
+        final DataType dataType = getDataType(leftTyped ? ctx.left.getStart() : ctx.right.getStart());
+        final Node right = resolveOperand(rightCtx);
+        final Node left = resolveOperand(leftCtx);
+        return new ComparisonNode(left, right, operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        final Node right = resolveOperand(ctx.right);
+        final Node left = resolveOperand(ctx.left);
+        return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
@@ -277,16 +269,16 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
+        final ParseTree operand = unwrapParent(ctx.expression());
+        final Node node;
+        if (operand instanceof BooleanExpressionParser.TypesExpressionContext) {
+            final Token token = ((BooleanExpressionParser.TypesExpressionContext) operand).start;
+            final DataType dataType = getDataType(token);
+            node = new UnaryNode(dataType, ValueUtils.convertValue(token.getText(), dataType));
+        } else {
+            node = resolveOperand(operand);
         }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
-        currentNodes.add(booleanToken);
+        currentNodes.add(new BooleanNode(node, null, LogicalOperationType.NOT));
         super.exitNotExpression(ctx);
     }
 
@@ -298,11 +290,8 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
+        final Node firstNode = resolveOperand(ctx.right);
+        final Node secondNode = resolveOperand(ctx.left);
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
         final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
         currentNodes.add(booleanToken);
-- 
2.43.0


From 35f26755d8590b94396c8fecfffed68729ab6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 02/20] fix: give a single literal expression the type of its
 token

A lone literal was always turned into a string, so 5 evaluated to "5" and
true could not be evaluated at all.
---
 .../parser/antlr/BooleanFilterListener.java   | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index b714758..7dec176 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -5,7 +5,6 @@ import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
 import java.util.stream.Collectors;
-import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
@@ -32,16 +31,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private final Stack<Node> currentNodes;
 
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
-
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
         this.currentNodes = new Stack<>();
     }
 
@@ -257,9 +251,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         if (this.node == null && !this.currentNodes.isEmpty()) {
             this.node = currentNodes.pop();
         }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
+        if (this.node == null) {
+            final ParseTree expression = unwrapParent(ctx.expression());
+            if (expression instanceof BooleanExpressionParser.TypesExpressionContext && !StringUtils.isBlank(expression.getText())) {
+                this.node = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) expression);
+            }
         }
         if (this.node == null) {
             throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
@@ -282,12 +278,6 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         super.exitNotExpression(ctx);
     }
 
-    @Override
-    public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
-    }
-
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
         final Node firstNode = resolveOperand(ctx.right);
-- 
2.43.0


From b86f8204352336755504ca823019d48d821cb8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 03/20] fix: reject an omitted operand when there is no default
 field

It parsed to a field node without a name, which only failed when it was
evaluated, with a NullPointerException.
---
 .../boolparser/parser/antlr/BooleanFilterListener.java     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 7dec176..980bbff 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -137,8 +137,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
-        final String value = StringUtils.isBlank(ctx.getText()) ? defaultField : ctx.getText();
-        return new FieldNode(value);
+        final String field = getField(ctx.getText());
+        if (StringUtils.isBlank(field)) {
+            throw new InvalidExpressionException(String.format("Error parsing expression (missing field) for the string %s", ctx.getText()));
+        }
+        return new FieldNode(field);
     }
 
     private Node mapTypesExpressionContext(BooleanExpressionParser.TypesExpressionContext ctx) {
-- 
2.43.0


From d9e1fe4eae3b74fd8625e735f05e3539d639de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 04/20] fix: decide null checks by the presence of the field

null = field was always true, and a field holding the string "null" was
reported as null.
---
 .../application/BooleanExpressionEvaluator.java       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..7828721 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -89,11 +89,14 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            final boolean leftIsNull = comparisonToken.getLeft() instanceof FieldNode && ((FieldNode) comparisonToken.getLeft()).isNull();
+            final Node operand = leftIsNull ? comparisonToken.getRight() : comparisonToken.getLeft();
+            return getValue(operand, data).isPresent() != comparisonToken.getOperator().equals(Operator.EQUALS);
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From 11b6b2a43e4400ec3b4a14d884d585e7d9619b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 05/20] fix: do not answer false for expressions that are not
 boolean

A boolean field used on its own evaluated to false whatever its value, and an
arithmetic expression given to the boolean evaluator was a successful false.
---
 .../application/BooleanExpressionEvaluator.java    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 7828721..9cc47ec 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -68,8 +69,10 @@ public class BooleanExpressionEvaluator {
                 return evaluateUnaryToken((UnaryNode) node, data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
+            case FIELD:
+                return evaluateFieldToken((FieldNode) node, data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -172,6 +175,15 @@ public class BooleanExpressionEvaluator {
         return (boolean) fieldData;
     }
 
+    private boolean evaluateFieldToken(final FieldNode fieldNode, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(fieldNode.getField(), data)
+                                           .orElseThrow(() -> new DataNotFoundException(fieldNode.getField()));
+        if (!(fieldData instanceof Boolean)) {
+            throw new InvalidUnaryOperand();
+        }
+        return (boolean) fieldData;
+    }
+
     private boolean evaluateBooleanNode(final BooleanNode booleanToken, final Map<String, Object> data) {
         switch (booleanToken.getOperator()) {
             case AND:
-- 
2.43.0


From 14c907a80b73bfbdbba2d26b04066b2f9881daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 06/20] fix: keep the expression and the default field apart in
 the cache key

They were joined with an underscore, so (a = b, c_d) and (a = b_c, d) shared
one entry and the second caller got the first one's nodes.
---
 .../sidhant92/boolparser/parser/antlr/CachedBoolParser.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..b2bf05c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,6 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import org.apache.commons.lang3.tuple.Pair;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +8,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +26,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final Pair<String, String> cacheKey = Pair.of(expression, defaultField);
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 4be573ba17208a0bacc1e2f7f5fe13019541258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 07/20] fix: return whole results beyond the int range instead
 of failing

3000000000 / 1 failed with an ArithmeticException because every whole decimal
result was squeezed into an int.
---
 .../github/sidhant92/boolparser/util/ValueUtils.java   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..07d7d3a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.util;
 
 import java.math.BigDecimal;
+import java.math.BigInteger;
 import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
@@ -102,11 +103,18 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            return castInteger(value.toBigIntegerExact());
         }
         return value;
     }
 
+    public static Object castInteger(final BigInteger value) {
+        if (value.bitLength() < Long.SIZE) {
+            return castLong(value.longValue());
+        }
+        return new BigDecimal(value);
+    }
+
     public static DataType getNumericDataType(final String value) {
         final Optional<Integer> integerOptional = parseInteger(value);
         return integerOptional.isPresent() ? DataType.INTEGER : DataType.LONG;
-- 
2.43.0


From 79f0f7cbb97f34c16e73dc6ff0dca66d999f9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 08/20] fix: widen integer arithmetic instead of wrapping
 around

2147483647 - -1 was -2147483648, and sums, differences, products and
negations of longs lost everything beyond 64 bits without any failure.
---
 .../boolparser/operator/arithmetic/AddOperator.java  |  4 +++-
 .../operator/arithmetic/MultiplyOperator.java        |  4 +++-
 .../operator/arithmetic/SubtractOperator.java        | 12 +++++-------
 .../operator/arithmetic/UnaryOperator.java           |  6 ++++--
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..496cdb1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -28,7 +29,8 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castInteger(
+                BigInteger.valueOf(longDataType.getValue(leftOperand).get()).add(BigInteger.valueOf(longDataType.getValue(rightOperand).get())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..8aeea07 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -24,7 +25,8 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castInteger(
+                BigInteger.valueOf(longDataType.getValue(leftOperand).get()).multiply(BigInteger.valueOf(longDataType.getValue(rightOperand).get())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..07d1380 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -8,8 +9,8 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
-import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -23,12 +24,9 @@ public class SubtractOperator extends AbstractOperator {
             final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
             return decimalDataType.getValue(leftOperand).get().subtract(decimalDataType.getValue(rightOperand).get());
         }
-        if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
-            final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
-        }
-        final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
+        return ValueUtils.castInteger(
+                BigInteger.valueOf(longDataType.getValue(leftOperand).get()).subtract(BigInteger.valueOf(longDataType.getValue(rightOperand).get())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..e59de9a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,14 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -20,9 +22,9 @@ public class UnaryOperator extends AbstractOperator {
             return ((BigDecimal) leftOperand).negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
+            return ValueUtils.castInteger(BigInteger.valueOf((long) leftOperand).negate());
         }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(-(long) (int) leftOperand);
     }
 
     @Override
-- 
2.43.0


From 691eebd03fdd267e906c7376fd1f1dcd87ab6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 09/20] fix: negate Double and Float values

They are of the decimal type but are no BigDecimal, so -field failed with a
ClassCastException.
---
 .../boolparser/operator/arithmetic/UnaryOperator.java       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index e59de9a..0643084 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,6 +1,5 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
@@ -8,6 +7,8 @@ import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
@@ -19,7 +20,8 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
             return ValueUtils.castInteger(BigInteger.valueOf((long) leftOperand).negate());
-- 
2.43.0


From 2493628583c846419f8312cce5cf797eac8ab33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 10/20] fix: keep the exact value in MIN, MAX, SUM and AVG of
 longs

MIN, MAX and SUM passed longs through a double, which rounds values beyond
2^53, and SUM and AVG wrapped around at 64 bits.
---
 .../boolparser/function/arithmetic/AvgFunction.java        | 5 +++--
 .../boolparser/function/arithmetic/MaxFunction.java        | 4 ++--
 .../boolparser/function/arithmetic/MinFunction.java        | 4 ++--
 .../boolparser/function/arithmetic/SumFunction.java        | 7 ++++---
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..b36236f 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.BigInteger;
 import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
@@ -36,8 +37,8 @@ public class AvgFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+        final BigInteger sum = items
+                .stream().map(a -> BigInteger.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigInteger.ZERO, BigInteger::add);
         return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..464e715 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.BigInteger;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -35,9 +36,9 @@ public class SumFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum);
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(sum);
+        final BigInteger sum = items
+                .stream().map(a -> BigInteger.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigInteger.ZERO, BigInteger::add);
+        return ValueUtils.castInteger(sum);
     }
 
     @Override
-- 
2.43.0


From 5239069c51cbc976a1befcfcb0e32e6cab78acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 11/20] fix: average integers whose mean has more than two
 digits

AVG(1, 2, 2) failed with an ArithmeticException (rounding necessary); truncate
like the other divisions do.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index b36236f..26ede96 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -39,7 +39,7 @@ public class AvgFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final BigInteger sum = items
                 .stream().map(a -> BigInteger.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigInteger.ZERO, BigInteger::add);
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From 9ad926fdc9e4207dd3264a533d3b136c5cec037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 12/20] fix: keep whole numbers beyond the int range in INT

INT(3000000000) was -1294967296.
---
 .../boolparser/function/arithmetic/IntFunction.java          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..0f5051f 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -9,6 +9,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +20,10 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            return ValueUtils.castInteger(((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).toBigInteger());
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
-- 
2.43.0


From 1378ec9bbed5c289a22f6bf137940eb8b769edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 13/20] fix: accept every validated container in CONTAINS_ANY
 and CONTAINS_ALL

Sets and object arrays pass the container validation but were cast to List.
---
 .../boolparser/operator/comparison/ContainsAllOperator.java   | 4 +++-
 .../boolparser/operator/comparison/ContainsAnyOperator.java   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..d1ce617 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -20,8 +21,9 @@ public class ContainsAllOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
+        final Object[] leftOperands = leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray();
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperands)
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..c9c8f8b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -20,8 +21,9 @@ public class ContainsAnyOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
+        final Object[] leftOperands = leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray();
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperands)
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
-- 
2.43.0


From 62afbf66af5d46066f0725be48f44f13232c9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 14/20] fix: accept a single value in the aggregate functions

MIN(numbers) failed with an invalid container type when the list held one
number.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MeanFunction.java | 3 +--
 .../boolparser/function/arithmetic/MedianFunction.java         | 2 +-
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/ModeFunction.java | 3 +--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 3 +--
 7 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 26ede96..541bf9f 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -4,7 +4,6 @@ import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.math.RoundingMode;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -49,7 +48,7 @@ public class AvgFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 279aa49..d063010 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MaxFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
index 36ba128..f14e1b4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
@@ -1,7 +1,6 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -26,7 +25,7 @@ public class MeanFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
index 90f0d12..86c5061 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
@@ -47,7 +47,7 @@ public class MedianFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index 6b065d6..f4144e6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MinFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..685a595 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -56,7 +55,7 @@ public class ModeFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 464e715..d54a4ef 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -48,7 +47,7 @@ public class SumFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
-- 
2.43.0


From 78eb00a2591dda339b2a39e604d89939984e7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 15/20] fix: LEN of a collection is its number of elements

An empty collection failed, and a collection holding one string gave the
length of that string.
---
 .../application/ArithmeticExpressionEvaluator.java           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..324eeaf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -1,11 +1,13 @@
 package com.github.sidhant92.boolparser.application;
 
+import java.util.Collection;
 import java.util.List;
 import java.util.Map;
 import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -79,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .stream()
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
+        if (arithmeticFunctionNode.getFunctionType() == FunctionType.LEN && resolvedValues.size() == 1 && resolvedValues.get(0) instanceof Collection) {
+            return ((Collection<?>) resolvedValues.get(0)).size();
+        }
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
-- 
2.43.0


From 904468d374f066e22a96a5a97be218af740fcf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 16/20] fix: keep registered data types when another evaluator
 is created

Every evaluator re-initialises the factory, which replaced the data types the
user had registered.
---
 .../boolparser/datatype/DataTypeFactory.java     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
index db19a1f..00504de 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
@@ -16,14 +16,14 @@ public class DataTypeFactory {
     }
 
     public static void initialize() {
-        abstractDataTypeMap.put(DataType.STRING, new StringDataType());
-        abstractDataTypeMap.put(DataType.INTEGER, new IntegerDataType());
-        abstractDataTypeMap.put(DataType.DECIMAL, new DecimalDataType());
-        abstractDataTypeMap.put(DataType.LONG, new LongDataType());
-        abstractDataTypeMap.put(DataType.VERSION, new VersionDataType());
-        abstractDataTypeMap.put(DataType.BOOLEAN, new BooleanDataType());
-        abstractDataTypeMap.put(DataType.DATE, new DateDataType());
-        abstractDataTypeMap.put(DataType.DATETIME, new DateTimeDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.STRING, new StringDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.INTEGER, new IntegerDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DECIMAL, new DecimalDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.LONG, new LongDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.VERSION, new VersionDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.BOOLEAN, new BooleanDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DATE, new DateDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DATETIME, new DateTimeDataType());
     }
 
     public static AbstractDataType getDataType(final DataType dataType) {
-- 
2.43.0


From 47f6a5aaa7046b28637f6e0f8f91163de9e98a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 17/20] fix: recognise keywords whatever the default locale

min, contains_any and the other names holding an i were unknown under a
Turkish default locale.
---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 .../sidhant92/boolparser/datatype/BooleanDataType.java     | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
index 2384f64..9ec710e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.datatype;
 
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -21,7 +22,7 @@ public class BooleanDataType extends AbstractDataType<Boolean> {
     public boolean isValid(final Object value) {
         boolean isValid = super.defaultIsValid(value);
         if (!isValid) {
-            final String lowercase = value.toString().toLowerCase();
+            final String lowercase = value.toString().toLowerCase(Locale.ROOT);
             return lowercase.equals("true") || lowercase.equals("false");
         }
         return true;
-- 
2.43.0


From 79ffcf9c5de0e383e8d2a2a725fc42ddf85c1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 18/20] fix: reject date literals that are no date

2023-13-45 parsed to a node without a value.
---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 07d7d3a..471288a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -16,6 +16,7 @@ import java.util.stream.Collectors;
 import org.apache.maven.artifact.versioning.ComparableVersion;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.exception.InvalidDataType;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
@@ -73,9 +74,9 @@ public class ValueUtils {
             case VERSION:
                 return new ComparableVersion(value);
             case DATE:
-                return parseDate(value).orElse(null);
+                return parseDate(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid value %s for data type %s", value, dataType)));
             case DATETIME:
-                return parseDateTime(value).orElse(null);
+                return parseDateTime(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid value %s for data type %s", value, dataType)));
             default:
                 if (value.startsWith("'") && value.endsWith("'")) {
                     return value.substring(1, value.length() - 1);
-- 
2.43.0


From 40bc36f9ade9b71c224af67bd447082a9cb41f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 19/20] fix: the operand of NOT may be the default field, never
 the token after it

---
 .../boolparser/parser/antlr/BooleanFilterListener.java        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 980bbff..6e22470 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -270,7 +270,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
         final ParseTree operand = unwrapParent(ctx.expression());
         final Node node;
-        if (operand instanceof BooleanExpressionParser.TypesExpressionContext) {
+        if (operand instanceof BooleanExpressionParser.TypesExpressionContext && StringUtils.isBlank(operand.getText())) {
+            node = mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) operand);
+        } else if (operand instanceof BooleanExpressionParser.TypesExpressionContext) {
             final Token token = ((BooleanExpressionParser.TypesExpressionContext) operand).start;
             final DataType dataType = getDataType(token);
             node = new UnaryNode(dataType, ValueUtils.convertValue(token.getText(), dataType));
-- 
2.43.0


From e99a4e63aa6ddfd27dbb87d0286520c4ed6181c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 20/20] fix: reject days that do not exist instead of clamping
 them

2023-02-30 was read as 2023-02-28 and 24:00:00 as the next day.
---
 .../github/sidhant92/boolparser/datatype/DateDataType.java   | 3 ++-
 .../sidhant92/boolparser/datatype/DateTimeDataType.java      | 3 ++-
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 471288a..1888848 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -6,6 +6,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -165,8 +166,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0

