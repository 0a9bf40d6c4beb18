From a2c94aec66cca152e213191c4906e8be1266ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 01/42] fix: keep literal text that precedes a ## comment and a
 $ that precedes a #

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From 088db7cae0a103e17d2b9c12090c1aa0ba338c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 02/42] fix: a dot that does not start an identifier ends the
 selector and stays literal text

---
 parser/select.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index acc1435..c4e8393 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
+	"github.com/viant/velty/parser/matcher"
 	"strconv"
 	"strings"
 )
@@ -110,7 +111,18 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
-		return MatchSelector(cursor)
+		dotPosition := cursor.Pos - 1
+		selector, err := MatchSelector(cursor)
+		if err == nil {
+			return selector, nil
+		}
+
+		if dotPosition+1 < cursor.InputSize && matcher.IsLetter(cursor.Input[dotPosition+1]) {
+			return nil, err
+		}
+
+		cursor.Pos = dotPosition //dot not followed by an identifier is a regular text
+		return nil, nil
 	case parenthesesToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-- 
2.43.0


From e0d7f45acff89c7fda5d1ed6bca1f4f51e2109e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 03/42] fix: apply operator precedence and left associativity,
 keep what follows a parenthesized operand

---
 binary.go         | 51 ++++++++++++++++++++++++++++++++++++++++++++
 expr.go           |  2 +-
 parser/expr.go    | 13 +-----------
 parser/operand.go | 54 +++--------------------------------------------
 4 files changed, 56 insertions(+), 64 deletions(-)

diff --git a/binary.go b/binary.go
index bf02779..024fe67 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -51,3 +52,53 @@ func notNilType(types ...reflect.Type) reflect.Type {
 
 	return nil
 }
+
+// rearrange applies operators precedence, the parser nests a chain of binary operators to the right:
+// the operands of "a - b * c - d" come as a - (b * (c - d)) and are regrouped into (a - (b * c)) - d.
+func rearrange(binary *expr.Binary) *expr.Binary {
+	var operators []ast.Token
+	operands := []ast.Expression{binary.X}
+	for {
+		operators = append(operators, binary.Token)
+		next, ok := binary.Y.(*expr.Binary)
+		if !ok {
+			break
+		}
+		operands = append(operands, next.X)
+		binary = next
+	}
+	operands = append(operands, binary.Y)
+
+	position := 0
+	var group func(minPrecedence int) ast.Expression
+	group = func(minPrecedence int) ast.Expression {
+		left := operands[position]
+		for position < len(operators) {
+			operator := operators[position]
+			if precedence(operator) < minPrecedence {
+				break
+			}
+			position++
+			left = expr.BinaryExpression(left, operator, group(precedence(operator)+1))
+		}
+		return left
+	}
+
+	return group(0).(*expr.Binary)
+}
+
+func precedence(token ast.Token) int {
+	switch token {
+	case ast.OR:
+		return 0
+	case ast.AND:
+		return 1
+	case ast.EQ, ast.NEQ:
+		return 2
+	case ast.LSS, ast.LEQ, ast.GTR, ast.GTE:
+		return 3
+	case ast.ADD, ast.SUB:
+		return 4
+	}
+	return 5
+}
diff --git a/expr.go b/expr.go
index fc8e819..901ee55 100644
--- a/expr.go
+++ b/expr.go
@@ -14,7 +14,7 @@ func (p *Planner) compileExpr(e ast.Expression) (*op.Expression, error) {
 	case *expr.Select:
 		return p.selectorExpr(actual)
 	case *expr.Binary:
-		return p.compileBinary(actual)
+		return p.compileBinary(rearrange(actual))
 	case *expr.Unary:
 		return p.compileUnary(actual)
 	case *expr.Parentheses:
diff --git a/parser/expr.go b/parser/expr.go
index db55394..0600348 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,9 +14,6 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
@@ -27,15 +24,7 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..653d962 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -27,21 +27,13 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 	case parenthesesToken:
 		text := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(text[1:len(text)-1]), 0)
-		token, expr, err := matchOperand(newCursor, candidates...)
+		matcher, expression, err = matchOperand(newCursor, candidates...)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
+		expression = &aexpr.Parentheses{P: expression}
 
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -119,29 +111,10 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 			return fmt.Errorf("assignment in expression is not allowed")
 		}
 
-		eprCursor, err := matchExpressionBlock(cursor)
-
-		var rightExpression ast2.Expression
-		if err == nil {
-			rightExpression, err = matchEquationExpression(eprCursor)
-			rightExpression = &aexpr.Parentheses{P: rightExpression}
-		} else {
-			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
-		}
-
+		_, rightExpression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
 
 		*expression = &aexpr.Binary{
 			X:     *expression,
@@ -150,24 +123,3 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		}
 	}
 }
-
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
-	}
-
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
-}
-- 
2.43.0


From 54bc94a7702a273ad43181f1e9989ee646707bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 04/42] fix: match two character post operators of #for loops
 as a whole

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  7 ++++---
 parser/token.go | 12 ++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..8d6f24d 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -74,7 +74,7 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		return nil, err
 	}
 
-	candidates := []*parsly.Token{Increment, Decrement, AddEqual, Add, SubEqual, Sub, MultiplyEqual, Multiply, QuoEqual, Quo}
+	candidates := []*parsly.Token{Increment, Decrement, AddEqual, SubEqual, MultiplyEqual, QuoEqual}
 	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
 	switch matched.Code {
@@ -97,12 +97,13 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}
 
 	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	matchedCode := matched.Code
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matchedCode)
 
 	return &stmt.Statement{
 		X:  variable,
diff --git a/parser/token.go b/parser/token.go
index dbd006d..b30d5f3 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -6,20 +6,20 @@ import (
 	"github.com/viant/velty/ast/expr"
 )
 
-func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matched *parsly.TokenMatch) (ast2.Token, ast2.Expression) {
-	switch matched.Code {
+func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matchedCode int) (ast2.Token, ast2.Expression) {
+	switch matchedCode {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.MUL, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.MUL, &expr.Parentheses{P: rightOperand})
 	case quoEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.QUO, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.QUO, &expr.Parentheses{P: rightOperand})
 	case addEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.ADD, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.ADD, &expr.Parentheses{P: rightOperand})
 	case subEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.SUB, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.SUB, &expr.Parentheses{P: rightOperand})
 	}
 
 	return token, rightOperand
-- 
2.43.0


From 626e38814e19bafa023ef22445f2cb60519b2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 05/42] fix: do not print operands of an equality check to
 stdout

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From 8cff818d07e8a7c0019c3983bf2e5389efda6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 06/42] fix: strings.HasPrefix checks the prefix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From 956f923ff7ffd96e2ecd0eb85edd1b72a95d44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 07/42] fix: pointer comparisons of nil, unsigned and float
 pointers

---
 est/expr/ptr.go | 83 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 80 insertions(+), 3 deletions(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..30b1172 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -235,11 +239,11 @@ func compareIntLessOrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if yPtr == nil && xPtr == nil {
-			return est.FalseValuePtr
+			return est.TrueValuePtr
 		}
 
 		if xPtr != nil && yPtr == nil {
-			return est.TrueValuePtr
+			return est.FalseValuePtr
 		}
 
 		if yPtr != nil && xPtr == nil {
@@ -979,6 +983,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
@@ -1283,6 +1312,9 @@ func compareBoolNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.FalseValuePtr
+			}
 			return est.TrueValuePtr
 		}
 
@@ -1303,6 +1335,9 @@ func compareBoolEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1323,6 +1358,9 @@ func compareIntNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1343,6 +1381,9 @@ func compareUintNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1363,6 +1404,9 @@ func compareUint8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1383,6 +1427,9 @@ func compareInt8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1403,6 +1450,9 @@ func compareInt16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1423,6 +1473,9 @@ func compareUint16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1443,6 +1496,9 @@ func compareInt32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1463,6 +1519,9 @@ func compareUint32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1583,6 +1642,9 @@ func compareIntPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1603,6 +1665,9 @@ func compareUintPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1623,6 +1688,9 @@ func compareFloat32PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1643,6 +1711,9 @@ func compareFloat64PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr == yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1663,6 +1734,9 @@ func compareFloat32PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
@@ -1683,6 +1757,9 @@ func compareFloat64PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
+			if xPtr != yPtr {
+				return est.TrueValuePtr
+			}
 			return est.FalseValuePtr
 		}
 
-- 
2.43.0


From 630fa3f68ae181577cbd3be88fabb87fef1cab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 08/42] fix: evaluate binary expressions with the type their
 operands are unified to

---
 binary.go          | 71 ++++++++++++++++++++++++++++++++++++++++++++--
 est/expr/binary.go | 27 +++++++++---------
 2 files changed, 82 insertions(+), 16 deletions(-)

diff --git a/binary.go b/binary.go
index 024fe67..912ac3f 100644
--- a/binary.go
+++ b/binary.go
@@ -1,12 +1,14 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
+	"unsafe"
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
@@ -20,7 +22,11 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	if x.Type == nil || y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of operand in binary expression %v", actual.Token)
+	}
+
+	unify, err := unifyOperands(x.Type, y.Type)
 	if err != nil {
 		return nil, err
 	}
@@ -28,11 +34,17 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	operandType := notNilType(unify.RType, x.Type)
+	resultType := types.NormalizeType(operandType)
+	switch actual.Token {
+	case ast.LEQ, ast.LSS, ast.GTR, ast.GTE, ast.NEQ, ast.EQ:
+		resultType = actual.Type()
+	}
+
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
-	computeNew, err := eexpr.Binary(actual.Token, x, y, resultExpr)
+	computeNew, err := eexpr.Binary(actual.Token, operandType, x, y, resultExpr)
 	if err != nil {
 		return nil, err
 	}
@@ -43,6 +55,59 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+// unifyOperands returns functions converting operands to one of the types supported by binary expressions.
+func unifyOperands(x, y reflect.Type) (*types.Unified, error) {
+	unify, err := types.NormalizeAndUnify(x, y)
+	if err != nil {
+		return nil, err
+	}
+
+	if x == y && x.Kind() == reflect.Ptr { //pointers of the same type are compared by values they point to
+		return &types.Unified{X: dereference, Y: dereference, RType: x}, nil
+	}
+
+	normalized := types.NormalizeType(unify.RType)
+	if x == y && x != normalized { //the same type, i.e. int64, but not supported directly
+		converted, err := types.New(normalized, x)
+		if err != nil {
+			return nil, err
+		}
+		unify = &types.Unified{X: converted.Y, Y: converted.Y, RType: normalized}
+	}
+
+	if unify.RType == intType {
+		unify.X = unsignedByteToInt(x, unify.X)
+		unify.Y = unsignedByteToInt(y, unify.Y)
+	}
+	return unify, nil
+}
+
+var intType = reflect.TypeOf(0)
+
+func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+	return *(*unsafe.Pointer)(pointer), nil
+}
+
+// unsignedByteToInt replaces converter of an uint8 that would have been taken for signed
+func unsignedByteToInt(from reflect.Type, fn types.UnifyFn) types.UnifyFn {
+	switch {
+	case from.Kind() == reflect.Uint8:
+		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			result := int(*(*uint8)(pointer))
+			return unsafe.Pointer(&result), nil
+		}
+	case from.Kind() == reflect.Ptr && from.Elem().Kind() == reflect.Uint8:
+		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			if pointer = *(*unsafe.Pointer)(pointer); pointer == nil {
+				return nil, nil
+			}
+			result := int(*(*uint8)(pointer))
+			return unsafe.Pointer(&result), nil
+		}
+	}
+	return fn
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
diff --git a/est/expr/binary.go b/est/expr/binary.go
index a9cd7d6..753877a 100644
--- a/est/expr/binary.go
+++ b/est/expr/binary.go
@@ -5,7 +5,6 @@ import (
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/velty/est/stmt"
 	"reflect"
 )
 
@@ -15,12 +14,9 @@ type binaryExpr struct {
 	z *op.Operand
 }
 
-func Binary(token ast.Token, exprs ...*op.Expression) (est.New, error) {
+// Binary creates a binary expression compute, operandType is the type both operands are unified to
+func Binary(token ast.Token, operandType reflect.Type, exprs ...*op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		if exprs[0].Type == nil {
-			return stmt.Selector(exprs[0], false)(control)
-		}
-
 		oprands, err := op.Expressions(exprs).Operands(control, false)
 		if err != nil {
 			return nil, err
@@ -29,12 +25,15 @@ func Binary(token ast.Token, exprs ...*op.Expression) (est.New, error) {
 		binary := &binaryExpr{x: oprands[op.X], y: oprands[op.Y], z: oprands[op.Z]}
 		indirect := binary.x.IsIndirect() || binary.y.IsIndirect()
 
-		rType := exprs[0].Type
-		if rType == nil {
-			rType = exprs[1].Type
+		if operandType.Kind() == reflect.Ptr {
+			return computePtr(operandType, token, binary, indirect)
+		}
+
+		if isPointer(exprs[op.X].Type) || isPointer(exprs[op.Y].Type) { //a pointer operand can be nil after unification
+			return computePtr(reflect.PtrTo(operandType), token, binary, indirect)
 		}
 
-		switch rType.Kind() {
+		switch operandType.Kind() {
 		case reflect.Int:
 			return computeBinaryInt(token, binary, indirect)
 		case reflect.Float64:
@@ -43,9 +42,11 @@ func Binary(token ast.Token, exprs ...*op.Expression) (est.New, error) {
 			return computeBinaryString(token, binary, indirect)
 		case reflect.Bool:
 			return computeBinaryBool(token, binary, indirect)
-		case reflect.Ptr:
-			return computePtr(rType, token, binary, indirect)
 		}
-		return nil, fmt.Errorf("unsupported %v as binary expression", exprs[0].Type.String())
+		return nil, fmt.Errorf("unsupported %v as binary expression", operandType.String())
 	}, nil
 }
+
+func isPointer(rType reflect.Type) bool {
+	return rType != nil && rType.Kind() == reflect.Ptr
+}
-- 
2.43.0


From 1d03255ab50d18db0349d49c5c1f3ed9c0e7bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 09/42] fix: convert an assigned value to the variable type,
 report a failed conversion

---
 est/op/operand.go         | 29 +++++++++++++----------------
 est/stmt/assign/bool.go   | 16 ++++++++++++----
 est/stmt/assign/float.go  | 16 ++++++++++++----
 est/stmt/assign/int.go    | 16 ++++++++++++----
 est/stmt/assign/string.go | 16 ++++++++++++----
 5 files changed, 61 insertions(+), 32 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..6c1edba 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -14,20 +14,25 @@ type Operand struct {
 	Comp       est.Compute
 	Type       reflect.Type
 	XType      *xunsafe.Type
-	unify      func(pointer unsafe.Pointer) unsafe.Pointer
+	unify      converter.UnifyFn
 	NamedIFace bool
 	Value      interface{}
 }
 
 func (o *Operand) Pointer(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.pointer(state))
+	return o.unifyPtr(state, o.pointer(state))
 }
 
-func (o *Operand) unifyPtr(pointer unsafe.Pointer) unsafe.Pointer {
-	if pointer != nil && o.unify != nil {
-		pointer = o.unify(pointer)
+func (o *Operand) unifyPtr(state *est.State, pointer unsafe.Pointer) unsafe.Pointer {
+	if pointer == nil || o.unify == nil {
+		return pointer
 	}
-	return pointer
+
+	unified, err := o.unify(pointer)
+	if err != nil {
+		state.AddError(err)
+	}
+	return unified
 }
 
 func (o *Operand) pointer(state *est.State) unsafe.Pointer {
@@ -39,7 +44,7 @@ func (o *Operand) pointer(state *est.State) unsafe.Pointer {
 }
 
 func (o *Operand) Exec(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.exec(state))
+	return o.unifyPtr(state, o.exec(state))
 }
 
 func (o *Operand) exec(state *est.State) unsafe.Pointer {
@@ -154,13 +159,5 @@ func (o *Operand) getXType(rType reflect.Type) reflect.Type {
 }
 
 func (o *Operand) SetUnifier(x converter.UnifyFn) {
-	var unify func(pointer unsafe.Pointer) unsafe.Pointer
-	if x != nil {
-		unify = func(pointer unsafe.Pointer) unsafe.Pointer {
-			ptr, _ := x(pointer)
-			return ptr
-		}
-	}
-
-	o.unify = unify
+	o.unify = x
 }
diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..8b10ad2 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	if src := a.y.Exec(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..973288d 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	if src := a.y.Exec(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..1ff8eb8 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,25 +19,33 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	if src := a.y.Exec(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignIntOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignIntSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..d40e535 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	if src := a.y.Exec(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
-- 
2.43.0


From 7f5ee8a1dfcae14c457f3cfc505bd499427e1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 10/42] fix: assign float32 and bool fields, never assign zero
 values shared by all states

---
 est/op/expr.go            | 10 ++++++-
 est/op/upstream.go        | 60 ++++++++++++++++++++++++++-------------
 est/stmt/assign/assign.go | 10 +++----
 3 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..aeae7d3 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+// IsDestination indicates that operand is assigned, value assigned to a selector with a nil parent is discarded
+type IsDestination bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var isDestination bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case IsDestination:
+			isDestination = bool(actual)
 		}
 	}
 
@@ -49,7 +55,9 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 	}
 
 	if e.Selector != nil {
-		if e.Selector != nil && e.Selector.Indirect {
+		if e.Selector.Indirect && isDestination {
+			operand.Comp = destination(e.Selector, shouldDerefLast)
+		} else if e.Selector.Indirect {
 			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
 		}
 
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..91dc1b0 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,45 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	zeroValuePtr := zeroValue(selector)
+	upstream := upstreamOrNil(selector, derefLast)
+
+	return func(state *est.State) unsafe.Pointer {
+		if ptr := upstream(state); ptr != nil {
+			return ptr
+		}
+		return zeroValuePtr
+	}
+}
+
+func zeroValue(selector *Selector) unsafe.Pointer {
+	switch selector.Type.Kind() {
+	case reflect.Bool:
+		return est.FalseValuePtr
+	case reflect.String:
+		return est.EmptyStringPtr
+	case reflect.Int:
+		return est.ZeroIntPtr
+	case reflect.Float64:
+		return est.ZeroFloatPtr
+	default:
+		return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
+	}
+}
+
+// destination returns a function returning a pointer to assign, values shared by states are never assigned
+func destination(selector *Selector, derefLast bool) func(state *est.State) unsafe.Pointer {
+	upstream := upstreamOrNil(selector, derefLast)
+	return func(state *est.State) unsafe.Pointer {
+		if ptr := upstream(state); ptr != nil {
+			return ptr
+		}
+		return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
+	}
+}
+
+// upstreamOrNil returns a function returning a selector pointer, or nil if any of its parents is nil
+func upstreamOrNil(selector *Selector, derefLast bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -28,29 +67,12 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 	parents[len(parents)-1] = selector
 	parentLen := len(parents)
 
-	var zeroValuePtr unsafe.Pointer
-	var value interface{}
-
-	switch selector.Type.Kind() {
-	case reflect.Bool:
-		zeroValuePtr = est.FalseValuePtr
-	case reflect.String:
-		zeroValuePtr = est.EmptyStringPtr
-	case reflect.Int:
-		zeroValuePtr = est.ZeroIntPtr
-	case reflect.Float64:
-		zeroValuePtr = est.ZeroFloatPtr
-	default:
-		value = reflect.New(selector.Type).Interface()
-		zeroValuePtr = xunsafe.AsPointer(value)
-	}
-
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return nil
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +114,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return nil
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..7df21b8 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -245,7 +245,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.IsDestination(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5a993013224e0ab175d35dae5cb29bdf9c6c4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 11/42] fix: truthiness of nil pointers, empty slices, structs
 and computed conditions

---
 est/expr/unary.go |  5 -----
 est/stmt/if.go    | 17 ++++++++++++++---
 unary.go          |  5 +++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/est/expr/unary.go b/est/expr/unary.go
index 59af281..8ddc01b 100644
--- a/est/expr/unary.go
+++ b/est/expr/unary.go
@@ -5,7 +5,6 @@ import (
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/velty/est/stmt"
 	"reflect"
 )
 
@@ -16,10 +15,6 @@ type unaryExpr struct {
 
 func Unary(token ast.Token, exprs ...*op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		if exprs[0].Type == nil {
-			return stmt.Selector(exprs[0], false)(control)
-		}
-
 		oprands, err := op.Expressions(exprs).Operands(control, false)
 		if err != nil {
 			return nil, err
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..9f14470 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -71,7 +71,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
+	if condition.New != nil && rType == nil {
 		rType = reflect.TypeOf(true)
 	}
 
@@ -89,8 +89,19 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
-		newOperand.SetUnifier(unify.Y)
+	switch {
+	case rType.Kind() == reflect.Slice: //empty slice is false
+	case rType.Kind() == reflect.Struct: //struct is never empty
+		newOperand.LiteralPtr = &est.TrueValuePtr
+		return newOperand, nil
+	case unify.Y != nil:
+		newOperand.SetUnifier(func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			unified, err := unify.Y(pointer)
+			if unified == nil { //nil pointer
+				unified = est.FalseValuePtr
+			}
+			return unified, err
+		})
 		rType = reflect.TypeOf(true)
 	}
 
diff --git a/unary.go b/unary.go
index 1f67680..0f092e5 100644
--- a/unary.go
+++ b/unary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	aexpr "github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -12,6 +13,10 @@ func (p *Planner) compileUnary(actual *aexpr.Unary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of operand in unary expression %v", actual.Token)
+	}
+
 	acc := p.accumulator(x.Type)
 
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
-- 
2.43.0


From dcab0f47ca984f9045eec48b269d58b90aa089e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 12/42] fix: index a slice or map held by a field, slices of
 pointers and interfaces, reject invalid indexes and field paths

---
 est/op/iface.go    | 11 +++++++++--
 est/op/map.go      |  4 +++-
 est/op/selector.go |  7 ++++++-
 est/op/slice.go    | 26 ++++++++++++++++++++++----
 est/op/upstream.go |  5 ++++-
 planner.go         | 13 ++++++++++---
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..b39ee44 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -17,10 +17,17 @@ func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	asInterface := xunsafe.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch actualValue.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice:
+		index, ok := i.aSlice.index(actualValue.Len(), state)
+		if !ok {
+			return nil
+		}
+		item := actualValue.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		return nil
 	}
 }
diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..0bb95a2 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -40,7 +40,9 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 
 	switch m.elemKind {
 	case reflect.Map, reflect.Slice:
-		return xunsafe.AsPointer(actualValue.Pointer())
+		elem := reflect.New(actualValue.Type())
+		elem.Elem().Set(actualValue)
+		return elem.UnsafePointer()
 	default:
 		return xunsafe.AsPointer(iface)
 	}
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..f320406 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,6 +1,7 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
@@ -114,7 +115,11 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
+	if indexOperand.Type == nil {
+		return nil, fmt.Errorf("couldn't determine index type of %v", parent.ID)
+	}
+
+	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
 	}
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..561e350 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -18,16 +18,34 @@ type Slice struct {
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	sliceLen := s.XSlice.Len(slicePtr)
 
+	index, ok := s.index(sliceLen, state)
+	if !ok {
+		return nil
+	}
+
+	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
+
+func (s *Slice) index(sliceLen int, state *est.State) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
-		return nil
+		return 0, false
+	}
+
+	if s.ToInter != nil {
+		var err error
+		if indexPtr, err = s.ToInter(indexPtr); err != nil {
+			state.AddError(err)
+		}
+		if indexPtr == nil {
+			return 0, false
+		}
 	}
 
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
+	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
-
+	return index, true
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 91dc1b0..d41bcf8 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -100,7 +100,10 @@ func upstreamOrNil(selector *Selector, derefLast bool) func(state *est.State) un
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Slice.Exec(ptr, state)
+				if ptr != nil && parents[i].Type.Kind() == reflect.Ptr && !shouldRef { //pointer to the item holding a pointer
+					ptr = xunsafe.DerefPointer(ptr)
+				}
 			} else if parents[i].Map != nil {
 				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
 			} else if parents[i].InterfaceExec != nil {
diff --git a/planner.go b/planner.go
index 68b0354..4432b8d 100644
--- a/planner.go
+++ b/planner.go
@@ -249,8 +249,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if _, isCall := actual.X.(*expr.Call); isCall {
+			return p.tryMatchCall(actual.X, resultSelector, actual.ID)
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
@@ -272,6 +272,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType == nil || parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType)
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
@@ -531,13 +535,16 @@ func (p *Planner) matchCall(call ast.Expression, selector *op.Selector, ID strin
 
 			return interfaceSelector, actual.Y, nil
 
-		default:
+		case reflect.Slice:
 			sliceSelector, err := p.newSliceSelector(ID, actual, selector)
 			if err != nil {
 				return nil, nil, err
 			}
 
 			return sliceSelector, actual.Y, nil
+
+		default:
+			return nil, nil, fmt.Errorf("can't index %v of type %v", strings.ReplaceAll(ID, fieldSeparator, "."), selector.Type)
 		}
 	}
 
-- 
2.43.0


From adf1f744ec97e34d1cf3fac3f09ba6dabdbb93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 13/42] fix: resolve fields of repeated and recursive types,
 and of embedded structs at any offset

---
 est/op/selector.go | 13 ++++++-----
 planner.go         | 55 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index f320406..4d5346f 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -24,8 +24,9 @@ type Selector struct {
 	ParentOffset    uintptr
 	Map             *Map
 	InterfaceExec   *Interface
-	Cycle           *Selector
+	Cycle           bool //fields are indexed on demand
 	IsFieldSelector bool
+	Anonymous       bool
 }
 
 //NewSelector create a selector
@@ -68,14 +69,14 @@ func newXField(name string, sType reflect.Type) *xunsafe.Field {
 }
 
 func SelectorWithField(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr) *Selector {
-	return newSelector(id, field, parent, indirect, offset, nil)
+	return newSelector(id, field, parent, indirect, offset, false)
 }
 
-func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
-	return newSelector(id, field, parent, indirect, offset, cycleSelector)
+func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr) *Selector {
+	return newSelector(id, field, parent, indirect, offset, true)
 }
 
-func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
+func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycle bool) *Selector {
 	return &Selector{
 		Type:         field.Type,
 		ID:           id,
@@ -83,7 +84,7 @@ func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect boo
 		Parent:       parent,
 		Indirect:     indirect,
 		ParentOffset: offset,
-		Cycle:        cycleSelector,
+		Cycle:        cycle,
 	}
 }
 
diff --git a/planner.go b/planner.go
index 4432b8d..30c7b9e 100644
--- a/planner.go
+++ b/planner.go
@@ -56,22 +56,26 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
-
-	if field.Anonymous {
+	cycleNode, hasCycle := cycleDetector.Child(field.Type, parent)
+	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
 		initialOffset += field.Offset
+		hasCycle = false //embedded value can't be recursive, its fields have to be indexed for each of the holders
 	}
 
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
-	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, hasCycle, fieldName)
+	if err != nil || hasCycle {
 		return err
 	}
 
+	if field.Anonymous && field.Type.Kind() == reflect.Ptr {
+		initialOffset = 0
+	}
+
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += field.Offset + initialOffset
 		initialOffset = 0
 
 		if prefix == "" {
@@ -93,12 +97,24 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
 }
 
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
+// indexCycleSelector indexes fields of the selector which type has been already indexed elsewhere, and returns one with given id
+func (p *Planner) indexCycleSelector(holderID string, selectorID string) (*op.Selector, bool) {
+	holder, ok := p.selectors.ById(holderID)
+	if !ok || !holder.Cycle {
+		return nil, false
 	}
-	return child, nil
+
+	if rType, _ := elemIfNeeded(holder.Type); rType == TimeType {
+		return nil, false
+	}
+
+	field := reflect.StructField{Name: holder.Field.Name, Type: holder.Type}
+	offset := holder.ParentOffset + holder.Field.Offset
+	if err := p.addChildrenSelectors(holderID+fieldSeparator, field, offset, 0, holder.Indirect, NewCycleDetector(holder.Type), holder); err != nil {
+		return nil, false
+	}
+
+	return p.selectors.ById(selectorID)
 }
 
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
@@ -132,7 +148,7 @@ func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.Struct
 	return nil
 }
 
-func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, cycleSelector *op.Selector, name string) (*op.Selector, error) {
+func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, hasCycle bool, name string) (*op.Selector, error) {
 	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
 		return parent, nil
 	}
@@ -141,13 +157,14 @@ func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField
 	newField.Offset += anonymousOffset
 	var err error
 	var fieldSelector *op.Selector
-	if cycleSelector != nil {
-		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset, cycleSelector)
+	if hasCycle {
+		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset)
 	} else {
 		fieldSelector = op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
 	}
 
 	if field.Anonymous {
+		fieldSelector.Anonymous = true
 		return fieldSelector, nil
 	}
 
@@ -205,7 +222,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 	parentType := resultSelector.Type
 	selectorId := selector.ID
 
-	upstreamSelector := p.copyWithParent(resultSelector, resultSelector.Parent)
+	upstreamSelector := resultSelector
 	for call != nil {
 		parentType = deref(parentType)
 		resultSelector, call, err = p.matchSelector(call, resultSelector, selectorId, parentType)
@@ -238,6 +255,9 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	selCopy := *dest
 	selCopy.Parent = parent
+	if dest.Func == nil && dest.Parent != nil && dest.Parent.Anonymous { //keep embedded pointers
+		selCopy.Parent = p.copyWithParent(dest.Parent, parent)
+	}
 	return &selCopy
 }
 
@@ -258,9 +278,12 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return nil, nil, err
 		}
 
+		holderId := selectorId
 		selectorId = selectorId + fieldSeparator + actual.ID
 		var found bool
-		resultSelector, found = p.selectors.ById(selectorId)
+		if resultSelector, found = p.selectors.ById(selectorId); !found {
+			resultSelector, found = p.indexCycleSelector(holderId, selectorId)
+		}
 		if !found {
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
-- 
2.43.0


From ff2ce5beb8fe91ecad53312cad824137c36fe2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 14/42] fix: bind a cached #evaluate template to the scope it
 was compiled with, synchronize compilation, report its errors

---
 cache.go    | 44 +++++++++++++++++++++++++++-----------------
 evaluate.go | 48 +++++++++++++++++++++++++++++++++++-------------
 2 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..d5c4c94 100644
--- a/cache.go
+++ b/cache.go
@@ -8,11 +8,18 @@ import (
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
+		cache     map[cacheKey]int
 		values    []*value
 		locker    sync.Locker
 	}
 
+	//cacheKey identifies a template and the scope it has been compiled with
+	cacheKey struct {
+		name   string
+		parent *Planner
+		fields int
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,40 +28,43 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]int{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
-	val, ok := c.cache[name]
-	if !ok {
-		return nil, false
+// getOrCompile returns cached value or one created with compile function, compilation is serialized as it updates data shared by planners
+func (c *cache) getOrCompile(key cacheKey, compile func() (*value, error)) (*value, error) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
+	if val, ok := c.cache[key]; ok {
+		return c.values[val], nil
 	}
 
-	return c.values[val], ok
+	aValue, err := compile()
+	if err != nil {
+		return nil, err
+	}
+
+	c.put(key, aValue)
+	return aValue, nil
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(key cacheKey, aValue *value) {
 	if c.cacheSize == 0 {
 		return
 	}
 
-	c.locker.Lock()
-	defer c.locker.Unlock()
 	c.cleanCacheIfNeeded()
-
-	c.values = append(c.values, &value{
-		planner: planner,
-		compute: compute,
-	})
-	c.cache[name] = len(c.values) - 1
+	c.values = append(c.values, aValue)
+	c.cache[key] = len(c.values) - 1
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
+		c.cache = map[cacheKey]int{}
 		c.values = c.values[:0]
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..8a39d59 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -4,6 +4,8 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"github.com/viant/xunsafe"
+	"reflect"
 	"unsafe"
 )
 
@@ -16,36 +18,56 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+	accessors := e.accessors(state)
+	key := cacheKey{name: varValue, parent: e.parent, fields: len(accessors)}
+	aValue, err := e.cache.getOrCompile(key, func() (*value, error) {
+		return e.compile(varValue)
+	})
+	if err != nil {
+		return est.EmptyStringPtr
 	}
 
-	block, err := parser.Parse([]byte(varValue))
+	newState := e.newState(aValue.planner, accessors, state)
+	defer func() {
+		state.Errors = append(state.Errors, newState.Errors...)
+	}()
+
+	return aValue.compute(newState)
+}
+
+func (e *evaluator) compile(template string) (*value, error) {
+	block, err := parser.Parse([]byte(template))
 	if err != nil {
-		return est.EmptyStringPtr
+		return nil, err
 	}
 
-	evaluatorPlanner := e.parent.New()
-	exec, err := evaluatorPlanner.newCompute(block)
+	planner := e.parent.New()
+	exec, err := planner.newCompute(block)
 	if err != nil {
-		return est.EmptyStringPtr
+		return nil, err
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	return &value{planner: planner, compute: exec}, nil
+}
 
-	return exec(newState)
+// accessors returns accessors of the variables held by the state, scope may have been enriched after the state was created
+func (e *evaluator) accessors(state *est.State) []*xunsafe.Field {
+	accessors := e.parent.Type.ValueAccessors()
+	if size := reflect.TypeOf(state.Mem).Elem().NumField(); size < len(accessors) {
+		return accessors[:size]
+	}
+	return accessors
 }
 
-func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
+func (e *evaluator) newState(planner *Planner, accessors []*xunsafe.Field, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
-	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
+	for _, valueAccessor := range accessors {
 		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
 	}
 
 	newState.Buffer = state.Buffer
+	newState.PanicOnError = state.PanicOnError
 	return newState
 }
 
-- 
2.43.0


From 6bfe85293d2fec04cd49f6db00c648ba424c6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 15/42] fix: convert a map key to the key type, report an
 invalid one instead of a panic

---
 est/op/map.go     | 12 +++++++++++-
 functions/maps.go | 11 ++++++++---
 keys/normalize.go | 19 +++++++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/est/op/map.go b/est/op/map.go
index 0bb95a2..dbe5dbf 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -28,7 +28,17 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	if anIndex == nil {
+		return nil
+	}
+
+	keyValue, err := keys.MapKey(reflect.ValueOf(anIndex), mapValue.Type().Key())
+	if err != nil {
+		state.AddError(err)
+		return nil
+	}
+
+	actualValue := mapValue.MapIndex(keyValue)
 	if !actualValue.IsValid() {
 		return nil
 	}
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..c723c40 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,12 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	keyValue, err := keys.MapKey(reflect.ValueOf(key), valueOf.Type().Key())
+	if err != nil {
+		return reflect.Value{}, err
+	}
+
+	return valueOf.MapIndex(keyValue), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +107,8 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		index, err := Maps{}.value(aMap, keys.Normalize(aKey))
+		return index.IsValid(), err
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..aee4b47 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,5 +1,10 @@
 package keys
 
+import (
+	"fmt"
+	"reflect"
+)
+
 func Normalize(key interface{}) interface{} {
 	if key == nil {
 		return nil
@@ -60,3 +65,17 @@ func Normalize(key interface{}) interface{} {
 	}
 	return key
 }
+
+// MapKey converts normalized key to the map key type
+func MapKey(key reflect.Value, keyType reflect.Type) (reflect.Value, error) {
+	if key.Type().AssignableTo(keyType) {
+		return key, nil
+	}
+
+	isText := key.Kind() == reflect.String || keyType.Kind() == reflect.String
+	if !key.Type().ConvertibleTo(keyType) || (isText && key.Kind() != keyType.Kind()) {
+		return key, fmt.Errorf("can't use %v as a map key of type %v", key.Type(), keyType)
+	}
+
+	return key.Convert(keyType), nil
+}
-- 
2.43.0


From a3aef611eaba2d6773a489b9d483e7d1e12e0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 16/42] fix: keep a single character function argument,
 normalize IndexBy keys

---
 functions/slices.go | 5 ++---
 parser/select.go    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index 9332897..b839e0d 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,9 +130,8 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			key := keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
+			resultMap.SetMapIndex(reflect.ValueOf(&key).Elem(), reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
diff --git a/parser/select.go b/parser/select.go
index c4e8393..695e495 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
@@ -186,7 +187,7 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for len(bytes.TrimSpace(cursor.Input[cursor.Pos:])) > 0 {
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 55bd0d0b45fd85c7f8da63b2ebdf45aef7561d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 17/42] fix: report a function called with invalid arguments
 instead of a panic, render functions returning interface

---
 est/op/func.go | 54 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..4aa998b 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -113,6 +113,9 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
+		if accumulator.Type.Kind() == reflect.Interface && accumulator.Type.NumMethod() == 0 {
+			return unsafe.Pointer(&anIface)
+		}
 		return xunsafe.AsPointer(anIface)
 	}
 
@@ -165,32 +168,32 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 
 	switch len(operands) {
 	case 0:
-		return caller.Call([]reflect.Value{}), nil
+		return f.call(caller, []reflect.Value{})
 	case 1:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
+		})
 
 	case 2:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
+		})
 
 	case 3:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
+		})
 
 	case 4:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
 			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+		})
 
 	default:
 		values := make([]reflect.Value, 0, len(operands))
@@ -203,8 +206,39 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 			values = append(values, f.ensureValue(anInterface, operands[i].Type))
 		}
 
-		return caller.Call(values), nil
+		return f.call(caller, values)
+	}
+}
+
+// call calls a function, numeric arguments are converted to the parameter type, an invalid call is reported as an error
+func (f *Func) call(caller reflect.Value, args []reflect.Value) ([]reflect.Value, error) {
+	callerType := caller.Type()
+	required := callerType.NumIn()
+	if callerType.IsVariadic() {
+		required--
+	}
+
+	if len(args) < required {
+		return nil, fmt.Errorf("not enough arguments in call to %v", f.Name)
+	}
+
+	for i := 0; i < required; i++ {
+		argType, paramType := args[i].Type(), callerType.In(i)
+		if argType.AssignableTo(paramType) {
+			continue
+		}
+
+		if !isNumeric(argType.Kind()) || !isNumeric(paramType.Kind()) {
+			return nil, fmt.Errorf("can't use %v as %v in call to %v", argType, paramType, f.Name)
+		}
+		args[i] = args[i].Convert(paramType)
 	}
+
+	return caller.Call(args), nil
+}
+
+func isNumeric(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Float64 && kind != reflect.Uintptr
 }
 
 func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Value {
-- 
2.43.0


From 0486e902474a1185295a6d8a45b4da235ed0cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 18/42] fix: reject #foreach with an item of another type,
 undefined function arguments and #evaluate of a non string at compilation

---
 planner.go | 4 ++++
 stmt.go    | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/planner.go b/planner.go
index 30c7b9e..860fbaa 100644
--- a/planner.go
+++ b/planner.go
@@ -448,6 +448,10 @@ func (p *Planner) selectorOperands(call *expr.Call, prev *op.Selector) ([]*op.Op
 			return nil, err
 		}
 
+		if expression.Type == nil {
+			return nil, fmt.Errorf("couldn't determine type of function argument")
+		}
+
 		operand, err := expression.Operand(*p.Control)
 		if err != nil {
 			return nil, err
diff --git a/stmt.go b/stmt.go
index 7d1acd6..b5e16dd 100644
--- a/stmt.go
+++ b/stmt.go
@@ -8,6 +8,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/stmt"
 	"github.com/viant/velty/est/stmt/assign"
+	"github.com/viant/xreflect"
 	"github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
@@ -136,6 +137,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type != itemType && selector.Type != xreflect.InterfaceType {
+		return nil, fmt.Errorf("can't iterate with %v of type %v over %v", actual.Item.ID, selector.Type, sliceSelector.Type)
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
@@ -167,5 +172,9 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("can't evaluate template of type %v", selector.Type)
+	}
+
 	return evaluate(selector, p.cache, p)
 }
-- 
2.43.0


From 312fee8f3ce298ce12081f70b4c5e559cff9c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 19/42] fix: call a function of a known signature by reflection
 unless its arguments have exactly the parameters types

---
 est/op/func.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 4aa998b..af8dd26 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -333,13 +333,13 @@ func (f *Functions) RegisterFunction(name string, function interface{}) error {
 
 func (f *Functions) NewFunc(name string, function interface{}, resultType reflect.Type) (*Func, error) {
 	if discoveredFn, rType, discovered := f.discover(nil, function); discovered {
-		return &Func{
-			Name:       name,
-			Function:   discoveredFn,
-			ResultType: rType,
-			XType:      xunsafe.NewType(rType),
-			Literal:    xunsafe.AsPointer(function),
-		}, nil
+		funcType := reflect.TypeOf(function)
+		aFunc, err := f.reflectFunc(name, function, funcType, rType)
+		if err != nil {
+			return nil, err
+		}
+		aFunc.Function = matchSignature(funcType, discoveredFn, aFunc.callFunc)
+		return aFunc, nil
 	}
 
 	var fType reflect.Type
@@ -357,6 +357,22 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 	return f.reflectFunc(name, function, fType, resultType)
 }
 
+// matchSignature returns a function calling discovered one with operands of exactly the parameters types, otherwise the reflected one
+func matchSignature(funcType reflect.Type, discovered, reflected Funeexpression) Funeexpression {
+	return func(operands []*Operand, state *est.State) (interface{}, error) {
+		if len(operands) != funcType.NumIn() {
+			return reflected(operands, state)
+		}
+
+		for i, operand := range operands {
+			if operand.Type != funcType.In(i) {
+				return reflected(operands, state)
+			}
+		}
+		return discovered(operands, state)
+	}
+}
+
 func (f *Functions) reflectFunc(name string, function interface{}, funcType reflect.Type, resultType reflect.Type) (*Func, error) {
 	caller := reflect.ValueOf(function)
 	ret, err := f.newFunc(name, funcType, resultType, caller, false)
-- 
2.43.0


From a6a7ff415977cdf174965bc80d7ee9aefd1652b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 20/42] fix: call functions without arguments, check variadic
 arguments

---
 est/op/func.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index af8dd26..4ffb334 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -123,10 +123,6 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 }
 
 func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
-		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
-	}
-
 	result, err := f.execute(operands, state)
 	if err != nil {
 		return nil, err
@@ -222,8 +218,15 @@ func (f *Func) call(caller reflect.Value, args []reflect.Value) ([]reflect.Value
 		return nil, fmt.Errorf("not enough arguments in call to %v", f.Name)
 	}
 
-	for i := 0; i < required; i++ {
-		argType, paramType := args[i].Type(), callerType.In(i)
+	for i := range args {
+		argType := args[i].Type()
+		var paramType reflect.Type
+		if i < required {
+			paramType = callerType.In(i)
+		} else {
+			paramType = callerType.In(required).Elem() //variadic argument
+		}
+
 		if argType.AssignableTo(paramType) {
 			continue
 		}
-- 
2.43.0


From a580713675208ea81b186e058f9e5fcbab15336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 21/42] fix: pass a receiver held by a slice or a map of
 pointers

---
 est/op/upstream.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index d41bcf8..ee0a11f 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -77,6 +77,10 @@ func upstreamOrNil(selector *Selector, derefLast bool) func(state *est.State) un
 
 		for i := 0; i < parentLen; i++ {
 			shouldRef := shouldRefLast && (i == parentLen-1)
+			isReceiver := i < parentLen-1 && parents[i+1].Func != nil
+			if isReceiver && parents[i].Type.Kind() == reflect.Ptr && (parents[i].Slice != nil || parents[i].Map != nil) {
+				shouldRef = true //receiver is passed by a pointer to the item
+			}
 			if parents[i].Literal != nil {
 				ptr = refIfNeeded(parents[i].Literal, shouldRef)
 			} else if parents[i].Func != nil {
@@ -109,7 +113,7 @@ func upstreamOrNil(selector *Selector, derefLast bool) func(state *est.State) un
 			} else if parents[i].InterfaceExec != nil {
 				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
 			} else {
-				if ((!derefLast || shouldRef) && i == parentLen-1) || (i < parentLen-1 && parents[i+1].Func != nil) {
+				if ((!derefLast || shouldRef) && i == parentLen-1) || isReceiver {
 					ptr = parents[i].Pointer(ptr)
 				} else {
 					ptr = parents[i].ValuePointer(ptr)
-- 
2.43.0


From 7532349121db7bb9b78f49bf0420bd5d715a6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 22/42] fix: reject a field of a slice, it was read from the
 slice header

---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index 860fbaa..8da6173 100644
--- a/planner.go
+++ b/planner.go
@@ -320,7 +320,7 @@ func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, sele
 func deref(rType reflect.Type) reflect.Type {
 	for {
 		switch rType.Kind() {
-		case reflect.Ptr, reflect.Slice:
+		case reflect.Ptr:
 			rType = rType.Elem()
 		default:
 			return rType
-- 
2.43.0


From 74d58786c825ca8866d0c932c92df84a38351dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 23/42] fix: evaluate a #for condition like one of #if

---
 est/stmt/for.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..a633d74 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 935ea770beaadd0226715852e670ae887653a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 24/42] fix: iterate over the slice #foreach started with when
 its variable is assigned

---
 est/stmt/foreach.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..32a4c50 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -17,8 +17,14 @@ type ForEach struct {
 	*xunsafe.Slice
 }
 
+// iterated returns a pointer to the copy of the slice header, body of the loop can assign the iterated variable
+func iterated(slicePtr unsafe.Pointer) unsafe.Pointer {
+	header := *(*[]byte)(slicePtr)
+	return unsafe.Pointer(&header)
+}
+
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := iterated(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -32,7 +38,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := iterated(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -46,7 +52,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := iterated(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -60,7 +66,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := iterated(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
@@ -73,7 +79,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
-	xPtr := *e.X.LiteralPtr
+	xPtr := iterated(*e.X.LiteralPtr)
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
-- 
2.43.0


From 258d56e16803675ba2014051133691b8d0085a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 25/42] fix: grow an empty buffer when a byte is appended

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From a0d9dc6b21ae145a1423ef839c24e9b5c569f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 26/42] fix: a comma in the #foreach header belongs to the
 index variable only when it follows the item

---
 parser/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lex.go b/parser/lex.go
index 21fef88..53fda60 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -132,7 +132,7 @@ var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("
 var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
 var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
-var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
+var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewByte(','))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
 var Dot = parsly.NewToken(dotToken, "Dot", matcher.NewByte('.'))
 
-- 
2.43.0


From edfbab7519abc9d79d8607066cb2d4d6bacbcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 27/42] fix: leave a field unchanged when the assigned value
 has not been converted

---
 est/stmt/assign/assign.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 7df21b8..ed19ba2 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -30,7 +30,9 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 
-				*(*int)(destPtr) = *(*int)(srcPtr)
+				if srcPtr != nil {
+					*(*int)(destPtr) = *(*int)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -51,7 +53,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int8)(destPtr) = *(*int8)(srcPtr)
+				if srcPtr != nil {
+					*(*int8)(destPtr) = *(*int8)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -70,7 +74,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int16)(destPtr) = *(*int16)(srcPtr)
+				if srcPtr != nil {
+					*(*int16)(destPtr) = *(*int16)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -89,7 +95,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int32)(destPtr) = *(*int32)(srcPtr)
+				if srcPtr != nil {
+					*(*int32)(destPtr) = *(*int32)(srcPtr)
+				}
 				return srcPtr
 			}
 		}
@@ -107,7 +115,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*string)(destPtr) = *(*string)(srcPtr)
+				if srcPtr != nil {
+					*(*string)(destPtr) = *(*string)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -125,7 +135,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float64)(destPtr) = *(*float64)(srcPtr)
+				if srcPtr != nil {
+					*(*float64)(destPtr) = *(*float64)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -143,7 +155,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(srcPtr)
+				if srcPtr != nil {
+					*(*float32)(destPtr) = *(*float32)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -162,7 +176,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(srcPtr)
+				if srcPtr != nil {
+					*(*bool)(destPtr) = *(*bool)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
-- 
2.43.0


From 74a47f56ab903b67083c935726dbce6a7c9ed6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 28/42] fix: read an uint8 as unsigned when it is assigned or
 used as an index

---
 binary.go          | 24 ++---------------------
 est/op/byte.go     | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 est/op/selector.go |  2 +-
 stmt.go            |  3 ++-
 4 files changed, 54 insertions(+), 24 deletions(-)
 create mode 100644 est/op/byte.go

diff --git a/binary.go b/binary.go
index 912ac3f..34e2a97 100644
--- a/binary.go
+++ b/binary.go
@@ -76,8 +76,8 @@ func unifyOperands(x, y reflect.Type) (*types.Unified, error) {
 	}
 
 	if unify.RType == intType {
-		unify.X = unsignedByteToInt(x, unify.X)
-		unify.Y = unsignedByteToInt(y, unify.Y)
+		unify.X = op.ByteConverter(intType, x, unify.X)
+		unify.Y = op.ByteConverter(intType, y, unify.Y)
 	}
 	return unify, nil
 }
@@ -88,26 +88,6 @@ func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return *(*unsafe.Pointer)(pointer), nil
 }
 
-// unsignedByteToInt replaces converter of an uint8 that would have been taken for signed
-func unsignedByteToInt(from reflect.Type, fn types.UnifyFn) types.UnifyFn {
-	switch {
-	case from.Kind() == reflect.Uint8:
-		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
-			result := int(*(*uint8)(pointer))
-			return unsafe.Pointer(&result), nil
-		}
-	case from.Kind() == reflect.Ptr && from.Elem().Kind() == reflect.Uint8:
-		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
-			if pointer = *(*unsafe.Pointer)(pointer); pointer == nil {
-				return nil, nil
-			}
-			result := int(*(*uint8)(pointer))
-			return unsafe.Pointer(&result), nil
-		}
-	}
-	return fn
-}
-
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
diff --git a/est/op/byte.go b/est/op/byte.go
new file mode 100644
index 0000000..5d723c6
--- /dev/null
+++ b/est/op/byte.go
@@ -0,0 +1,49 @@
+package op
+
+import (
+	"reflect"
+	"unsafe"
+
+	"github.com/viant/xunsafe/converter"
+)
+
+// ByteConverter replaces converters that would read an 8 bit integer with a wrong sign or width
+func ByteConverter(to, from reflect.Type, fn converter.UnifyFn) converter.UnifyFn {
+	fromPtr := from.Kind() == reflect.Ptr
+	if fromPtr {
+		from = from.Elem()
+	}
+
+	switch from.Kind() {
+	case reflect.Uint8:
+		switch to.Kind() {
+		case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
+			fn = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+				result := int(*(*uint8)(pointer))
+				return unsafe.Pointer(&result), nil
+			}
+		default:
+			return fn
+		}
+	case reflect.Int8:
+		if to.Kind() != reflect.Uint16 {
+			return fn
+		}
+		fn = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			result := uint16(*(*int8)(pointer))
+			return unsafe.Pointer(&result), nil
+		}
+	default:
+		return fn
+	}
+
+	if !fromPtr {
+		return fn
+	}
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		if pointer = *(*unsafe.Pointer)(pointer); pointer == nil {
+			return nil, nil
+		}
+		return fn(pointer)
+	}
+}
diff --git a/est/op/selector.go b/est/op/selector.go
index 4d5346f..5b9a852 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -128,7 +128,7 @@ func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*
 	return &Slice{
 		SliceOperand: sliceOperand,
 		IndexOperand: indexOperand,
-		ToInter:      toInt.Y,
+		ToInter:      ByteConverter(intType, indexOperand.Type, toInt.Y),
 		XSlice:       xunsafe.NewSlice(parent.Type),
 	}, nil
 }
diff --git a/stmt.go b/stmt.go
index b5e16dd..1415693 100644
--- a/stmt.go
+++ b/stmt.go
@@ -6,6 +6,7 @@ import (
 	"github.com/viant/velty/ast/expr"
 	stmt2 "github.com/viant/velty/ast/stmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/est/stmt"
 	"github.com/viant/velty/est/stmt/assign"
 	"github.com/viant/xreflect"
@@ -59,7 +60,7 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
-	y.Unify = unify.Y
+	y.Unify = op.ByteConverter(x.Type, y.Type, unify.Y)
 	y.Type = unify.RType
 
 	return assign.Assign(x, y)
-- 
2.43.0


From bb06580bf931eaadc6b403ecc922e7d4912e0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 29/42] fix: end an escaped block at its first ]]# whatever its
 body is

---
 parser/parser.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..359c175 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,12 +1,12 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -83,21 +83,25 @@ outer:
 	return builder.Block(), nil
 }
 
+var (
+	escapeStart = []byte("[[")
+	escapeEnd   = []byte("]]#")
+)
+
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
-			}
-		}
+	body := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(body, escapeStart) {
+		return nil, false
+	}
+
+	body = body[len(escapeStart):]
+	end := bytes.Index(body, escapeEnd)
+	if end == -1 {
+		return nil, false
 	}
 
-	cursor.Pos = lastCursorPos
-	return nil, false
+	cursor.Pos += len(escapeStart) + end + len(escapeEnd)
+	return stmt.NewAppend(string(body[:end])), true
 }
 
 func cursorErr(cursor *parsly.Cursor, err error) error {
-- 
2.43.0


From 362c720e12fda07b84c2787bed94c2ad49b03ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 30/42] fix: reject #set of a defined variable to an undefined
 value instead of crashing

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 1415693..d76c8c0 100644
--- a/stmt.go
+++ b/stmt.go
@@ -51,6 +51,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if y.Type == nil {
+		return nil, fmt.Errorf("can't assign an undefined value")
+	}
+
 	if err = p.adjustSelector(x, y.Type); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 314a74342f3b1ecc3e5118825f548643c101be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 31/42] fix: accept a boolean literal as an index

---
 parser/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index 695e495..7557e19 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -141,7 +141,7 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	case squareBracketsToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-		_, expression, err := matchOperand(newCursor, Number)
+		_, expression, err := matchOperand(newCursor, Boolean, Number)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e4f24313f172f9acba4f59ba7c8f987a67e797b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 32/42] fix: keep the text around a reference in a string
 literal

---
 parser/operand.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/operand.go b/parser/operand.go
index 653d962..e00b8ff 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	ast2 "github.com/viant/velty/ast"
@@ -74,7 +75,8 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			if err != nil {
 				expression = aexpr.StringLiteral(value[:len(value)-1])
 			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
+				_, ok := expression.(*aexpr.Select)
+				if !ok || newCursor.Pos < newCursor.InputSize || len(bytes.TrimSpace(newCursor.Input)) < newCursor.InputSize { //text around a reference is a part of the string
 					expression = aexpr.StringLiteral(value[:len(value)-1])
 				}
 			}
-- 
2.43.0


From ef8aa87889ddf7fc63c0f1397c8bceabcb589d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 33/42] fix: evaluate a condition of a struct type

---
 est/stmt/if.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index 9f14470..57fe323 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -92,7 +92,10 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	switch {
 	case rType.Kind() == reflect.Slice: //empty slice is false
 	case rType.Kind() == reflect.Struct: //struct is never empty
-		newOperand.LiteralPtr = &est.TrueValuePtr
+		newOperand.Comp = func(state *est.State) unsafe.Pointer {
+			anOperand.Exec(state)
+			return est.TrueValuePtr
+		}
 		return newOperand, nil
 	case unify.Y != nil:
 		newOperand.SetUnifier(func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
-- 
2.43.0


From 322360aebbf32f437f987a783440706507e6a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:57 +0000
Subject: [PATCH 34/42] fix: #foreach over maps and over nil interface items

---
 est/stmt/foreach.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 32a4c50..d38d1da 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -23,14 +23,23 @@ func iterated(slicePtr unsafe.Pointer) unsafe.Pointer {
 	return unsafe.Pointer(&header)
 }
 
+func (e *ForEach) setItem(state *est.State, xPtr unsafe.Pointer, i int) {
+	switch itemType := e.Slice.Elem(); itemType.Kind() {
+	case reflect.Map, reflect.Interface: //a map is held as a pointer, an interface can be nil
+		item := reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(i)))
+		reflect.NewAt(e.Item.Type, e.Item.Exec(state)).Elem().Set(item.Elem())
+	default:
+		e.Item.Sel.SetValue(state.MemPtr, e.Slice.ValueAt(xPtr, i))
+	}
+}
+
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 	xPtr := iterated(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -70,8 +79,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -84,8 +92,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
-- 
2.43.0


From 1782acc6a995a3333a8ebb45e4f7a53ffbeadfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 35/42] fix: write narrow integers with their own size, not
 over the neighbouring memory

---
 est/op/func.go      |  2 +-
 est/state.go        |  2 ++
 est/stmt/foreach.go |  3 ++-
 est/utils.go        | 16 +++++++++++++++-
 evaluate.go         |  3 ++-
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 4ffb334..9b6c32d 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -109,7 +109,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		state.AddError(err)
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		est.SetField(accumulator.Field, state.MemPtr, anIface)
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/state.go b/est/state.go
index c86d84e..09bb595 100644
--- a/est/state.go
+++ b/est/state.go
@@ -29,6 +29,8 @@ func (s *State) SetValue(k string, v interface{}) error {
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
 		xField.SetValue(s.MemPtr, v)
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		SetField(xField, s.MemPtr, v)
 	default:
 		xField.Set(s.MemPtr, v)
 	}
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index d38d1da..3175aab 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -25,7 +25,8 @@ func iterated(slicePtr unsafe.Pointer) unsafe.Pointer {
 
 func (e *ForEach) setItem(state *est.State, xPtr unsafe.Pointer, i int) {
 	switch itemType := e.Slice.Elem(); itemType.Kind() {
-	case reflect.Map, reflect.Interface: //a map is held as a pointer, an interface can be nil
+	case reflect.Map, reflect.Interface, //a map is held as a pointer, an interface can be nil
+		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32: //narrower than the machine word
 		item := reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(i)))
 		reflect.NewAt(e.Item.Type, e.Item.Exec(state)).Elem().Set(item.Elem())
 	default:
diff --git a/est/utils.go b/est/utils.go
index 17e2eb8..6b6eb87 100644
--- a/est/utils.go
+++ b/est/utils.go
@@ -1,6 +1,10 @@
 package est
 
-import "unsafe"
+import (
+	"github.com/viant/xunsafe"
+	"reflect"
+	"unsafe"
+)
 
 var trueValue = true
 var falseValue = false
@@ -15,3 +19,13 @@ var ZeroIntPtr = unsafe.Pointer(&zeroInt)
 
 var zeroFloat = 0.0
 var ZeroFloatPtr = unsafe.Pointer(&zeroFloat)
+
+// SetField sets a struct field, a field narrower than the machine word has to be written with its own size
+func SetField(field *xunsafe.Field, structPtr unsafe.Pointer, value interface{}) {
+	switch field.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem().Set(reflect.ValueOf(value).Convert(field.Type))
+	default:
+		field.SetValue(structPtr, value)
+	}
+}
diff --git a/evaluate.go b/evaluate.go
index 8a39d59..435fef4 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -63,7 +63,8 @@ func (e *evaluator) newState(planner *Planner, accessors []*xunsafe.Field, state
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range accessors {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+		value := reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(state.MemPtr))
+		reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(newState.MemPtr)).Elem().Set(value.Elem())
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From 942b86e1551ef08727b8c03f5a7edca0473669ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 36/42] fix: resolve the fields of a path by the names they are
 declared under

---
 planner.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/planner.go b/planner.go
index 8da6173..f477d22 100644
--- a/planner.go
+++ b/planner.go
@@ -273,18 +273,18 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return p.tryMatchCall(actual.X, resultSelector, actual.ID)
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
-			return nil, nil, err
-		}
-
 		holderId := selectorId
 		selectorId = selectorId + fieldSeparator + actual.ID
 		var found bool
-		if resultSelector, found = p.selectors.ById(selectorId); !found {
-			resultSelector, found = p.indexCycleSelector(holderId, selectorId)
+		if parentType != nil && parentType.Kind() == reflect.Struct {
+			if resultSelector, found = p.selectors.ById(selectorId); !found {
+				resultSelector, found = p.indexCycleSelector(holderId, selectorId)
+			}
 		}
 		if !found {
+			if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+				return nil, nil, err
+			}
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
 
-- 
2.43.0


From 3d864b8f1ea0e8333217185ec8474b3aebcb18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 37/42] fix: reject a map indexed by an undefined variable

---
 est/op/selector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/op/selector.go b/est/op/selector.go
index 5b9a852..55c18c9 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -134,6 +134,10 @@ func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*
 }
 
 func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
+	if indexOperand.Type == nil {
+		return nil, fmt.Errorf("couldn't determine index type of %v", parent.ID)
+	}
+
 	return &Selector{
 		Type:        parent.Type.Elem(),
 		ID:          id,
-- 
2.43.0


From bab319f358a57b64b1fe85677dea538b9542daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 38/42] fix: #foreach over structs of one pointer

---
 est/stmt/foreach.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 3175aab..b1ff54c 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -26,6 +26,7 @@ func iterated(slicePtr unsafe.Pointer) unsafe.Pointer {
 func (e *ForEach) setItem(state *est.State, xPtr unsafe.Pointer, i int) {
 	switch itemType := e.Slice.Elem(); itemType.Kind() {
 	case reflect.Map, reflect.Interface, //a map is held as a pointer, an interface can be nil
+		reflect.Struct, reflect.Array, //a struct or an array of one pointer is held as that pointer
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32: //narrower than the machine word
 		item := reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(i)))
 		reflect.NewAt(e.Item.Type, e.Item.Exec(state)).Elem().Set(item.Elem())
-- 
2.43.0


From b0250ef1b0031ccb46025bfb717eab2e2a8883eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 39/42] fix: treat a bare functions namespace as an unknown
 reference

---
 planner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/planner.go b/planner.go
index f477d22..d3fe086 100644
--- a/planner.go
+++ b/planner.go
@@ -244,6 +244,10 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 		return opSelector, next, nil
 	}
 
+	if _, ok := p.selectors.Index[selector.ID]; !ok && selector.X == nil { //functions namespace is not a value
+		return nil, nil, nil
+	}
+
 	resultSelector := p.selectorByName(selector.ID)
 	if resultSelector != nil {
 		return resultSelector, selector.X, nil
@@ -351,6 +355,10 @@ func (p *Planner) adjustSelector(expr *op.Expression, t reflect.Type) error {
 		return fmt.Errorf("couldn't determine %v type", expr.Name)
 	}
 
+	if _, ok := p.Functions.FuncSelector(expr.Name, nil); ok {
+		return fmt.Errorf("can't assign %v, it is a functions namespace", expr.Name)
+	}
+
 	if err := p.DefineVariable(expr.Name, t); err != nil {
 		return err
 	}
-- 
2.43.0


From 300df0f5690838b5a7af68e67508b7455545579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 40/42] fix: report messages of the errors namespace as they
 are, not as formats

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From 1c6752b165796ee5feeb225a70af9f2cdbd3c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 41/42] fix: report a missing TypeParser instead of crashing
 the compilation

---
 functions/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..338859e 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -26,6 +26,10 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 			return nil, nil
 		}
 
+		if n.parser == nil {
+			return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", asLiteral.Value)
+		}
+
 		return n.parser(asLiteral.Value)
 	}
 
-- 
2.43.0


From 251ed620743f36e3449727bd180a31d01bc4c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 42/42] fix: report an integer that a map key type can't hold
 instead of looking up a wrapped key

---
 keys/normalize.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/keys/normalize.go b/keys/normalize.go
index aee4b47..9a4d148 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -2,6 +2,7 @@ package keys
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -77,5 +78,33 @@ func MapKey(key reflect.Value, keyType reflect.Type) (reflect.Value, error) {
 		return key, fmt.Errorf("can't use %v as a map key of type %v", key.Type(), keyType)
 	}
 
+	if overflows(key, keyType) {
+		return key, fmt.Errorf("can't use %v as a map key of type %v", key.Interface(), keyType)
+	}
+
 	return key.Convert(keyType), nil
 }
+
+// overflows returns true if an integer key can't be represented with the map key type
+func overflows(key reflect.Value, keyType reflect.Type) bool {
+	zero := reflect.Zero(keyType)
+	switch {
+	case isInt(key.Kind()) && isInt(keyType.Kind()):
+		return zero.OverflowInt(key.Int())
+	case isInt(key.Kind()) && isUint(keyType.Kind()):
+		return key.Int() < 0 || zero.OverflowUint(uint64(key.Int()))
+	case isUint(key.Kind()) && isUint(keyType.Kind()):
+		return zero.OverflowUint(key.Uint())
+	case isUint(key.Kind()) && isInt(keyType.Kind()):
+		return key.Uint() > math.MaxInt64 || zero.OverflowInt(int64(key.Uint()))
+	}
+	return false
+}
+
+func isInt(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Int64
+}
+
+func isUint(kind reflect.Kind) bool {
+	return kind >= reflect.Uint && kind <= reflect.Uintptr
+}
-- 
2.43.0

