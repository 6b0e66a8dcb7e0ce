From 6932abd12e62126c43c4f672cde32c474c5093be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 01/77] fix: keep literal text that precedes a ## comment

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From 57741f1d279b3c66e4ad4ce14819c7f8d0791af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 02/77] fix: a dot that is not followed by an identifier ends a
 reference

---
 parser/select.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/select.go b/parser/select.go
index acc1435..3b29806 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
+	"github.com/viant/velty/parser/matcher"
 	"strconv"
 	"strings"
 )
@@ -107,9 +108,14 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 
 func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	candidates := []*parsly.Token{Parentheses, Dot, SquareBrackets}
+	callStart := cursor.Pos
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
+		if cursor.Pos >= cursor.InputSize || !matcher.IsLetter(cursor.Input[cursor.Pos]) {
+			cursor.Pos = callStart // the dot doesn't introduce a field or a method, i.e. `Hello $name.`
+			return nil, nil
+		}
 		return MatchSelector(cursor)
 	case parenthesesToken:
 		id := matched.Text(cursor)
-- 
2.43.0


From 13e11f7dc9a0738cd0e24217a5a3fbf7f74149d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 03/77] fix: assign bool and float32 values through indirect
 selectors

---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 304e17939cd335b2e314e3d6f399ff4e58ee3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 04/77] fix: do not print operands of integer equality to
 stdout

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From 91e67329199389ec78bfa2386857de52fd08c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 05/77] fix: strings.HasPrefix tests for a prefix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From 78e7fed35e07c0bd458372108e1887bd497a5ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 06/77] fix: errors functions keep the message verbatim

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From ca204fa3d0e3a0dca6e05c71c4582be4c0f907c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 07/77] fix: reject negative slice indexes instead of reading
 outside the slice

---
 est/op/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..cbbfb39 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -24,7 +24,7 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
+	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-- 
2.43.0


From 495effd60ded5d3784f7829ded381d83d2fe6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 08/77] fix: recognize compound assignments in the step of a
 for loop

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  6 ++++--
 parser/token.go |  4 ++--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..ef47ad8 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -96,13 +96,15 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		}, nil
 	}
 
+	//matched is shared by all matches of the cursor
+	matchedCode := matched.Code
 	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matchedCode)
 
 	return &stmt.Statement{
 		X:  variable,
diff --git a/parser/token.go b/parser/token.go
index dbd006d..c432cc0 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -6,8 +6,8 @@ import (
 	"github.com/viant/velty/ast/expr"
 )
 
-func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matched *parsly.TokenMatch) (ast2.Token, ast2.Expression) {
-	switch matched.Code {
+func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matchedCode int) (ast2.Token, ast2.Expression) {
+	switch matchedCode {
 	case mulEqualToken:
 		token = ast2.ASSIGN
 		rightOperand = expr.BinaryExpression(variable, ast2.MUL, rightOperand)
-- 
2.43.0


From ee47940e7d2500fc6aa702288cd44242e68e4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 09/77] fix: operator precedence and associativity of chained
 expressions

---
 binary.go         | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 parser/expr.go    | 13 +----------
 parser/operand.go | 48 +++++-----------------------------------
 3 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/binary.go b/binary.go
index bf02779..2979d00 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -9,6 +10,7 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = regroup(actual)
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
@@ -42,6 +44,60 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+//regroup rebuilds a chain of binary expressions (parser returns it as x op (y op (z ...))), so that operators with higher
+//precedence are nested deeper and operators with the same precedence are left-associative
+func regroup(actual *expr.Binary) *expr.Binary {
+	if _, ok := actual.Y.(*expr.Binary); !ok {
+		return actual
+	}
+
+	operands := []ast.Expression{actual.X}
+	var tokens []ast.Token
+	reduce := func() {
+		last := len(tokens) - 1
+		operands = append(operands[:last], expr.BinaryExpression(operands[last], tokens[last], operands[last+1]))
+		tokens = tokens[:last]
+	}
+
+	for actual != nil {
+		for len(tokens) > 0 && precedence(tokens[len(tokens)-1]) >= precedence(actual.Token) {
+			reduce()
+		}
+
+		tokens = append(tokens, actual.Token)
+		next, ok := actual.Y.(*expr.Binary)
+		if ok {
+			operands = append(operands, next.X)
+		} else {
+			operands = append(operands, actual.Y)
+		}
+		actual = next
+	}
+
+	for len(tokens) > 0 {
+		reduce()
+	}
+
+	return operands[0].(*expr.Binary)
+}
+
+func precedence(token ast.Token) int {
+	switch token {
+	case ast.MUL, ast.QUO:
+		return 5
+	case ast.ADD, ast.SUB:
+		return 4
+	case ast.LSS, ast.LEQ, ast.GTR, ast.GTE:
+		return 3
+	case ast.EQ, ast.NEQ:
+		return 2
+	case ast.AND:
+		return 1
+	}
+
+	return 0
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
diff --git a/parser/expr.go b/parser/expr.go
index db55394..0600348 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,9 +14,6 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
@@ -27,15 +24,7 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..5b27fab 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -32,16 +32,8 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
-
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
+		matcher = token
+		expression = &aexpr.Parentheses{P: expr}
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -124,7 +116,11 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		var rightExpression ast2.Expression
 		if err == nil {
 			rightExpression, err = matchEquationExpression(eprCursor)
+			if err != nil {
+				return err
+			}
 			rightExpression = &aexpr.Parentheses{P: rightExpression}
+			err = addEquationIfNeeded(cursor, &rightExpression)
 		} else {
 			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
 		}
@@ -132,17 +128,6 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
-
 		*expression = &aexpr.Binary{
 			X:     *expression,
 			Token: token,
@@ -150,24 +135,3 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		}
 	}
 }
-
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
-	}
-
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
-}
-- 
2.43.0


From 7403d1b4a84061cbcdf5f30190a59d9901374456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 10/77] fix: pointer comparison of nil, uint and float operands

---
 est/expr/ptr.go | 75 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..bb8a84e 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -235,11 +239,11 @@ func compareIntLessOrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if yPtr == nil && xPtr == nil {
-			return est.FalseValuePtr
+			return est.TrueValuePtr
 		}
 
 		if xPtr != nil && yPtr == nil {
-			return est.TrueValuePtr
+			return est.FalseValuePtr
 		}
 
 		if yPtr != nil && xPtr == nil {
@@ -1054,6 +1058,31 @@ func compareUint32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUintLessOrEqual(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
@@ -1283,7 +1312,7 @@ func compareBoolNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.TrueValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xBool := xunsafe.AsBool(xPtr)
@@ -1303,7 +1332,7 @@ func compareBoolEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr == yPtr)
 		}
 
 		xBool := xunsafe.AsBool(xPtr)
@@ -1323,7 +1352,7 @@ func compareIntNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xInt := xunsafe.AsInt(xPtr)
@@ -1343,7 +1372,7 @@ func compareUintNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xUint := xunsafe.AsUint(xPtr)
@@ -1363,7 +1392,7 @@ func compareUint8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xUint8 := xunsafe.AsUint8(xPtr)
@@ -1383,7 +1412,7 @@ func compareInt8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xInt8 := xunsafe.AsInt8(xPtr)
@@ -1403,7 +1432,7 @@ func compareInt16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xInt16 := xunsafe.AsInt16(xPtr)
@@ -1423,7 +1452,7 @@ func compareUint16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xUint16 := xunsafe.AsUint16(xPtr)
@@ -1443,7 +1472,7 @@ func compareInt32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xInt32 := xunsafe.AsInt32(xPtr)
@@ -1463,7 +1492,7 @@ func compareUint32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xUint32 := xunsafe.AsUint32(xPtr)
@@ -1583,7 +1612,7 @@ func compareIntPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr == yPtr)
 		}
 
 		xVal := xunsafe.AsInt(xPtr)
@@ -1603,7 +1632,7 @@ func compareUintPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr == yPtr)
 		}
 
 		xVal := xunsafe.AsUint(xPtr)
@@ -1623,7 +1652,7 @@ func compareFloat32PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr == yPtr)
 		}
 
 		xVal := xunsafe.AsFloat32(xPtr)
@@ -1643,7 +1672,7 @@ func compareFloat64PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr == yPtr)
 		}
 
 		xVal := xunsafe.AsFloat64(xPtr)
@@ -1663,7 +1692,7 @@ func compareFloat32PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xVal := xunsafe.AsFloat32(xPtr)
@@ -1683,7 +1712,7 @@ func compareFloat64PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if xPtr == nil || yPtr == nil {
-			return est.FalseValuePtr
+			return boolValuePtr(xPtr != yPtr)
 		}
 
 		xVal := xunsafe.AsFloat64(xPtr)
@@ -1696,3 +1725,11 @@ func compareFloat64PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		return est.FalseValuePtr
 	}, nil
 }
+
+func boolValuePtr(value bool) unsafe.Pointer {
+	if value {
+		return est.TrueValuePtr
+	}
+
+	return est.FalseValuePtr
+}
-- 
2.43.0


From c34017d8809183ba39952f53b5b708a74ad68a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 11/77] fix: convert binary operands to the common type,
 compare pointers by value, reject undefined operands

---
 binary.go | 92 +++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 10 deletions(-)

diff --git a/binary.go b/binary.go
index 2979d00..e38a254 100644
--- a/binary.go
+++ b/binary.go
@@ -1,14 +1,19 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
+	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
+	"unsafe"
 )
 
+var boolType = reflect.TypeOf(true)
+
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	actual = regroup(actual)
 	x, err := p.compileExpr(actual.X)
@@ -21,15 +26,17 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	for _, operand := range []*op.Expression{x, y} {
+		if operand.Type == nil {
+			return nil, fmt.Errorf("couldn't determine type of the %v operand", actual.Token)
+		}
+	}
+
+	resultType, err := unifyOperands(actual.Token, x, y)
 	if err != nil {
 		return nil, err
 	}
 
-	x.Unify = unify.X
-	y.Unify = unify.Y
-
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -98,12 +105,77 @@ func precedence(token ast.Token) int {
 	return 0
 }
 
-func notNilType(types ...reflect.Type) reflect.Type {
-	for _, rType := range types {
-		if rType != nil {
-			return rType
+//unifyOperands converts operands to the common type, returns type of the expression result
+func unifyOperands(token ast.Token, x, y *op.Expression) (reflect.Type, error) {
+	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	if err != nil {
+		return nil, err
+	}
+
+	xType, yType := x.Type, y.Type
+	x.Unify, y.Unify = operandUnifier(xType, unify.RType, unify.X), operandUnifier(yType, unify.RType, unify.Y)
+	if unify.X != nil {
+		x.Type = unify.RType
+	}
+
+	if unify.Y != nil {
+		y.Type = unify.RType
+	}
+
+	if !isComparison(token) {
+		if isLogical(token) {
+			return boolType, nil
+		}
+		return unify.RType, nil
+	}
+
+	if xType.Kind() == reflect.Ptr && xType == yType { //pointers are compared by value
+		x.Unify, y.Unify = derefPointer, derefPointer
+	} else if xType.Kind() == reflect.Ptr || yType.Kind() == reflect.Ptr { //nil can be compared
+		x.Type = reflect.PtrTo(unify.RType)
+	}
+
+	return boolType, nil
+}
+
+//operandUnifier returns function converting operand, uint8 is handled here because converter reads it as int8
+func operandUnifier(from, to reflect.Type, unify types.UnifyFn) types.UnifyFn {
+	if unify == nil || to.Kind() != reflect.Int {
+		return unify
+	}
+
+	switch {
+	case from.Kind() == reflect.Uint8:
+		return uint8ToInt
+	case from.Kind() == reflect.Ptr && from.Elem().Kind() == reflect.Uint8:
+		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			if pointer = xunsafe.DerefPointer(pointer); pointer == nil {
+				return nil, nil
+			}
+			return uint8ToInt(pointer)
 		}
 	}
 
-	return nil
+	return unify
+}
+
+func uint8ToInt(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+	anInt := int(*(*uint8)(pointer))
+	return unsafe.Pointer(&anInt), nil
+}
+
+func derefPointer(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+	return xunsafe.DerefPointer(pointer), nil
+}
+
+func isComparison(token ast.Token) bool {
+	switch token {
+	case ast.EQ, ast.NEQ, ast.LSS, ast.LEQ, ast.GTR, ast.GTE:
+		return true
+	}
+	return false
+}
+
+func isLogical(token ast.Token) bool {
+	return token == ast.AND || token == ast.OR
 }
-- 
2.43.0


From 9ae3d0591740aa91fc499188c037720d95876144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 12/77] fix: report fields of non-structs and indexes of
 non-slices as errors, index fields of nested structs

---
 planner.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/planner.go b/planner.go
index 68b0354..d2458fa 100644
--- a/planner.go
+++ b/planner.go
@@ -249,8 +249,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if methodCall, ok := actual.X.(*expr.Call); ok { //index has to be applied on the field, not on the parent
+			if callSelector, callNext, callErr := p.tryMatchCall(methodCall, resultSelector, actual.ID); callSelector != nil || callErr != nil {
+				return callSelector, callNext, callErr
+			}
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
@@ -272,6 +274,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
@@ -531,13 +537,16 @@ func (p *Planner) matchCall(call ast.Expression, selector *op.Selector, ID strin
 
 			return interfaceSelector, actual.Y, nil
 
-		default:
+		case reflect.Slice:
 			sliceSelector, err := p.newSliceSelector(ID, actual, selector)
 			if err != nil {
 				return nil, nil, err
 			}
 
 			return sliceSelector, actual.Y, nil
+
+		default:
+			return nil, nil, fmt.Errorf("%v can't be indexed, unsupported type %v", strings.ReplaceAll(ID, fieldSeparator, "."), selector.Type.String())
 		}
 	}
 
-- 
2.43.0


From 082f8eb887b6bc336481e1f5a2a06dc70078b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 13/77] fix: set state values of any kind without touching
 adjacent variables, reject values of other types

---
 est/state.go | 75 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/est/state.go b/est/state.go
index c86d84e..15e907a 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,12 +2,19 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
-	"strings"
 	"sync"
 	"unsafe"
 )
 
+var (
+	stringType  = reflect.TypeOf("")
+	intType     = reflect.TypeOf(0)
+	float64Type = reflect.TypeOf(0.0)
+	boolType    = reflect.TypeOf(true)
+)
+
 type TemplateError error
 type State struct {
 	sync.Mutex
@@ -26,18 +33,15 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
-	}
-
-	return nil
+	return setValue(xField, s.MemPtr, v)
 }
 
 func (s *State) EmbedValue(v interface{}) error {
 	vType := reflect.TypeOf(v)
+	if vType == nil {
+		return fmt.Errorf("not found holder for %T", v)
+	}
+
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
 		vType = vType.Elem()
 	}
@@ -49,7 +53,7 @@ func (s *State) EmbedValue(v interface{}) error {
 			return fmt.Errorf("not found holder for %T", v)
 		}
 	} else {
-		holderName = strings.Split(vType.String(), ".")[1]
+		holderName = s.StateType.typeName(vType)
 	}
 
 	xField, ok := s.StateType.ValueAccessor(holderName)
@@ -57,11 +61,54 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice:
-		xField.SetValue(s.MemPtr, v)
+	return setValue(xField, s.MemPtr, v)
+}
+
+func setValue(field *xunsafe.Field, structPtr unsafe.Pointer, v interface{}) error {
+	ptr := field.Pointer(structPtr)
+	switch actual := v.(type) { //fast path for the most frequent types
+	case string:
+		if field.Type == stringType {
+			*(*string)(ptr) = actual
+			return nil
+		}
+	case int:
+		if field.Type == intType {
+			*(*int)(ptr) = actual
+			return nil
+		}
+	case float64:
+		if field.Type == float64Type {
+			*(*float64)(ptr) = actual
+			return nil
+		}
+	case bool:
+		if field.Type == boolType {
+			*(*bool)(ptr) = actual
+			return nil
+		}
+	}
+
+	dest := reflect.NewAt(field.Type, ptr).Elem()
+	if v == nil {
+		dest.Set(reflect.Zero(field.Type))
+		return nil
+	}
+
+	src := reflect.ValueOf(v)
+	switch {
+	case src.Type().AssignableTo(field.Type):
+		dest.Set(src)
+	case src.Kind() == reflect.Ptr && !src.IsNil() && src.Type().Elem().AssignableTo(field.Type):
+		dest.Set(src.Elem())
+	case field.Type.Kind() == reflect.Ptr && src.Type().AssignableTo(field.Type.Elem()):
+		newPtr := reflect.New(field.Type.Elem())
+		newPtr.Elem().Set(src)
+		dest.Set(newPtr)
+	case src.Kind() == field.Type.Kind() && src.Type().ConvertibleTo(field.Type):
+		dest.Set(src.Convert(field.Type))
 	default:
-		xField.Set(s.MemPtr, v)
+		return fmt.Errorf("can't assign %T to the field %v of type %v", v, field.Name, field.Type.String())
 	}
 
 	return nil
-- 
2.43.0


From 366bfbb645e67895aea9178bce7d078ca27cf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 14/77] fix: data races on the evaluation cache and the name
 counter

---
 cache.go    | 6 ++++++
 est/type.go | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..df30454 100644
--- a/cache.go
+++ b/cache.go
@@ -28,6 +28,12 @@ func newCache(cacheSize int) *cache {
 }
 
 func (c *cache) expression(name string) (*value, bool) {
+	if c.cacheSize == 0 {
+		return nil, false
+	}
+
+	c.locker.Lock()
+	defer c.locker.Unlock()
 	val, ok := c.cache[name]
 	if !ok {
 		return nil, false
diff --git a/est/type.go b/est/type.go
index 9137ef1..22c46d4 100644
--- a/est/type.go
+++ b/est/type.go
@@ -100,7 +100,7 @@ func (t *Type) Snapshot() *Type {
 	anonymousFields := map[string]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
-	copy(fields, t.fields)
+	transients := *t.transients
 
 	for i, field := range fields {
 		types[field.Name] = i
@@ -115,7 +115,7 @@ func (t *Type) Snapshot() *Type {
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
-- 
2.43.0


From 90d569895ba81d44929e32710b704724cfe7f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 15/77] fix: run-time evaluated templates keep errors, copy
 variables of any kind, and don't share cached plans between scopes

---
 evaluate.go | 25 +++++++++++++++++++------
 planner.go  | 19 +++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index 9a4882f..c4f494f 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -4,6 +4,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"reflect"
 	"unsafe"
 )
 
@@ -17,8 +18,7 @@ type evaluator struct {
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
 	if cacheValue, ok := e.cache.expression(varValue); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+		return e.execute(cacheValue.planner, cacheValue.compute, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
@@ -32,20 +32,33 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 		return est.EmptyStringPtr
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
 	e.cache.put(varValue, evaluatorPlanner, exec)
+	return e.execute(evaluatorPlanner, exec, state)
+}
 
-	return exec(newState)
+func (e *evaluator) execute(planner *Planner, exec est.Compute, state *est.State) unsafe.Pointer {
+	newState := e.newState(planner, state)
+	result := exec(newState)
+	state.Errors = newState.Errors
+	return result
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
-	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+	inherited := reflect.TypeOf(state.Mem).Elem().NumField()
+	if planner.inherited < inherited {
+		inherited = planner.inherited
+	}
+
+	for _, field := range planner.Type.ValueAccessors()[:inherited] {
+		src := reflect.NewAt(field.Type, field.Pointer(state.MemPtr))
+		reflect.NewAt(field.Type, field.Pointer(newState.MemPtr)).Elem().Set(src.Elem())
 	}
 
 	newState.Buffer = state.Buffer
+	newState.Errors = state.Errors
+	newState.PanicOnError = state.PanicOnError
 	return newState
 }
 
diff --git a/planner.go b/planner.go
index d2458fa..00e6c15 100644
--- a/planner.go
+++ b/planner.go
@@ -30,6 +30,7 @@ type (
 		cache        *cache
 		escapeHTML   bool
 		panicOnError bool
+		inherited    int //number of the Type fields shared with the planner it was created from
 	}
 )
 
@@ -454,14 +455,16 @@ func New(options ...Option) *Planner {
 
 func (p *Planner) New() *Planner {
 	scope := &Planner{
-		bufferSize: p.bufferSize,
-		Control:    p.Control,
-		Type:       p.Type.Snapshot(),
-		selectors:  p.selectors.Snapshot(),
-		constants:  p.constants,
-		Functions:  p.Functions,
-		cache:      p.cache,
-		escapeHTML: p.escapeHTML,
+		bufferSize:   p.bufferSize,
+		Control:      p.Control,
+		Type:         p.Type.Snapshot(),
+		selectors:    p.selectors.Snapshot(),
+		constants:    newConstants(),
+		Functions:    p.Functions,
+		cache:        newCache(p.cache.cacheSize),
+		escapeHTML:   p.escapeHTML,
+		panicOnError: p.panicOnError,
+		inherited:    len(p.Type.ValueAccessors()),
 	}
 
 	return scope
-- 
2.43.0


From bd00767b888cf95cf237159451f59cfbd38c8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 16/77] fix: reject undefined unary operands and non-string
 evaluate expressions at compile time

---
 stmt.go  | 4 ++++
 unary.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d1acd6..f06de5b 100644
--- a/stmt.go
+++ b/stmt.go
@@ -167,5 +167,9 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported evaluate expression type: %v", selector.Type)
+	}
+
 	return evaluate(selector, p.cache, p)
 }
diff --git a/unary.go b/unary.go
index 1f67680..7e87cb5 100644
--- a/unary.go
+++ b/unary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	aexpr "github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -12,6 +13,10 @@ func (p *Planner) compileUnary(actual *aexpr.Unary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the %v operand", actual.Token)
+	}
+
 	acc := p.accumulator(x.Type)
 
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
-- 
2.43.0


From 69fa629a6b3f5cf5a9d51b767a7f8a65bb482f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 17/77] fix: render values of interfaces with methods

---
 est/stmt/select.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..78787cc 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"time"
 	"unsafe"
@@ -85,7 +84,7 @@ func (a *directAppender) appendSelectorName() est.Compute {
 func (a *directAppender) newInterfaceAppender() est.Compute {
 	return func(state *est.State) unsafe.Pointer {
 		exec := a.x.Exec(state)
-		iface := xunsafe.AsInterface(exec)
+		iface := a.x.AsInterface(exec)
 		switch actual := iface.(type) {
 		case string:
 			state.Buffer.AppendString(actual)
-- 
2.43.0


From 5336e0af0a0b16cc467d9e143ec0d58852023451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 18/77] fix: index interface values, slices of pointers and
 maps of slices, accept any integer index, reject others

---
 est/op/iface.go    | 38 +++++++++++++++++++++++++--------
 est/op/map.go      | 53 ++++++++++++++++++++++++++++++++++------------
 est/op/selector.go | 41 +++++++++--------------------------
 est/op/slice.go    | 44 ++++++++++++++++++++++++++++++++------
 est/op/upstream.go | 22 +++++++++++++++----
 5 files changed, 134 insertions(+), 64 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..fe6414d 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -1,26 +1,46 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/velty/est"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
 
+var interfaceType = reflect.TypeOf((*interface{})(nil)).Elem()
+
 type Interface struct {
-	aMap     *Map
-	aSlice   *Slice
-	xOperand *Operand
+	xOperand     *Operand
+	indexOperand *Operand
 }
 
+//Exec returns an address of the interface holding the element of the indexed value, or nil if there is no such element
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	actualValue := reflect.ValueOf(i.xOperand.AsInterface(xPtr))
+	for actualValue.Kind() == reflect.Ptr {
+		actualValue = actualValue.Elem()
+	}
 
-	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	var element reflect.Value
+	switch actualValue.Kind() {
+	case reflect.Invalid:
+		return nil
 	case reflect.Map:
-		return i.aMap.Exec(xPtr, state)
+		element = mapElement(actualValue, i.indexOperand, state)
+	case reflect.Slice, reflect.Array:
+		index, ok := indexValue(i.indexOperand.ExecInterface(state))
+		if !ok || index < 0 || index >= actualValue.Len() {
+			panic(fmt.Sprintf("index out of range [%v] with length %v", index, actualValue.Len()))
+		}
+		element = actualValue.Index(index)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		panic(fmt.Sprintf("%v can't be indexed", actualValue.Type().String()))
 	}
+
+	if !element.IsValid() {
+		return nil
+	}
+
+	iface := element.Interface()
+	return unsafe.Pointer(&iface)
 }
diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..90d8ba1 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -3,7 +3,6 @@ package op
 import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/keys"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -11,37 +10,63 @@ import (
 type Map struct {
 	mapOperand   *Operand
 	indexOperand *Operand
-	isValueIface bool
-	elemKind     reflect.Kind
 }
 
+//Exec returns an address of the map element copy, or nil if the map doesn't hold the key
 func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	aMap := m.mapOperand.AsInterface(mapPtr)
 	if aMap == nil {
 		return nil
 	}
 
-	execInterface := m.indexOperand.ExecInterface(state)
-	anIndex := keys.Normalize(execInterface)
 	mapValue := reflect.ValueOf(aMap)
 	if mapValue.Kind() != reflect.Map {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	actualValue := mapElement(mapValue, m.indexOperand, state)
 	if !actualValue.IsValid() {
 		return nil
 	}
 
-	iface := actualValue.Interface()
-	if m.isValueIface {
-		return unsafe.Pointer(&iface)
+	element := reflect.New(mapValue.Type().Elem())
+	element.Elem().Set(actualValue)
+	return unsafe.Pointer(element.Pointer())
+}
+
+func mapElement(mapValue reflect.Value, indexOperand *Operand, state *est.State) reflect.Value {
+	key := reflect.ValueOf(keys.Normalize(indexOperand.ExecInterface(state)))
+	if !key.IsValid() {
+		return reflect.Value{}
 	}
 
-	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
-		return xunsafe.AsPointer(actualValue.Pointer())
-	default:
-		return xunsafe.AsPointer(iface)
+	keyType := mapValue.Type().Key()
+	if !key.Type().AssignableTo(keyType) {
+		switch {
+		case isInteger(key.Kind()) && isInteger(keyType.Kind()):
+			converted := key.Convert(keyType)
+			if !sameInteger(key, converted) {
+				return reflect.Value{}
+			}
+			key = converted
+		case key.Kind() == keyType.Kind() && key.Type().ConvertibleTo(keyType):
+			key = key.Convert(keyType)
+		}
 	}
+
+	return mapValue.MapIndex(key)
+}
+
+func isInteger(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Uintptr
+}
+
+func isSigned(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Int64
+}
+
+func sameInteger(x, y reflect.Value) bool {
+	negativeX := isSigned(x.Kind()) && x.Int() < 0
+	negativeY := isSigned(y.Kind()) && y.Int() < 0
+	return negativeX == negativeY && y.Convert(x.Type()).Interface() == x.Interface()
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..6492b79 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,8 +1,8 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
-	types "github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
@@ -114,15 +114,13 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
-	if err != nil {
-		return nil, err
+	if indexOperand.Type == nil || !isIndexType(indexOperand.Type) {
+		return nil, fmt.Errorf("unsupported slice index type: %v", indexOperand.Type)
 	}
 
 	return &Slice{
 		SliceOperand: sliceOperand,
 		IndexOperand: indexOperand,
-		ToInter:      toInt.Y,
 		XSlice:       xunsafe.NewSlice(parent.Type),
 	}, nil
 }
@@ -134,42 +132,23 @@ func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Ope
 		Indirect:    true,
 		Parent:      parent,
 		Placeholder: placeholder,
-		Map:         newMap(mapOperand, indexOperand, parent),
+		Map:         &Map{
+			mapOperand:   mapOperand,
+			indexOperand: indexOperand,
+		},
 	}, nil
 }
 
 func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	aSlice, err := newSlice(xOperand, indexOperand, parent)
-	if err != nil {
-		return nil, err
-	}
-
 	return &Selector{
-		Type:        parent.Type,
+		Type:        interfaceType,
 		ID:          id,
 		Indirect:    true,
 		Parent:      parent,
 		Placeholder: placeholder,
 		InterfaceExec: &Interface{
-			xOperand: xOperand,
-			aMap:     newMap(xOperand, indexOperand, parent),
-			aSlice:   aSlice,
+			xOperand:     xOperand,
+			indexOperand: indexOperand,
 		},
 	}, nil
 }
-
-func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
-	rType := mapOperand.Type
-	switch rType.Kind() {
-	case reflect.Map:
-		rType = rType.Elem()
-	}
-
-	elemKind := rType.Kind()
-	return &Map{
-		mapOperand:   mapOperand,
-		indexOperand: indexOperand,
-		isValueIface: elemKind == reflect.Interface,
-		elemKind:     elemKind,
-	}
-}
diff --git a/est/op/slice.go b/est/op/slice.go
index cbbfb39..8343e12 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -3,8 +3,10 @@ package op
 import (
 	"fmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
-	"github.com/viant/xunsafe/converter"
+	"math"
+	"reflect"
 	"unsafe"
 )
 
@@ -12,22 +14,52 @@ type Slice struct {
 	XSlice       *xunsafe.Slice
 	IndexOperand *Operand
 	SliceOperand *Operand
-	ToInter      converter.UnifyFn
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	sliceLen := s.XSlice.Len(slicePtr)
 
-	indexPtr := s.IndexOperand.Exec(state)
-	if indexPtr == nil {
-		return nil
+	var index int
+	if s.IndexOperand.Type.Kind() == reflect.Int {
+		indexPtr := s.IndexOperand.Exec(state)
+		if indexPtr == nil {
+			return nil
+		}
+		index = *(*int)(indexPtr)
+	} else {
+		var ok bool
+		if index, ok = indexValue(s.IndexOperand.ExecInterface(state)); !ok {
+			panic(fmt.Sprintf("invalid slice index of type %v", s.IndexOperand.Type.String()))
+		}
 	}
 
-	index := *(*int)(indexPtr)
 	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
 	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
+
+//indexValue converts value of any integer type to int
+func indexValue(value interface{}) (int, bool) {
+	rValue := reflect.ValueOf(keys.Normalize(value))
+	kind := rValue.Kind()
+	switch {
+	case isSigned(kind):
+		return int(rValue.Int()), true
+	case isInteger(kind):
+		if rValue.Uint() > math.MaxInt64 {
+			return -1, true
+		}
+		return int(rValue.Uint()), true
+	}
 
+	return 0, false
+}
+
+func isIndexType(rType reflect.Type) bool {
+	if rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+	return isInteger(rType.Kind()) || rType.Kind() == reflect.Interface
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..ab66ae5 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -78,13 +78,13 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = elementPointer(parents[i].Slice.Exec(ptr, state), parents[i].Type, shouldRef || isReceiver(parents, i))
 			} else if parents[i].Map != nil {
-				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
+				ptr = elementPointer(parents[i].Map.Exec(ptr, state), parents[i].Type, shouldRef || isReceiver(parents, i))
 			} else if parents[i].InterfaceExec != nil {
-				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
+				ptr = parents[i].InterfaceExec.Exec(ptr, state)
 			} else {
-				if ((!derefLast || shouldRef) && i == parentLen-1) || (i < parentLen-1 && parents[i+1].Func != nil) {
+				if ((!derefLast || shouldRef) && i == parentLen-1) || isReceiver(parents, i) {
 					ptr = parents[i].Pointer(ptr)
 				} else {
 					ptr = parents[i].ValuePointer(ptr)
@@ -107,3 +107,17 @@ func refIfNeeded(literal unsafe.Pointer, ref bool) unsafe.Pointer {
 
 	return literal
 }
+
+//isReceiver returns true if the selector at given index is a receiver of the method call
+func isReceiver(parents []*Selector, index int) bool {
+	return index < len(parents)-1 && parents[index+1].Func != nil
+}
+
+//elementPointer dereferences address of the element of a pointer type, unless the address was requested
+func elementPointer(ptr unsafe.Pointer, elemType reflect.Type, asAddress bool) unsafe.Pointer {
+	if ptr == nil || asAddress || elemType.Kind() != reflect.Ptr {
+		return ptr
+	}
+
+	return xunsafe.DerefPointer(ptr)
+}
-- 
2.43.0


From 149239a0bb8e91a2bf8e2f899c373bb1ae16f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 19/77] fix: convert the assigned value of any operand to the
 type of the target, don't alias it

---
 est/stmt/assign/bool.go   |  4 +--
 est/stmt/assign/float.go  |  4 +--
 est/stmt/assign/int.go    |  4 +--
 est/stmt/assign/string.go |  4 +--
 stmt.go                   | 68 ++++++++++++++++++++++++++++++++++++++-
 5 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..2a9049b 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..0d819e7 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..d7dc4b1 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,14 +19,14 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.y.Pointer(state))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.y.Exec(state))
 	return ret
 }
 
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..5f053f2 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.y.Pointer(state))
 	return ret
 }
diff --git a/stmt.go b/stmt.go
index f06de5b..7cda47d 100644
--- a/stmt.go
+++ b/stmt.go
@@ -8,6 +8,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/stmt"
 	"github.com/viant/velty/est/stmt/assign"
+	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
@@ -58,12 +59,77 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
-	y.Unify = unify.Y
+	y.Unify = assignUnifier(y.Type, unify.RType, unify.Y)
 	y.Type = unify.RType
 
 	return assign.Assign(x, y)
 }
 
+//assignUnifier returns function converting assigned value, 8 bit integers are handled here because converter reads them with the
+//sign or the size of the target, a nil pointer is converted to the zero value, a pointer target gets address of a copy
+func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
+	isPtr := from.Kind() == reflect.Ptr
+	if to.Kind() == reflect.Ptr && !isPtr {
+		return pointerUnifier(from, to.Elem(), unify)
+	}
+
+	if unify == nil || to.Kind() == reflect.Ptr {
+		return unify
+	}
+
+	if isPtr {
+		from = from.Elem()
+	}
+
+	if (from.Kind() == reflect.Int8 || from.Kind() == reflect.Uint8) && to.Kind() >= reflect.Int && to.Kind() <= reflect.Uint64 {
+		valueUnify := func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			result := reflect.New(to)
+			result.Elem().Set(reflect.NewAt(from, pointer).Elem().Convert(to))
+			return unsafe.Pointer(result.Pointer()), nil
+		}
+
+		unify = valueUnify
+		if isPtr {
+			unify = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+				return valueUnify(xunsafe.DerefPointer(pointer))
+			}
+		}
+	}
+
+	if !isPtr {
+		return unify
+	}
+
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		if xunsafe.DerefPointer(pointer) == nil {
+			return unsafe.Pointer(reflect.New(to).Pointer()), nil
+		}
+		return unify(pointer)
+	}
+}
+
+//pointerUnifier returns function converting value to the pointer to its copy
+func pointerUnifier(from, to reflect.Type, fallback converter.UnifyFn) converter.UnifyFn {
+	unify, err := converter.Unify(to, from)
+	if err != nil {
+		return fallback
+	}
+
+	valueUnify := assignUnifier(from, to, unify.Y)
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		if valueUnify != nil {
+			var err error
+			if pointer, err = valueUnify(pointer); err != nil {
+				return nil, err
+			}
+		}
+
+		result := reflect.New(to)
+		result.Elem().Set(reflect.NewAt(to, pointer).Elem())
+		return xunsafe.RefPointer(unsafe.Pointer(result.Pointer())), nil
+	}
+}
+
 func (p *Planner) compileIf(actual *stmt2.If) (est.New, error) {
 	cond, err := p.compileExpr(actual.Condition)
 	if err != nil {
-- 
2.43.0


From d74b2b225643d7d826221e1114094787844b35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 20/77] fix: assignment through a nil pointer doesn't change
 shared zero values

---
 est/op/expr.go            | 10 +++++++-
 est/op/upstream.go        | 51 ++++++++++++++++++++++++---------------
 est/stmt/assign/assign.go |  2 +-
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..3449307 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -9,6 +9,7 @@ import (
 
 type ShouldRefLast bool
 type ShouldDerefLast bool
+type IsDestination bool
 
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
@@ -21,6 +22,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var isDestination bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +30,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case IsDestination:
+			isDestination = bool(actual)
 		}
 	}
 
@@ -50,7 +54,11 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			if isDestination {
+				operand.Comp = destination(e.Selector)
+			} else {
+				operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			}
 		}
 
 		return operand, nil
diff --git a/est/op/upstream.go b/est/op/upstream.go
index ab66ae5..b1d0931 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,36 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	var zeroValuePtr unsafe.Pointer
+	var value interface{}
+	switch selector.Type.Kind() {
+	case reflect.Bool:
+		zeroValuePtr = est.FalseValuePtr
+	case reflect.String:
+		zeroValuePtr = est.EmptyStringPtr
+	case reflect.Int:
+		zeroValuePtr = est.ZeroIntPtr
+	case reflect.Float64:
+		zeroValuePtr = est.ZeroFloatPtr
+	default:
+		value = reflect.New(selector.Type).Interface()
+		zeroValuePtr = xunsafe.AsPointer(value)
+	}
+
+	return upstream(selector, derefLast, func() unsafe.Pointer {
+		return zeroValuePtr
+	})
+}
+
+//destination returns function locating value to be written, if the value can't be reached because of a nil pointer,
+//then the function returns an address of a value that is not shared
+func destination(selector *Selector) func(state *est.State) unsafe.Pointer {
+	return upstream(selector, false, func() unsafe.Pointer {
+		return unsafe.Pointer(reflect.New(selector.Type).Pointer())
+	})
+}
+
+func upstream(selector *Selector, derefLast bool, zeroValue func() unsafe.Pointer) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -28,29 +58,12 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 	parents[len(parents)-1] = selector
 	parentLen := len(parents)
 
-	var zeroValuePtr unsafe.Pointer
-	var value interface{}
-
-	switch selector.Type.Kind() {
-	case reflect.Bool:
-		zeroValuePtr = est.FalseValuePtr
-	case reflect.String:
-		zeroValuePtr = est.EmptyStringPtr
-	case reflect.Int:
-		zeroValuePtr = est.ZeroIntPtr
-	case reflect.Float64:
-		zeroValuePtr = est.ZeroFloatPtr
-	default:
-		value = reflect.New(selector.Type).Interface()
-		zeroValuePtr = xunsafe.AsPointer(value)
-	}
-
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return zeroValue()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +105,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return zeroValue()
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..7df21b8 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -245,7 +245,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.IsDestination(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b739b3442d72965bd5bbaf97ca2bf625a07a62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 21/77] fix: copy assigned structs, slices and interfaces with
 their type, so that garbage collector tracks them

---
 est/stmt/assign/assign.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 7df21b8..9801421 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -3,7 +3,6 @@ package assign
 import (
 	"github.com/viant/velty/est"
 	op2 "github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -181,7 +180,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				ptr := a.y.Exec(state)
 				if ptr != nil {
-					xunsafe.Copy(a.x.Exec(state), ptr, int(a.x.Type.Size()))
+					copyValue(rType, a.x.Exec(state), ptr)
 				}
 				return ptr
 			}
@@ -193,11 +192,7 @@ func (a *assign) assignValue() est.Compute {
 				ptr := a.y.Exec(state)
 
 				if destPtr != nil && ptr != nil {
-					sourceHeader := (*reflect.SliceHeader)(ptr)
-					destHader := (*reflect.SliceHeader)(destPtr)
-					destHader.Data = sourceHeader.Data
-					destHader.Len = sourceHeader.Len
-					destHader.Cap = sourceHeader.Cap
+					copyValue(rType, destPtr, ptr)
 				}
 
 				return ptr
@@ -236,13 +231,18 @@ func (a *assign) assignValue() est.Compute {
 		src := a.y.Exec(state)
 
 		if src != nil {
-			xunsafe.Copy(dest, src, int(rType.Size()))
+			copyValue(rType, dest, src)
 		}
 
 		return src
 	}
 }
 
+//copyValue copies value of given type, the copy has to be visible to the garbage collector
+func copyValue(rType reflect.Type, dest, src unsafe.Pointer) {
+	reflect.NewAt(rType, dest).Elem().Set(reflect.NewAt(rType, src).Elem())
+}
+
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		x, err := xExpr.Operand(control, op2.IsDestination(true))
-- 
2.43.0


From 96481ae4d5d92defdbfb81cb937bc98613258fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 22/77] fix: define variables of recursive types, resolve paths
 that go through a type more than once

---
 cyclic.go          | 96 ++++++++--------------------------------------
 est/op/selector.go | 10 ++---
 planner.go         | 50 ++++++++++++++++--------
 3 files changed, 55 insertions(+), 101 deletions(-)

diff --git a/cyclic.go b/cyclic.go
index a4c1480..40bc7e6 100644
--- a/cyclic.go
+++ b/cyclic.go
@@ -1,96 +1,34 @@
 package velty
 
 import (
-	"github.com/viant/velty/est/op"
 	"reflect"
 )
 
-type (
-	CycleDetector struct {
-		rType          reflect.Type
-		allTypes       map[reflect.Type]*MultiCycleDetector
-		parent         *CycleDetector
-		parentSelector *op.Selector
-		name           string
-	}
-
-	MultiCycleDetector struct {
-		index    map[reflect.Type]int
-		children []*CycleDetector
-	}
-)
-
-func NewCycleDetector(rType reflect.Type) *CycleDetector {
-	return newCycleDetector(nil, nil, rType, nil)
+//CycleDetector represents a type whose fields are being indexed, with all types that hold it
+type CycleDetector struct {
+	rType  reflect.Type
+	prefix string
+	parent *CycleDetector
 }
 
-func newCycleDetector(parent *CycleDetector, state map[reflect.Type]*MultiCycleDetector, rType reflect.Type, parentSelector *op.Selector) *CycleDetector {
-	if state == nil {
-		state = map[reflect.Type]*MultiCycleDetector{}
-	}
-
+//NewCycleDetector creates a detector of the type fields, indexed with given prefix
+func NewCycleDetector(rType reflect.Type, prefix string, parent *CycleDetector) *CycleDetector {
 	rType, _ = elemIfNeeded(rType)
 	return &CycleDetector{
-		allTypes:       state,
-		parent:         parent,
-		rType:          rType,
-		parentSelector: parentSelector,
-		name:           rType.String(),
+		rType:  rType,
+		prefix: prefix,
+		parent: parent,
 	}
 }
 
-func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
-	cycle := c.getChildrenCycleHolder(rType)
-	return cycle.Get(c, rType, parentSelector)
-}
-
-func (d *MultiCycleDetector) Get(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (*CycleDetector, bool) {
-	detector, parent := d.getOrCreate(c, rType, parentSelector)
-
-	return detector, parent != nil
-}
-
-func (d *MultiCycleDetector) getOrCreate(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (current *CycleDetector, parent *CycleDetector) {
-	i, ok := d.index[rType]
-	if ok {
-		next := d.children[i]
-		if next.Has(next) {
-			return c, next
-		}
-
-		return next, nil
-	}
-
-	detector := newCycleDetector(c, c.allTypes, rType, parentSelector)
-	d.index[rType] = len(d.children)
-	d.children = append(d.children, detector)
-
-	return detector, nil
-}
-
-func (c *CycleDetector) getChildrenCycleHolder(rType reflect.Type) *MultiCycleDetector {
-	cycle, ok := c.allTypes[rType]
-	if ok {
-		return cycle
-	}
-
-	cycle = &MultiCycleDetector{
-		index: map[reflect.Type]int{},
-	}
-
-	c.allTypes[rType] = cycle
-	return cycle
-}
-
-func (c *CycleDetector) Has(parent *CycleDetector) bool {
-	curr := c
-	for curr != nil {
-		if curr.rType == parent.rType && curr.rType != nil {
-			return true
+//Find returns a detector of the same type, nil if the type is not one of the types that hold the field
+func (c *CycleDetector) Find(rType reflect.Type) *CycleDetector {
+	rType, _ = elemIfNeeded(rType)
+	for curr := c; curr != nil; curr = curr.parent {
+		if curr.rType == rType {
+			return curr
 		}
-
-		curr = curr.parent
 	}
 
-	return false
+	return nil
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index 6492b79..801e87a 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -23,7 +23,7 @@ type Selector struct {
 	ParentOffset    uintptr
 	Map             *Map
 	InterfaceExec   *Interface
-	Cycle           *Selector
+	Cycle           *string //ID prefix of the fields, if they are indexed with other selector of the same type
 	IsFieldSelector bool
 }
 
@@ -70,11 +70,11 @@ func SelectorWithField(id string, field *xunsafe.Field, parent *Selector, indire
 	return newSelector(id, field, parent, indirect, offset, nil)
 }
 
-func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
-	return newSelector(id, field, parent, indirect, offset, cycleSelector)
+func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cyclePrefix string) *Selector {
+	return newSelector(id, field, parent, indirect, offset, &cyclePrefix)
 }
 
-func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
+func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cyclePrefix *string) *Selector {
 	return &Selector{
 		Type:         field.Type,
 		ID:           id,
@@ -82,7 +82,7 @@ func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect boo
 		Parent:       parent,
 		Indirect:     indirect,
 		ParentOffset: offset,
-		Cycle:        cycleSelector,
+		Cycle:        cyclePrefix,
 	}
 }
 
diff --git a/planner.go b/planner.go
index 00e6c15..4d2d623 100644
--- a/planner.go
+++ b/planner.go
@@ -52,12 +52,11 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 }
 
 func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldName string) error {
-	detector := NewCycleDetector(field.Type)
-	return p.createSelectors(prefix, field, nil, 0, 0, false, detector, fieldName)
+	return p.createSelectors(prefix, field, nil, 0, 0, false, nil, fieldName)
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
+	cycle := cycleDetector.Find(field.Type)
 
 	if field.Anonymous {
 		initialOffset += field.Offset
@@ -66,8 +65,8 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
-	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycle, fieldName)
+	if err != nil || cycle != nil {
 		return err
 	}
 
@@ -91,15 +90,11 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		return nil
 	}
 
-	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
-}
-
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
+	if !field.Anonymous { //fields of an embedded type are indexed with their offset in the holder
+		cycleDetector = NewCycleDetector(fieldType, prefix, cycleDetector)
 	}
-	return child, nil
+
+	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleDetector, newParent)
 }
 
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
@@ -133,7 +128,7 @@ func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.Struct
 	return nil
 }
 
-func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, cycleSelector *op.Selector, name string) (*op.Selector, error) {
+func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, cycle *CycleDetector, name string) (*op.Selector, error) {
 	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
 		return parent, nil
 	}
@@ -142,8 +137,8 @@ func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField
 	newField.Offset += anonymousOffset
 	var err error
 	var fieldSelector *op.Selector
-	if cycleSelector != nil {
-		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset, cycleSelector)
+	if cycle != nil {
+		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset, cycle.prefix)
 	} else {
 		fieldSelector = op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
 	}
@@ -263,7 +258,7 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 		selectorId = selectorId + fieldSeparator + actual.ID
 		var found bool
-		resultSelector, found = p.selectors.ById(selectorId)
+		resultSelector, found = p.fieldSelector(selectorId, actual.ID)
 		if !found {
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
@@ -274,6 +269,27 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 	return resultSelector, nil, nil
 }
 
+//fieldSelector returns a selector of the field, fields of a type that holds itself are indexed once
+func (p *Planner) fieldSelector(selectorId string, fieldName string) (*op.Selector, bool) {
+	if selector, found := p.selectors.ById(selectorId); found {
+		return selector, true
+	}
+
+	parent, found := p.selectors.ById(strings.TrimSuffix(selectorId, fieldSeparator+fieldName))
+	if !found || parent.Cycle == nil {
+		return nil, false
+	}
+
+	selector, found := p.selectors.ById(*parent.Cycle + fieldName)
+	if !found {
+		return nil, false
+	}
+
+	selCopy := *selector
+	selCopy.Indirect = true
+	return &selCopy, true
+}
+
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
 	if parentType.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
-- 
2.43.0


From 5ff694fe8b1b6d987b3cab2c9d2bf102e032e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 23/77] fix: locate fields promoted by an embedded pointer

---
 est/op/selector.go |  1 +
 planner.go         | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index 801e87a..40c3755 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -25,6 +25,7 @@ type Selector struct {
 	InterfaceExec   *Interface
 	Cycle           *string //ID prefix of the fields, if they are indexed with other selector of the same type
 	IsFieldSelector bool
+	IsEmbedded      bool //selector of an embedded pointer
 }
 
 //NewSelector create a selector
diff --git a/planner.go b/planner.go
index 4d2d623..4acb520 100644
--- a/planner.go
+++ b/planner.go
@@ -70,6 +70,10 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		return err
 	}
 
+	if field.Anonymous && field.Type.Kind() == reflect.Ptr { //fields are located with the address held by the pointer
+		initialOffset = 0
+	}
+
 	if !field.Anonymous {
 		offsetSoFar += field.Offset
 		initialOffset = 0
@@ -134,7 +138,11 @@ func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField
 	}
 
 	newField := xunsafe.NewField(field)
-	newField.Offset += anonymousOffset
+	if field.Anonymous {
+		newField.Offset = anonymousOffset //already includes offset of the field
+	} else {
+		newField.Offset += anonymousOffset
+	}
 	var err error
 	var fieldSelector *op.Selector
 	if cycle != nil {
@@ -144,6 +152,7 @@ func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField
 	}
 
 	if field.Anonymous {
+		fieldSelector.IsEmbedded = true
 		return fieldSelector, nil
 	}
 
@@ -211,7 +220,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
-		upstreamSelector = p.copyWithParent(resultSelector, upstreamSelector)
+		upstreamSelector = p.copyWithParent(resultSelector, p.embeddedHolder(resultSelector.Parent, upstreamSelector))
 	}
 
 	return upstreamSelector, nil
@@ -237,6 +246,15 @@ func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	return &selCopy
 }
 
+//embeddedHolder returns parent preceded by the embedded pointers holding the promoted field
+func (p *Planner) embeddedHolder(holder, parent *op.Selector) *op.Selector {
+	if holder == nil || !holder.IsEmbedded {
+		return parent
+	}
+
+	return p.copyWithParent(holder, p.embeddedHolder(holder.Parent, parent))
+}
+
 func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector, selectorId string, parentType reflect.Type) (*op.Selector, ast.Expression, error) {
 	selector, next, err := p.tryMatchCall(call, resultSelector, selectorId)
 	if err != nil || selector != nil {
-- 
2.43.0


From 47fc6f696e050152c2465527bad59e2615cf95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 24/77] fix: parse the last argument of one character

---
 parser/select.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index 3b29806..6ff6ee7 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -180,7 +180,12 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for {
+		cursor.MatchOne(WhiteSpace)
+		if cursor.Pos >= cursor.InputSize {
+			break
+		}
+
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 54dc045a2845ca601f39c9c36c3f52fc593ff2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 25/77] fix: call functions with arguments and results of any
 type, number and width

---
 est/op/func.go     | 160 +++++++++++++++++++++++++++------------------
 est/op/operand.go  |   2 +-
 est/op/upstream.go |   6 ++
 3 files changed, 102 insertions(+), 66 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..e6eab3f 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -46,7 +46,6 @@ type (
 		ResultType reflect.Type
 		Function   Funeexpression
 
-		maxArgs     int
 		isVariadic  bool
 		iFaceMethod bool
 		caller      reflect.Value
@@ -103,27 +102,35 @@ func (r *funcReceiver) aFunc(id string) (*Func, bool) {
 	return r.funcs[i], true
 }
 
-func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.State) unsafe.Pointer {
+func (f *Func) CallFunc(selector *Selector, operands []*Operand, state *est.State) unsafe.Pointer {
 	anIface, err := f.Function(operands, state)
 	if err != nil {
 		state.AddError(err)
 	}
-	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
-		if f.XType.Type().Kind() == reflect.Map {
-			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
-		}
-		return xunsafe.AsPointer(anIface)
+
+	if anIface == nil {
+		return nil
 	}
 
-	return nil
-}
+	value := reflect.ValueOf(anIface)
+	if !value.Type().AssignableTo(selector.Type) {
+		state.AddError(fmt.Errorf("function %v was expected to return %v, but returned %T", f.Name, selector.Type.String(), anIface))
+		return nil
+	}
 
-func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
-		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
+	switch selector.Type.Kind() {
+	case reflect.Ptr:
+		return unsafe.Pointer(value.Pointer())
+	case reflect.Interface, reflect.Map, reflect.Func, reflect.Chan, reflect.Struct, reflect.Array: //interface may hold these differently
+		holder := reflect.New(selector.Type)
+		holder.Elem().Set(value)
+		return unsafe.Pointer(holder.Pointer())
+	default:
+		return xunsafe.AsPointer(anIface)
 	}
+}
 
+func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
 	result, err := f.execute(operands, state)
 	if err != nil {
 		return nil, err
@@ -154,65 +161,72 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 	caller := f.caller
 	if f.iFaceMethod { //TODO optimize
 		owner := operands[0].ExecReflectValue(state)
-		method := owner.MethodByName(f.Name)
-		caller = method
+		if !owner.IsValid() || (owner.Kind() == reflect.Interface && owner.IsNil()) {
+			return nil, fmt.Errorf("can't call %v on nil", f.Name)
+		}
+
+		caller = owner.MethodByName(f.Name)
 		operands = operands[1:]
 	}
 
-	if len(operands) >= f.maxArgs && !f.isVariadic {
-		return nil, fmt.Errorf("too many non-variadic function argument: expected: %v, had: %v", f.maxArgs, len(operands))
+	callerType := caller.Type()
+	if len(operands) > callerType.NumIn() && !f.isVariadic {
+		return nil, fmt.Errorf("too many non-variadic function argument: expected: %v, had: %v", callerType.NumIn(), len(operands))
 	}
 
-	switch len(operands) {
-	case 0:
-		return caller.Call([]reflect.Value{}), nil
-	case 1:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
-
-	case 2:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
+	required := callerType.NumIn()
+	if f.isVariadic {
+		required--
+	}
 
-	case 3:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
+	if len(operands) < required {
+		return nil, fmt.Errorf("too few function %v arguments: expected: %v, had: %v", f.Name, required, len(operands))
+	}
 
-	case 4:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+	values := make([]reflect.Value, 0, len(operands))
+	for i, operand := range operands {
+		value, err := f.argument(operand, argumentType(callerType, i), state)
+		if err != nil {
+			return nil, err
+		}
 
-	default:
-		values := make([]reflect.Value, 0, len(operands))
-		for i := 0; i < len(operands); i++ {
-			if i >= f.maxArgs && !f.isVariadic {
-				return nil, fmt.Errorf("too many non-variadic function arguments")
-			}
+		values = append(values, value)
+	}
 
-			anInterface := operands[i].ExecInterface(state)
-			values = append(values, f.ensureValue(anInterface, operands[i].Type))
-		}
+	return caller.Call(values), nil
+}
 
-		return caller.Call(values), nil
+func argumentType(callerType reflect.Type, index int) reflect.Type {
+	if last := callerType.NumIn() - 1; callerType.IsVariadic() && index >= last {
+		return callerType.In(last).Elem()
 	}
+
+	return callerType.In(index)
 }
 
-func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Value {
+//argument returns the operand value as the value of the parameter type
+func (f *Func) argument(operand *Operand, paramType reflect.Type, state *est.State) (reflect.Value, error) {
+	anInterface := operand.ExecInterface(state)
 	if anInterface == nil {
-		return reflect.Zero(t)
+		return reflect.Zero(paramType), nil
+	}
+
+	value := reflect.ValueOf(anInterface)
+	if value.Type().AssignableTo(paramType) {
+		return value, nil
+	}
+
+	if value.Kind() == paramType.Kind() || (isNumeric(value.Kind()) && isNumeric(paramType.Kind())) {
+		if value.Type().ConvertibleTo(paramType) {
+			return value.Convert(paramType), nil
+		}
 	}
 
-	return reflect.ValueOf(anInterface)
+	return reflect.Value{}, fmt.Errorf("can't use %T as %v argument of the function %v", anInterface, paramType.String(), f.Name)
+}
+
+func isNumeric(kind reflect.Kind) bool {
+	return isInteger(kind) || kind == reflect.Float32 || kind == reflect.Float64
 }
 
 func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, state *est.State, receiverValue reflect.Value) (func() (interface{}, error), bool) {
@@ -299,13 +313,13 @@ func (f *Functions) RegisterFunction(name string, function interface{}) error {
 
 func (f *Functions) NewFunc(name string, function interface{}, resultType reflect.Type) (*Func, error) {
 	if discoveredFn, rType, discovered := f.discover(nil, function); discovered {
-		return &Func{
-			Name:       name,
-			Function:   discoveredFn,
-			ResultType: rType,
-			XType:      xunsafe.NewType(rType),
-			Literal:    xunsafe.AsPointer(function),
-		}, nil
+		aFunc, err := f.reflectFunc(name, function, reflect.TypeOf(function), rType)
+		if err != nil {
+			return nil, err
+		}
+
+		aFunc.Function = aFunc.optimised(discoveredFn)
+		return aFunc, nil
 	}
 
 	var fType reflect.Type
@@ -323,6 +337,24 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 	return f.reflectFunc(name, function, fType, resultType)
 }
 
+//optimised returns a function using given one only if operands are exactly of the parameters types
+func (f *Func) optimised(discovered Funeexpression) Funeexpression {
+	callerType := f.caller.Type()
+	return func(operands []*Operand, state *est.State) (interface{}, error) {
+		if len(operands) != callerType.NumIn() {
+			return f.callFunc(operands, state)
+		}
+
+		for i, operand := range operands {
+			if operand.Type != callerType.In(i) {
+				return f.callFunc(operands, state)
+			}
+		}
+
+		return discovered(operands, state)
+	}
+}
+
 func (f *Functions) reflectFunc(name string, function interface{}, funcType reflect.Type, resultType reflect.Type) (*Func, error) {
 	caller := reflect.ValueOf(function)
 	ret, err := f.newFunc(name, funcType, resultType, caller, false)
@@ -348,8 +380,6 @@ func (f *Functions) newFunc(name string, funcType reflect.Type, resultType refle
 		ResultType:  resultType,
 		XType:       xunsafe.NewType(resultType),
 		isVariadic:  funcType.IsVariadic(),
-		maxArgs:     funcType.NumIn() + 1, //reflect.Method.Call require to pass a receiver as first Arg.
-
 	}
 	aFunc.Function = aFunc.callFunc
 	return aFunc, nil
diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..25656e7 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -135,7 +135,7 @@ func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
 	var anInterface interface{}
 	switch o.XType.Kind() {
 	case reflect.Interface:
-		anInterface = xunsafe.AsInterface(valuePtr)
+		return o.AsInterface(valuePtr)
 	default:
 		anInterface = o.XType.Value(valuePtr)
 	}
diff --git a/est/op/upstream.go b/est/op/upstream.go
index b1d0931..da68afa 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -83,7 +83,13 @@ func upstream(selector *Selector, derefLast bool, zeroValue func() unsafe.Pointe
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
 						newArg.Value = newArg.AsInterface(ptr)
+					}
 
+					if newArg.Value == nil { //nil interface
+						nilPtr := unsafe.Pointer(reflect.New(newArg.Type).Pointer())
+						newArg.Comp = func(state *est.State) unsafe.Pointer {
+							return nilPtr
+						}
 					}
 
 					args[0] = &newArg
-- 
2.43.0


From ac4731a5a0d78f36aac8639d9a3af2657f199c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 26/77] fix: guard and separate function receivers of same
 named types

---
 est/op/func.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index e6eab3f..be1ea12 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -28,7 +29,8 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		receivers map[reflect.Type]*funcReceiver
+		mux       sync.Mutex //guards receivers, methods are indexed also by templates evaluated at run time
 		functions map[string]*Function
 		ns        map[string]interface{}
 	}
@@ -295,7 +297,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -456,6 +458,8 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 		return f.funcs[index], nil
 	}
 
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	receiver := f.ensureReceiver(rType)
 	if aFunc, ok := receiver.aFunc(id); ok {
 		return aFunc, nil
@@ -465,8 +469,10 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 }
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -894,6 +900,8 @@ func (f *Functions) RegisterStandaloneFunction(name string, function *Function)
 }
 
 func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFunc) error {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	receiver := f.ensureReceiver(receiverType)
 	_, ok := receiver.index[typeFunc.Name]
 	if ok {
@@ -909,7 +917,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -920,14 +928,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 00f3bfb627b77d576128f5a0b563c4244e42a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 27/77] fix: resolve promoted fields with a prefix, and fields
 of call results

---
 planner.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/planner.go b/planner.go
index 4acb520..c1072e2 100644
--- a/planner.go
+++ b/planner.go
@@ -269,19 +269,17 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			}
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
-			return nil, nil, err
+		isCallResult := resultSelector.Func != nil //ID of the call may be the same as the name of some variable
+		selectorId = selectorId + fieldSeparator + actual.ID
+		if fieldSelector, found := p.fieldSelector(selectorId, actual.ID); found && !isCallResult {
+			return fieldSelector, actual.X, nil
 		}
 
-		selectorId = selectorId + fieldSeparator + actual.ID
-		var found bool
-		resultSelector, found = p.fieldSelector(selectorId, actual.ID)
-		if !found {
-			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
+		if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+			return nil, nil, err
 		}
 
-		return resultSelector, actual.X, nil
+		return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 	}
 
 	return resultSelector, nil, nil
-- 
2.43.0


From d0af09c1228ff534f746582f75d22826ef8413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 28/77] fix: reject undefined call arguments and indexes

---
 planner.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/planner.go b/planner.go
index c1072e2..1714e4a 100644
--- a/planner.go
+++ b/planner.go
@@ -455,12 +455,7 @@ func (p *Planner) selectorOperands(call *expr.Call, prev *op.Selector) ([]*op.Op
 	}
 
 	for i := 0; i < len(call.Args); i++ {
-		expression, err := p.compileExpr(call.Args[i])
-		if err != nil {
-			return nil, err
-		}
-
-		operand, err := expression.Operand(*p.Control)
+		operand, err := p.compileOperand(call.Args[i])
 		if err != nil {
 			return nil, err
 		}
@@ -645,6 +640,10 @@ func (p *Planner) compileOperand(actual ast.Expression) (*op.Operand, error) {
 		return nil, err
 	}
 
+	if xExpr.Type == nil {
+		return nil, fmt.Errorf("couldn't determine %v type", xExpr.Name)
+	}
+
 	xOperand, err := xExpr.Operand(*p.Control)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a0f95843744d94784f454528370d90be08fdd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 29/77] fix: don't treat a functions namespace as a value

---
 planner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index 1714e4a..cad58b6 100644
--- a/planner.go
+++ b/planner.go
@@ -176,7 +176,7 @@ func elemIfNeeded(rType reflect.Type) (reflect.Type, bool) {
 // DefineVariable enrich the Type by adding field with given name.
 // val can be either of the reflect.Type or regular type (i.e. Foo)
 func (p *Planner) DefineVariable(name string, v interface{}, names ...string) error {
-	if p.selectorByName(name) != nil {
+	if _, defined := p.selectors.ById(name); defined {
 		return nil
 	}
 
@@ -233,6 +233,10 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 	}
 
 	resultSelector := p.selectorByName(selector.ID)
+	if resultSelector != nil && resultSelector.Literal != nil && selector.X == nil { //functions namespace is not a value
+		return nil, nil, nil
+	}
+
 	if resultSelector != nil {
 		return resultSelector, selector.X, nil
 	}
-- 
2.43.0


From d2acd89909e8fdb8f28f80419555f6503d34e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 30/77] fix: keep string literals starting with a reference

---
 parser/operand.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parser/operand.go b/parser/operand.go
index 5b27fab..bb75610 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -68,16 +68,7 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			matcher = String
 			expression = aexpr.StringLiteral("")
 		} else {
-			newCursor := parsly.NewCursor("", []byte(value[:len(value)-1]), 0)
-
-			matcher, expression, err = matchOperand(newCursor, candidates...)
-			if err != nil {
-				expression = aexpr.StringLiteral(value[:len(value)-1])
-			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
-					expression = aexpr.StringLiteral(value[:len(value)-1])
-				}
-			}
+			matcher, expression = matchQuoted(value[:len(value)-1])
 		}
 
 	}
@@ -96,6 +87,19 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 	return matcher, expression, nil
 }
 
+//matchQuoted returns a selector if the text is just a reference i.e. "$foo", otherwise a literal
+func matchQuoted(text string) (*parsly.Token, ast2.Expression) {
+	if text[0] == '$' {
+		cursor := parsly.NewCursor("", []byte(text[1:]), 0)
+		selector, err := MatchSelector(cursor)
+		if err == nil && cursor.Pos >= cursor.InputSize {
+			return Selector, selector
+		}
+	}
+
+	return String, aexpr.StringLiteral(text)
+}
+
 func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) error {
 	for {
 		candidates := []*parsly.Token{Add, Sub, Multiply, Quo, NotEqual, Negation, Equal, And, Or, GreaterEqual, Greater, LessEqual, Less, Assign}
-- 
2.43.0


From f9eb1f445c4be05b914f58b403fb13cc25b74c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 31/77] fix: commas and semicolons inside foreach and for
 headers

---
 parser/lex.go   |  2 +-
 parser/range.go | 30 +++++++++++++-----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 21fef88..caac54c 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -132,7 +132,7 @@ var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("
 var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
 var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
-var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
+var Coma = parsly.NewToken(comaToken, "Coma", matcher.NewByte(','))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
 var Dot = parsly.NewToken(dotToken, "Dot", matcher.NewByte('.'))
 
diff --git a/parser/range.go b/parser/range.go
index ef47ad8..8354da2 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -12,7 +12,7 @@ func matchForEach(cursor *parsly.Cursor) (*stmt.ForEach, error) {
 	if err != nil {
 		return nil, err
 	}
-	candidates := []*parsly.Token{ComaTerminator}
+	candidates := []*parsly.Token{Coma}
 	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
 	var index *expr.Select
@@ -113,25 +113,21 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}, nil
 }
 
+//extractForSegment returns a cursor of the text preceding next semicolon that is not a part of the string literal
 func extractForSegment(cursor *parsly.Cursor) *parsly.Cursor {
-	candidates := []*parsly.Token{ExpressionBlock, ExpressionStart, ExpressionEnd}
-	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
-	switch matched.Code {
-	case expressionBlockToken:
-		segment := matched.Text(cursor)
-		return parsly.NewCursor("", []byte(segment[1:len(segment)-1]), 0)
-	case expressionStartToken:
-		expressionStartMatch := cursor.MatchAfterOptional(WhiteSpace, ExpressionEnd)
-		if expressionStartMatch.Code == parsly.EOF || expressionStartMatch.Code == parsly.Invalid {
-			return parsly.NewCursor("", cursor.Input[cursor.Pos:], 0)
+	start := cursor.Pos
+	inQuote := false
+	for cursor.Pos < cursor.InputSize {
+		char := cursor.Input[cursor.Pos]
+		cursor.Pos++
+		if char == '"' {
+			inQuote = !inQuote
 		}
 
-		text := expressionStartMatch.Text(cursor)
-		return parsly.NewCursor("", []byte(text[:len(text)-1]), 0)
-	case expressionEndToken:
-		segment := matched.Text(cursor)
-		return parsly.NewCursor("", []byte(segment), 0)
+		if char == ';' && !inQuote {
+			return parsly.NewCursor("", cursor.Input[start:cursor.Pos-1], 0)
+		}
 	}
 
-	return parsly.NewCursor("", cursor.Input[cursor.Pos:], 0)
+	return parsly.NewCursor("", cursor.Input[start:cursor.Pos], 0)
 }
-- 
2.43.0


From 5c580275b2dcf6ccf87ee40c179e095aa97f2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 32/77] fix: append byte to an empty buffer

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From 43a5549cf3279f37a7436d21e280533e9b00c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 33/77] fix: reject assignments to values that can't be set and
 mismatched foreach items

---
 stmt.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7cda47d..424009b 100644
--- a/stmt.go
+++ b/stmt.go
@@ -6,8 +6,10 @@ import (
 	"github.com/viant/velty/ast/expr"
 	stmt2 "github.com/viant/velty/ast/stmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/est/stmt"
 	"github.com/viant/velty/est/stmt/assign"
+	"github.com/viant/xreflect"
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
 	"reflect"
@@ -45,6 +47,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if err = validateAssignTarget(x, actual.X); err != nil {
+		return nil, err
+	}
+
 	y, err := p.compileExpr(actual.Y)
 	if err != nil {
 		return nil, err
@@ -65,6 +71,25 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 	return assign.Assign(x, y)
 }
 
+//validateAssignTarget returns an error if the target is not a variable, field or slice element
+func validateAssignTarget(target *op.Expression, node ast.Node) error {
+	selector := target.Selector
+	if selector == nil {
+		return fmt.Errorf("unsupported assignment target: %T", node)
+	}
+
+	actual, ok := node.(*expr.Select)
+	if selector.Type == nil && ok && actual.X != nil {
+		return fmt.Errorf("couldn't assign to the undefined variable %v", actual.ID)
+	}
+
+	if selector.Map != nil || selector.InterfaceExec != nil || selector.Func != nil || selector.Literal != nil {
+		return fmt.Errorf("unsupported assignment target %v", selector.ID)
+	}
+
+	return nil
+}
+
 //assignUnifier returns function converting assigned value, 8 bit integers are handled here because converter reads them with the
 //sign or the size of the target, a nil pointer is converted to the zero value, a pointer target gets address of a copy
 func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
@@ -187,6 +212,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nop(), nil
 	}
 
+	if actual.Item.X != nil {
+		return nil, fmt.Errorf("unsupported ForEach item: %v", actual.Item.FullName)
+	}
+
 	if sliceSelector.Type.Kind() != reflect.Slice {
 		return nil, fmt.Errorf("unsupported ForEach set type: %v", sliceSelector.Type.String())
 	}
@@ -202,6 +231,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type != itemType && selector.Type != xreflect.InterfaceType {
+		return nil, fmt.Errorf("can't use %v of type %v as an item of %v", actual.Item.ID, selector.Type.String(), sliceSelector.Type.String())
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 772b5772c40387f7204a3b0f95c5c5affadb9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 34/77] fix: match raw blocks with unbalanced quotes or
 brackets

---
 parser/parser.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..b3b166c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,12 +1,17 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
+)
+
+var (
+	rawBlockStart = []byte("[[")
+	rawBlockEnd   = []byte("]]#")
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -83,21 +88,21 @@ outer:
 	return builder.Block(), nil
 }
 
+//checkIfEscaped matches a raw block i.e. #[[ don't #parse $this ]]#, its content ends with the first ]]#
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
-			}
-		}
+	body := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(body, rawBlockStart) {
+		return nil, false
+	}
+
+	body = body[len(rawBlockStart):]
+	end := bytes.Index(body, rawBlockEnd)
+	if end == -1 {
+		return nil, false
 	}
 
-	cursor.Pos = lastCursorPos
-	return nil, false
+	cursor.Pos += len(rawBlockStart) + end + len(rawBlockEnd)
+	return stmt.NewAppend(string(body[:end])), true
 }
 
 func cursorErr(cursor *parsly.Cursor, err error) error {
-- 
2.43.0


From 1e65ac6455812504d61f5c9284298f339474f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 35/77] fix: conditions of numeric expressions, empty slices
 and nil pointers

---
 est/stmt/for.go |  2 +-
 est/stmt/if.go  | 36 ++++++++++++++++++++++++------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..a633d74 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..75aaf03 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -71,7 +71,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
+	if rType == nil && condition.New != nil {
 		rType = reflect.TypeOf(true)
 	}
 
@@ -79,19 +79,21 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		return nil, fmt.Errorf("couldn't determine type of the %v\n", condition.Selector.Name)
 	}
 
-	unify, err := converter.Unify(reflect.TypeOf(true), rType)
-	if err != nil {
-		return nil, err
-	}
-
-	if err != nil || rType.Kind() == reflect.Bool {
-		return anOperand, err
+	if rType.Kind() == reflect.Bool {
+		return anOperand, nil
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
-		newOperand.SetUnifier(unify.Y)
-		rType = reflect.TypeOf(true)
+	if rType.Kind() != reflect.Slice && rType.Kind() != reflect.Struct { //converter checks only if their first word is not zero
+		unify, err := converter.Unify(reflect.TypeOf(true), rType)
+		if err != nil {
+			return nil, err
+		}
+
+		if unify.Y != nil {
+			newOperand.SetUnifier(nilAsFalse(unify.Y))
+			rType = reflect.TypeOf(true)
+		}
 	}
 
 	switch rType.Kind() {
@@ -151,8 +153,18 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		}
 
 	default:
-		return nil, fmt.Errorf("unsupported comparable type %v", condition.Type.Kind())
+		return nil, fmt.Errorf("unsupported comparable type %v", rType.String())
 	}
 
 	return newOperand, nil
 }
+
+func nilAsFalse(unify converter.UnifyFn) converter.UnifyFn {
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		result, err := unify(pointer)
+		if result == nil {
+			return est.FalseValuePtr, err
+		}
+		return result, err
+	}
+}
-- 
2.43.0


From e7c192bcf8ba5bdbfd052daf39c488bd3a57fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 36/77] fix: foreach goes through the slice it has started with

---
 est/stmt/foreach.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..e0c95d3 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -18,7 +18,7 @@ type ForEach struct {
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := snapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -32,7 +32,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := snapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -46,7 +46,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -60,7 +60,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
@@ -86,6 +86,12 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//snapshot copies slice header, the loop goes through the slice it has started with, even if its body assigns the slice
+func snapshot(slicePtr unsafe.Pointer) unsafe.Pointer {
+	header := *(*[]struct{})(slicePtr)
+	return unsafe.Pointer(&header)
+}
+
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		aSlice, err := sliceExpr.Operand(control)
-- 
2.43.0


From c909b11508bb803c42d94b906a62393465da96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 37/77] fix: evaluated templates keep the error raised with
 PanicOnError on the state

---
 evaluate.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index c4f494f..6359bc4 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -38,9 +38,8 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 
 func (e *evaluator) execute(planner *Planner, exec est.Compute, state *est.State) unsafe.Pointer {
 	newState := e.newState(planner, state)
-	result := exec(newState)
-	state.Errors = newState.Errors
-	return result
+	defer func() { state.Errors = newState.Errors }() // also when an error was raised as a panic
+	return exec(newState)
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
-- 
2.43.0


From 170e411660fcffa578989080a44526a5ac9aaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 38/77] fix: look up map keys in the same way when indexing and
 in map functions

---
 est/op/func.go    |  3 ++-
 est/op/map.go     | 35 +----------------------------------
 est/op/slice.go   |  6 +++---
 functions/maps.go |  5 ++---
 keys/lookup.go    | 45 +++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 53 insertions(+), 41 deletions(-)
 create mode 100644 keys/lookup.go

diff --git a/est/op/func.go b/est/op/func.go
index be1ea12..6dc517f 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
@@ -228,7 +229,7 @@ func (f *Func) argument(operand *Operand, paramType reflect.Type, state *est.Sta
 }
 
 func isNumeric(kind reflect.Kind) bool {
-	return isInteger(kind) || kind == reflect.Float32 || kind == reflect.Float64
+	return keys.IsInteger(kind) || kind == reflect.Float32 || kind == reflect.Float64
 }
 
 func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, state *est.State, receiverValue reflect.Value) (func() (interface{}, error), bool) {
diff --git a/est/op/map.go b/est/op/map.go
index 90d8ba1..3fe67c5 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -35,38 +35,5 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 }
 
 func mapElement(mapValue reflect.Value, indexOperand *Operand, state *est.State) reflect.Value {
-	key := reflect.ValueOf(keys.Normalize(indexOperand.ExecInterface(state)))
-	if !key.IsValid() {
-		return reflect.Value{}
-	}
-
-	keyType := mapValue.Type().Key()
-	if !key.Type().AssignableTo(keyType) {
-		switch {
-		case isInteger(key.Kind()) && isInteger(keyType.Kind()):
-			converted := key.Convert(keyType)
-			if !sameInteger(key, converted) {
-				return reflect.Value{}
-			}
-			key = converted
-		case key.Kind() == keyType.Kind() && key.Type().ConvertibleTo(keyType):
-			key = key.Convert(keyType)
-		}
-	}
-
-	return mapValue.MapIndex(key)
-}
-
-func isInteger(kind reflect.Kind) bool {
-	return kind >= reflect.Int && kind <= reflect.Uintptr
-}
-
-func isSigned(kind reflect.Kind) bool {
-	return kind >= reflect.Int && kind <= reflect.Int64
-}
-
-func sameInteger(x, y reflect.Value) bool {
-	negativeX := isSigned(x.Kind()) && x.Int() < 0
-	negativeY := isSigned(y.Kind()) && y.Int() < 0
-	return negativeX == negativeY && y.Convert(x.Type()).Interface() == x.Interface()
+	return keys.Lookup(mapValue, indexOperand.ExecInterface(state))
 }
diff --git a/est/op/slice.go b/est/op/slice.go
index 8343e12..e641e04 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -45,9 +45,9 @@ func indexValue(value interface{}) (int, bool) {
 	rValue := reflect.ValueOf(keys.Normalize(value))
 	kind := rValue.Kind()
 	switch {
-	case isSigned(kind):
+	case keys.IsSigned(kind):
 		return int(rValue.Int()), true
-	case isInteger(kind):
+	case keys.IsInteger(kind):
 		if rValue.Uint() > math.MaxInt64 {
 			return -1, true
 		}
@@ -61,5 +61,5 @@ func isIndexType(rType reflect.Type) bool {
 	if rType.Kind() == reflect.Ptr {
 		rType = rType.Elem()
 	}
-	return isInteger(rType.Kind()) || rType.Kind() == reflect.Interface
+	return keys.IsInteger(rType.Kind()) || rType.Kind() == reflect.Interface
 }
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..5fdd7c8 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,7 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	return keys.Lookup(valueOf, key), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +102,7 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		return keys.Lookup(reflect.ValueOf(aMap), aKey).IsValid(), nil
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/keys/lookup.go b/keys/lookup.go
new file mode 100644
index 0000000..b49b6f4
--- /dev/null
+++ b/keys/lookup.go
@@ -0,0 +1,45 @@
+package keys
+
+import "reflect"
+
+//Lookup returns the map value stored under the key, the result is invalid if the map doesn't hold it
+func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
+	rKey := reflect.ValueOf(Normalize(key))
+	if !rKey.IsValid() {
+		return reflect.Value{}
+	}
+
+	keyType := aMap.Type().Key()
+	if !rKey.Type().AssignableTo(keyType) {
+		switch {
+		case IsInteger(rKey.Kind()) && IsInteger(keyType.Kind()):
+			converted := rKey.Convert(keyType)
+			if !sameInteger(rKey, converted) {
+				return reflect.Value{}
+			}
+			rKey = converted
+		case rKey.Kind() == keyType.Kind() && rKey.Type().ConvertibleTo(keyType):
+			rKey = rKey.Convert(keyType)
+		default:
+			return reflect.Value{} // the map can't hold a key of that type
+		}
+	}
+
+	return aMap.MapIndex(rKey)
+}
+
+//IsInteger returns true for signed and unsigned integers
+func IsInteger(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Uintptr
+}
+
+//IsSigned returns true for signed integers
+func IsSigned(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Int64
+}
+
+func sameInteger(x, y reflect.Value) bool {
+	negativeX := IsSigned(x.Kind()) && x.Int() < 0
+	negativeY := IsSigned(y.Kind()) && y.Int() < 0
+	return negativeX == negativeY && y.Convert(x.Type()).Interface() == x.Interface()
+}
-- 
2.43.0


From 5cbe3f98af20bb69874e36f31fbf0ba8718ca9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 39/77] fix: IndexBy indexes by the normalized value of the
 field

---
 functions/slices.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index 9332897..b875883 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/xreflect"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"unsafe"
 )
 
 type Slices struct {
@@ -119,20 +120,23 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			return resultMap.Interface(), nil
 		}
 
-		xSlice := xunsafe.NewSlice(sliceType)
-		slicePtr := xunsafe.AsPointer(slice)
+		sliceValue := reflect.ValueOf(slice)
+		for i := 0; i < sliceValue.Len(); i++ {
+			sliceValueAt := sliceValue.Index(i)
+			holder := sliceValueAt
+			for holder.Kind() == reflect.Ptr && !holder.IsNil() {
+				holder = holder.Elem()
+			}
 
-		sliceLen := xSlice.Len(slicePtr)
-		for i := 0; i < sliceLen; i++ {
-			sliceValueAt := xSlice.ValueAt(slicePtr, i)
-			fieldValue := sliceValueAt
-			for _, upstreamType := range upstream {
-				fieldValue = upstreamType.Deref(fieldValue)
+			if holder.Kind() == reflect.Ptr {
+				return nil, fmt.Errorf("can't index by %v, element %v is nil", field, i)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			key := reflect.ValueOf(keys.Normalize(xField.Value(unsafe.Pointer(holder.UnsafeAddr()))))
+			if !key.IsValid() {
+				key = reflect.Zero(mapType.Key())
+			}
+			resultMap.SetMapIndex(key, sliceValueAt)
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
-- 
2.43.0


From 37f0fb2137c3da50593dbf1905fce4f0bee31d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 40/77] fix: reject assignments of undefined values to defined
 targets

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 424009b..1d37b61 100644
--- a/stmt.go
+++ b/stmt.go
@@ -60,6 +60,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the value assigned to %v", x.Selector.ID)
+	}
+
 	unify, err := converter.Unify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 39c9a1011e0217c94bf42267dd4b80513108d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 41/77] fix: convert integers meeting a float to float, also
 when an operand is a pointer

---
 binary.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/binary.go b/binary.go
index e38a254..bcb1728 100644
--- a/binary.go
+++ b/binary.go
@@ -6,13 +6,17 @@ import (
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
 
-var boolType = reflect.TypeOf(true)
+var (
+	boolType    = reflect.TypeOf(true)
+	float64Type = reflect.TypeOf(0.0)
+)
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	actual = regroup(actual)
@@ -107,7 +111,7 @@ func precedence(token ast.Token) int {
 
 //unifyOperands converts operands to the common type, returns type of the expression result
 func unifyOperands(token ast.Token, x, y *op.Expression) (reflect.Type, error) {
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	unify, err := unifyTypes(x.Type, y.Type)
 	if err != nil {
 		return nil, err
 	}
@@ -138,6 +142,38 @@ func unifyOperands(token ast.Token, x, y *op.Expression) (reflect.Type, error) {
 	return boolType, nil
 }
 
+//unifyTypes returns functions converting operands to the common type, an integer meeting a float is converted to float,
+//also when either of them is a pointer
+func unifyTypes(x, y reflect.Type) (*types.Unified, error) {
+	xKind, yKind := valueKind(x), valueKind(y)
+	if !(isFloat(xKind) && keys.IsInteger(yKind)) && !(keys.IsInteger(xKind) && isFloat(yKind)) {
+		return types.NormalizeAndUnify(x, y)
+	}
+
+	xUnify, err := types.Unify(float64Type, x)
+	if err != nil {
+		return nil, err
+	}
+
+	yUnify, err := types.Unify(float64Type, y)
+	if err != nil {
+		return nil, err
+	}
+
+	return &types.Unified{X: xUnify.Y, Y: yUnify.Y, RType: float64Type}, nil
+}
+
+func valueKind(rType reflect.Type) reflect.Kind {
+	if rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+	return rType.Kind()
+}
+
+func isFloat(kind reflect.Kind) bool {
+	return kind == reflect.Float32 || kind == reflect.Float64
+}
+
 //operandUnifier returns function converting operand, uint8 is handled here because converter reads it as int8
 func operandUnifier(from, to reflect.Type, unify types.UnifyFn) types.UnifyFn {
 	if unify == nil || to.Kind() != reflect.Int {
-- 
2.43.0


From dfc5a39ca60ce5c2356098b5167b37a9c1aa8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:05 +0000
Subject: [PATCH 42/77] fix: locate fields of structs held by an embedded
 variable

---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index cad58b6..8f887df 100644
--- a/planner.go
+++ b/planner.go
@@ -75,7 +75,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	}
 
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += initialOffset + field.Offset
 		initialOffset = 0
 
 		if prefix == "" {
-- 
2.43.0


From 0e40f7024d2cc9b4d218471f41aa792e0aa59464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 43/77] fix: reject variables named as an embedded variable

---
 planner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner.go b/planner.go
index 8f887df..7dc5f3a 100644
--- a/planner.go
+++ b/planner.go
@@ -187,6 +187,10 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 	default:
 		sType = reflect.TypeOf(v)
 	}
+	if _, reserved := p.Type.ValueAccessor(name); reserved {
+		return fmt.Errorf("can't define variable %v, name is used by the embedded variable", name)
+	}
+
 	field := p.Type.AddField(name, name, sType)
 	if err := p.addSelectors("", field, name); err != nil {
 		return err
-- 
2.43.0


From a1f50f88fc18ddda279d877857407bfcdf043433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 44/77] fix: follow pointers to fields of a recursive type held
 by a value

---
 planner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner.go b/planner.go
index 7dc5f3a..1c80195 100644
--- a/planner.go
+++ b/planner.go
@@ -224,7 +224,9 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
+		indirect := upstreamSelector.Indirect || resultSelector.Indirect
 		upstreamSelector = p.copyWithParent(resultSelector, p.embeddedHolder(resultSelector.Parent, upstreamSelector))
+		upstreamSelector.Indirect = indirect
 	}
 
 	return upstreamSelector, nil
-- 
2.43.0


From 0bf34030a20a3089ab5ea8616c6742b495b50ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 45/77] fix: separate names listed by the name attribute

---
 tag.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tag.go b/tag.go
index 191f3b2..31a2982 100644
--- a/tag.go
+++ b/tag.go
@@ -29,10 +29,8 @@ func Parse(tagString string) *Tag {
 		nv := strings.Split(element, "=")
 		if len(nv) == 2 {
 			switch strings.ToLower(strings.TrimSpace(nv[0])) {
-			case "names":
+			case "name", "names":
 				tag.Names = strings.Split(strings.TrimSpace(nv[1]), nameSeparator)
-			case "name":
-				tag.Names = []string{strings.TrimSpace(nv[1])}
 			case "prefix":
 				tag.Prefix = strings.TrimSpace(nv[1])
 			}
-- 
2.43.0


From dea158762da3c546ada960aa524ad53fac10d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 46/77] fix: reject fields of slices and maps that are not
 indexed

---
 planner.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/planner.go b/planner.go
index 1c80195..4607a09 100644
--- a/planner.go
+++ b/planner.go
@@ -279,6 +279,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			}
 		}
 
+		if !holdsFields(resultSelector.Type) {
+			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, resultSelector.Type)
+		}
+
 		isCallResult := resultSelector.Func != nil //ID of the call may be the same as the name of some variable
 		selectorId = selectorId + fieldSeparator + actual.ID
 		if fieldSelector, found := p.fieldSelector(selectorId, actual.ID); found && !isCallResult {
@@ -295,6 +299,15 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 	return resultSelector, nil, nil
 }
 
+//holdsFields returns true if the value is a struct or a pointer to a struct
+func holdsFields(rType reflect.Type) bool {
+	if rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+
+	return rType.Kind() == reflect.Struct
+}
+
 //fieldSelector returns a selector of the field, fields of a type that holds itself are indexed once
 func (p *Planner) fieldSelector(selectorId string, fieldName string) (*op.Selector, bool) {
 	if selector, found := p.selectors.ById(selectorId); found {
-- 
2.43.0


From d52ce5951101d326e56de2b770affbaa5c0281e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:10 +0000
Subject: [PATCH 47/77] fix: copy struct items of a foreach with their type

---
 est/stmt/foreach.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index e0c95d3..a4db3fd 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -86,6 +86,22 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//computeTyped copies items with their type, structs holding a single pointer can't be passed as an interface by the Slice
+func (e *ForEach) computeTyped(state *est.State) unsafe.Pointer {
+	xPtr := snapshot(e.X.Exec(state))
+	l := e.Slice.Len(xPtr)
+	itemType := e.Slice.Elem()
+
+	var resultPtr unsafe.Pointer
+	for i := 0; i < l; i++ {
+		item := reflect.NewAt(e.Item.Sel.Type, e.Item.Sel.Pointer(state.MemPtr)).Elem()
+		item.Set(reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(i))).Elem())
+		resultPtr = e.Block(state)
+	}
+
+	return resultPtr
+}
+
 //snapshot copies slice header, the loop goes through the slice it has started with, even if its body assigns the slice
 func snapshot(slicePtr unsafe.Pointer) unsafe.Pointer {
 	header := *(*[]struct{})(slicePtr)
@@ -119,6 +135,8 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 				return loop.computeIndirectPtr, nil
 			}
 			return loop.computePtr, nil
+		case reflect.Struct, reflect.Array:
+			return loop.computeTyped, nil
 		default:
 			if loop.X.Sel != nil && loop.X.Sel.Indirect {
 				return loop.computeIndirect, nil
-- 
2.43.0


From 7ff907212a63bab2a76dc24618e2fd8c89154a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 48/77] fix: iterate over slices of interfaces holding nil

---
 est/stmt/foreach.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index a4db3fd..720bff7 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -86,7 +86,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
-//computeTyped copies items with their type, structs holding a single pointer can't be passed as an interface by the Slice
+//computeTyped copies items with their type, structs holding a single pointer and nil interfaces can't be passed as an interface by the Slice
 func (e *ForEach) computeTyped(state *est.State) unsafe.Pointer {
 	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
@@ -135,7 +135,7 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 				return loop.computeIndirectPtr, nil
 			}
 			return loop.computePtr, nil
-		case reflect.Struct, reflect.Array:
+		case reflect.Struct, reflect.Array, reflect.Interface:
 			return loop.computeTyped, nil
 		default:
 			if loop.X.Sel != nil && loop.X.Sel.Indirect {
-- 
2.43.0


From 13baef8de34d8c0f993ad0ece93c97aef74ce47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 49/77] fix: set foreach items of any type without touching
 adjacent variables

---
 est/stmt/foreach.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 720bff7..1acaa30 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -86,7 +86,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
-//computeTyped copies items with their type, structs holding a single pointer and nil interfaces can't be passed as an interface by the Slice
+//computeTyped copies items with their type, not all types can be passed as an interface by the Slice, or be set with their width
 func (e *ForEach) computeTyped(state *est.State) unsafe.Pointer {
 	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
@@ -135,9 +135,7 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 				return loop.computeIndirectPtr, nil
 			}
 			return loop.computePtr, nil
-		case reflect.Struct, reflect.Array, reflect.Interface:
-			return loop.computeTyped, nil
-		default:
+		case reflect.Int, reflect.String, reflect.Float64, reflect.Bool:
 			if loop.X.Sel != nil && loop.X.Sel.Indirect {
 				return loop.computeIndirect, nil
 			}
@@ -146,7 +144,8 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 				return loop.compute, nil
 			}
 			return loop.computeLiteral, nil
-
+		default:
+			return loop.computeTyped, nil
 		}
 	}, nil
 }
-- 
2.43.0


From f59cfabd618c3162553dff765a968e90348607d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 50/77] fix: receivers that are results of functions, of any
 kind

---
 est/op/operand.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index 25656e7..56d567f 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -131,16 +131,16 @@ func (o *Operand) AsInterface(valuePtr unsafe.Pointer) interface{} {
 	return anInterface
 }
 
+//AsValue returns the result of a function, the function returns pointers themselves and addresses of other values
 func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
-	var anInterface interface{}
 	switch o.XType.Kind() {
 	case reflect.Interface:
 		return o.AsInterface(valuePtr)
+	case reflect.Ptr:
+		return o.XType.Value(valuePtr)
 	default:
-		anInterface = o.XType.Value(valuePtr)
+		return o.XType.Interface(valuePtr)
 	}
-
-	return anInterface
 }
 
 func (o *Operand) trySetType(rType reflect.Type) {
-- 
2.43.0


From 0bf0407c69709f0e8535cc65361e23f82f45b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 51/77] fix: interface arguments don't share the memory of
 template variables

---
 est/op/func.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index 6dc517f..e195b0e 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -216,6 +216,10 @@ func (f *Func) argument(operand *Operand, paramType reflect.Type, state *est.Sta
 
 	value := reflect.ValueOf(anInterface)
 	if value.Type().AssignableTo(paramType) {
+		if paramType.Kind() == reflect.Interface {
+			return detached(value), nil
+		}
+
 		return value, nil
 	}
 
@@ -228,6 +232,13 @@ func (f *Func) argument(operand *Operand, paramType reflect.Type, state *est.Sta
 	return reflect.Value{}, fmt.Errorf("can't use %T as %v argument of the function %v", anInterface, paramType.String(), f.Name)
 }
 
+//detached returns a copy of the value, that doesn't share the memory of the state variable it was read from
+func detached(value reflect.Value) reflect.Value {
+	result := reflect.New(value.Type()).Elem()
+	result.Set(value)
+	return result
+}
+
 func isNumeric(kind reflect.Kind) bool {
 	return keys.IsInteger(kind) || kind == reflect.Float32 || kind == reflect.Float64
 }
-- 
2.43.0


From 608d2761ccf509604a3b910a71fac97b57a07b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 52/77] fix: a nil error of a concrete type is no error

---
 est/op/func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index e195b0e..6d0b5e6 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -145,6 +145,10 @@ func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, err
 		var err error
 		var ok bool
 		errInface := result[1].Interface()
+		if result[1].Kind() == reflect.Ptr && result[1].IsNil() { //no error of a concrete type
+			errInface = nil
+		}
+
 		if errInface != nil {
 			err, ok = errInface.(error)
 			if !ok {
-- 
2.43.0


From 5abd3e8581780e33cf01309b0e5d99d9ab4440a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 53/77] fix: setting variables defined after the state was
 created is an error

---
 est/state.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index 15e907a..c85303c 100644
--- a/est/state.go
+++ b/est/state.go
@@ -28,7 +28,7 @@ type State struct {
 }
 
 func (s *State) SetValue(k string, v interface{}) error {
-	xField, ok := s.StateType.ValueAccessor(k)
+	xField, ok := s.valueAccessor(k)
 	if !ok {
 		return fmt.Errorf("undefined: %v", k)
 	}
@@ -56,7 +56,7 @@ func (s *State) EmbedValue(v interface{}) error {
 		holderName = s.StateType.typeName(vType)
 	}
 
-	xField, ok := s.StateType.ValueAccessor(holderName)
+	xField, ok := s.valueAccessor(holderName)
 	if !ok {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
@@ -64,6 +64,16 @@ func (s *State) EmbedValue(v interface{}) error {
 	return setValue(xField, s.MemPtr, v)
 }
 
+//valueAccessor returns accessor of the state variable, the type may have got more of them since the state was created
+func (s *State) valueAccessor(name string) (*xunsafe.Field, bool) {
+	xField, ok := s.StateType.ValueAccessor(name)
+	if !ok || xField.Offset+xField.Type.Size() > reflect.TypeOf(s.Mem).Elem().Size() {
+		return nil, false
+	}
+
+	return xField, true
+}
+
 func setValue(field *xunsafe.Field, structPtr unsafe.Pointer, v interface{}) error {
 	ptr := field.Pointer(structPtr)
 	switch actual := v.(type) { //fast path for the most frequent types
-- 
2.43.0


From 0e28e2c7c576199f41279b2aed515f985815da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 54/77] fix: embedding a value of a type that wasn't embedded
 is an error

---
 est/state.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index c85303c..d0f65a3 100644
--- a/est/state.go
+++ b/est/state.go
@@ -57,13 +57,25 @@ func (s *State) EmbedValue(v interface{}) error {
 	}
 
 	xField, ok := s.valueAccessor(holderName)
-	if !ok {
-		return fmt.Errorf("undefined: %v", holderName)
+	if !ok || !xField.Anonymous || !sameElem(xField.Type, vType) { //regular variable or other type of the same name
+		return fmt.Errorf("not found holder for %T", v)
 	}
 
 	return setValue(xField, s.MemPtr, v)
 }
 
+func sameElem(x, y reflect.Type) bool {
+	if x.Kind() == reflect.Ptr {
+		x = x.Elem()
+	}
+
+	if y.Kind() == reflect.Ptr {
+		y = y.Elem()
+	}
+
+	return x == y
+}
+
 //valueAccessor returns accessor of the state variable, the type may have got more of them since the state was created
 func (s *State) valueAccessor(name string) (*xunsafe.Field, bool) {
 	xField, ok := s.StateType.ValueAccessor(name)
-- 
2.43.0


From 43b78e338bb15985a995c8d2a4357aa5ae4c2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 55/77] fix: pass variables holding functions as arguments the
 way other values are passed

---
 est/op/operand.go         |  2 --
 est/stmt/assign/assign.go | 13 -------------
 2 files changed, 15 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index 56d567f..04b7249 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -118,8 +118,6 @@ func (o *Operand) AsInterface(valuePtr unsafe.Pointer) interface{} {
 			})(valuePtr)
 		}
 		anInterface = xunsafe.AsInterface(valuePtr)
-	case reflect.Func:
-		anInterface = o.XType.Value(valuePtr)
 	default:
 		if o.LiteralPtr != nil {
 			return o.XType.Value(valuePtr)
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 9801421..f701352 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -198,19 +198,6 @@ func (a *assign) assignValue() est.Compute {
 				return ptr
 			}
 		}
-
-	case reflect.Func:
-		return func(state *est.State) unsafe.Pointer {
-			dest := a.x.Exec(state)
-			src := a.y.Exec(state)
-
-			if dest == nil || src == nil {
-				return nil
-			}
-
-			a.x.Sel.Field.SetFuncAt(dest, a.y.AsInterface(src))
-			return dest
-		}
 	}
 
 	if wasPtr {
-- 
2.43.0


From 1e58c4afac14369e190d83777919a5e52e6e287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 56/77] fix: compare pointers with plain values over the whole
 range of their type

---
 binary.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/binary.go b/binary.go
index bcb1728..eb76245 100644
--- a/binary.go
+++ b/binary.go
@@ -133,8 +133,9 @@ func unifyOperands(token ast.Token, x, y *op.Expression) (reflect.Type, error) {
 		return unify.RType, nil
 	}
 
-	if xType.Kind() == reflect.Ptr && xType == yType { //pointers are compared by value
-		x.Unify, y.Unify = derefPointer, derefPointer
+	if elem, ok := comparedElem(xType, yType); ok { //pointers are compared by value
+		x.Unify, y.Unify = comparedUnifier(xType), comparedUnifier(yType)
+		x.Type, y.Type = reflect.PtrTo(elem), reflect.PtrTo(elem)
 	} else if xType.Kind() == reflect.Ptr || yType.Kind() == reflect.Ptr { //nil can be compared
 		x.Type = reflect.PtrTo(unify.RType)
 	}
@@ -204,6 +205,28 @@ func derefPointer(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return xunsafe.DerefPointer(pointer), nil
 }
 
+//comparedElem returns type of the compared values if either of operands points to the type of the other one
+func comparedElem(x, y reflect.Type) (reflect.Type, bool) {
+	isPtr := x.Kind() == reflect.Ptr || y.Kind() == reflect.Ptr
+	if x.Kind() == reflect.Ptr {
+		x = x.Elem()
+	}
+
+	if y.Kind() == reflect.Ptr {
+		y = y.Elem()
+	}
+
+	return x, isPtr && x == y
+}
+
+func comparedUnifier(rType reflect.Type) types.UnifyFn {
+	if rType.Kind() == reflect.Ptr {
+		return derefPointer
+	}
+
+	return nil
+}
+
 func isComparison(token ast.Token) bool {
 	switch token {
 	case ast.EQ, ast.NEQ, ast.LSS, ast.LEQ, ast.GTR, ast.GTE:
-- 
2.43.0


From 9513d12d011a8818e4c6aaf8802e14c8f30623f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 57/77] fix: look up keys of any integer type, and keys held by
 a map of interfaces under their own type

---
 keys/lookup.go    | 14 ++++++++++++--
 keys/normalize.go | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/keys/lookup.go b/keys/lookup.go
index b49b6f4..a75f7ae 100644
--- a/keys/lookup.go
+++ b/keys/lookup.go
@@ -4,12 +4,18 @@ import "reflect"
 
 //Lookup returns the map value stored under the key, the result is invalid if the map doesn't hold it
 func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
+	keyType := aMap.Type().Key()
+	if rKey := reflect.ValueOf(key); keyType.Kind() == reflect.Interface && rKey.IsValid() && isKey(rKey.Type(), keyType) {
+		if value := aMap.MapIndex(rKey); value.IsValid() { //the map may hold the key of that very type
+			return value
+		}
+	}
+
 	rKey := reflect.ValueOf(Normalize(key))
-	if !rKey.IsValid() {
+	if !rKey.IsValid() || (keyType.Kind() == reflect.Interface && !isKey(rKey.Type(), keyType)) {
 		return reflect.Value{}
 	}
 
-	keyType := aMap.Type().Key()
 	if !rKey.Type().AssignableTo(keyType) {
 		switch {
 		case IsInteger(rKey.Kind()) && IsInteger(keyType.Kind()):
@@ -43,3 +49,7 @@ func sameInteger(x, y reflect.Value) bool {
 	negativeY := IsSigned(y.Kind()) && y.Int() < 0
 	return negativeX == negativeY && y.Convert(x.Type()).Interface() == x.Interface()
 }
+
+func isKey(rType, keyType reflect.Type) bool {
+	return rType.Comparable() && rType.AssignableTo(keyType)
+}
diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..0847536 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,5 +1,7 @@
 package keys
 
+import "reflect"
+
 func Normalize(key interface{}) interface{} {
 	if key == nil {
 		return nil
@@ -36,6 +38,14 @@ func Normalize(key interface{}) interface{} {
 		return int(actual)
 	case int16:
 		return int(actual)
+	case int8:
+		return int(actual)
+	case uint8:
+		return int(actual)
+	case uint16:
+		return int(actual)
+	case uint32, uint, uint64, uintptr:
+		return normalizeUnsigned(actual)
 	case *int:
 		if actual == nil {
 			return nil
@@ -60,3 +70,12 @@ func Normalize(key interface{}) interface{} {
 	}
 	return key
 }
+
+//normalizeUnsigned returns int unless the value is out of its range
+func normalizeUnsigned(key interface{}) interface{} {
+	if value := reflect.ValueOf(key).Uint(); value == uint64(int(value)) && int(value) >= 0 {
+		return int(value)
+	}
+
+	return key
+}
-- 
2.43.0


From d5842da7f4bbe7d290fd67f888ba4814f187ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 58/77] fix: index slices by promoted fields

---
 functions/slices.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/functions/slices.go b/functions/slices.go
index b875883..d999722 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -132,6 +132,10 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				return nil, fmt.Errorf("can't index by %v, element %v is nil", field, i)
 			}
 
+			if holder, err = in.embeddedHolder(holder, field); err != nil {
+				return nil, err
+			}
+
 			key := reflect.ValueOf(keys.Normalize(xField.Value(unsafe.Pointer(holder.UnsafeAddr()))))
 			if !key.IsValid() {
 				key = reflect.Zero(mapType.Key())
@@ -147,6 +151,26 @@ func (in *indexSliceByFunc) Handler() interface{} {
 	}
 }
 
+//embeddedHolder returns the embedded struct holding the field, offset of a promoted field is relative to that struct
+func (in *indexSliceByFunc) embeddedHolder(holder reflect.Value, field string) (reflect.Value, error) {
+	structField, ok := holder.Type().FieldByName(field)
+	if !ok {
+		return holder, nil
+	}
+
+	for _, index := range structField.Index[:len(structField.Index)-1] {
+		holder = holder.Field(index)
+		if holder.Kind() == reflect.Ptr {
+			if holder.IsNil() {
+				return holder, fmt.Errorf("can't index by %v, embedded %v is nil", field, holder.Type().String())
+			}
+			holder = holder.Elem()
+		}
+	}
+
+	return holder, nil
+}
+
 func (in *indexSliceByFunc) ResultType(receiver reflect.Type, _ *expr.Call) (reflect.Type, error) {
 	if receiver.Kind() != reflect.Slice {
 		return nil, fmt.Errorf("unsupported IndexBy receiver type %s", receiver.String())
-- 
2.43.0


From 1ce71b16c31f0d61e09fa3afb9fbfe30f2b5647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 59/77] fix: unmarshalling JSON without a type parser, or into
 an unknown type, is an error

Compiling a call with a literal type name panicked when no TypeParser was specified.
---
 functions/json.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..c679aef 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -26,7 +26,7 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 			return nil, nil
 		}
 
-		return n.parser(asLiteral.Value)
+		return n.parse(asLiteral.Value)
 	}
 
 	return nil, nil
@@ -42,16 +42,12 @@ func (n *JSON) Marshal(any interface{}) (string, error) {
 }
 
 func (n *JSON) UnmarshalInto(data interface{}, typeRepresentation string) (interface{}, error) {
-	if n.parser == nil {
-		return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", typeRepresentation)
-	}
-
 	bytes, err := asBytes(data)
 	if err != nil {
 		return nil, err
 	}
 
-	rType, err := n.parser(typeRepresentation)
+	rType, err := n.parse(typeRepresentation)
 	if err != nil {
 		return nil, err
 	}
@@ -65,6 +61,19 @@ func (n *JSON) UnmarshalInto(data interface{}, typeRepresentation string) (inter
 
 }
 
+func (n *JSON) parse(typeRepresentation string) (reflect.Type, error) {
+	if n.parser == nil {
+		return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", typeRepresentation)
+	}
+
+	rType, err := n.parser(typeRepresentation)
+	if err == nil && rType == nil {
+		err = fmt.Errorf("can't unmarshall into %v due to unknown type", typeRepresentation)
+	}
+
+	return rType, err
+}
+
 func asBytes(data interface{}) ([]byte, error) {
 	switch actual := data.(type) {
 	case string:
-- 
2.43.0


From 62fa5ecfa0ee555bb6c9ce4362ecd1c9ff42c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 60/77] fix: render a nil pointer to a time held by an
 interface

---
 est/stmt/select.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 78787cc..56a2a97 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -95,6 +95,10 @@ func (a *directAppender) newInterfaceAppender() est.Compute {
 		case time.Time:
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case *time.Time:
+			if actual == nil {
+				state.Buffer.AppendString(fmt.Sprintf("%v", actual))
+				return exec
+			}
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case bool:
 			state.Buffer.AppendBool(actual)
-- 
2.43.0


From e6cc505deea7867c5d93e34fadeb57fe5518c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 61/77] fix: numbers assigned to strings keep their precision
 and sign

---
 stmt.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/stmt.go b/stmt.go
index 1d37b61..6435f54 100644
--- a/stmt.go
+++ b/stmt.go
@@ -13,6 +13,7 @@ import (
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
 	"reflect"
+	"strconv"
 	"unsafe"
 )
 
@@ -95,7 +96,7 @@ func validateAssignTarget(target *op.Expression, node ast.Node) error {
 }
 
 //assignUnifier returns function converting assigned value, 8 bit integers are handled here because converter reads them with the
-//sign or the size of the target, a nil pointer is converted to the zero value, a pointer target gets address of a copy
+//sign or the size of the target, and numbers assigned to strings because it formats them as int or float32, a nil pointer is converted to the zero value, a pointer target gets address of a copy
 func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
 	isPtr := from.Kind() == reflect.Ptr
 	if to.Kind() == reflect.Ptr && !isPtr {
@@ -110,13 +111,21 @@ func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.Uni
 		from = from.Elem()
 	}
 
+	var valueUnify converter.UnifyFn
 	if (from.Kind() == reflect.Int8 || from.Kind() == reflect.Uint8) && to.Kind() >= reflect.Int && to.Kind() <= reflect.Uint64 {
-		valueUnify := func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		valueUnify = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 			result := reflect.New(to)
 			result.Elem().Set(reflect.NewAt(from, pointer).Elem().Convert(to))
 			return unsafe.Pointer(result.Pointer()), nil
 		}
+	} else if to.Kind() == reflect.String && from.Kind() >= reflect.Int && from.Kind() <= reflect.Float64 {
+		valueUnify = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+			text := formatNumber(reflect.NewAt(from, pointer).Elem())
+			return unsafe.Pointer(&text), nil
+		}
+	}
 
+	if valueUnify != nil {
 		unify = valueUnify
 		if isPtr {
 			unify = func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
@@ -137,6 +146,17 @@ func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.Uni
 	}
 }
 
+func formatNumber(number reflect.Value) string {
+	switch number.Kind() {
+	case reflect.Float32, reflect.Float64:
+		return strconv.FormatFloat(number.Float(), 'f', -1, number.Type().Bits())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(number.Int(), 10)
+	default:
+		return strconv.FormatUint(number.Uint(), 10)
+	}
+}
+
 //pointerUnifier returns function converting value to the pointer to its copy
 func pointerUnifier(from, to reflect.Type, fallback converter.UnifyFn) converter.UnifyFn {
 	unify, err := converter.Unify(to, from)
-- 
2.43.0


From 8fdbefbab0d5ca927f1eea41dafa10e4b819107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 62/77] fix: convert anything meeting a pointer to string to
 string, whichever operand it is

---
 binary.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/binary.go b/binary.go
index eb76245..b77a90d 100644
--- a/binary.go
+++ b/binary.go
@@ -16,6 +16,7 @@ import (
 var (
 	boolType    = reflect.TypeOf(true)
 	float64Type = reflect.TypeOf(0.0)
+	stringType  = reflect.TypeOf("")
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
@@ -144,24 +145,30 @@ func unifyOperands(token ast.Token, x, y *op.Expression) (reflect.Type, error) {
 }
 
 //unifyTypes returns functions converting operands to the common type, an integer meeting a float is converted to float,
-//also when either of them is a pointer
+//anything meeting a string to string, also when either of them is a pointer
 func unifyTypes(x, y reflect.Type) (*types.Unified, error) {
 	xKind, yKind := valueKind(x), valueKind(y)
-	if !(isFloat(xKind) && keys.IsInteger(yKind)) && !(keys.IsInteger(xKind) && isFloat(yKind)) {
-		return types.NormalizeAndUnify(x, y)
+	switch {
+	case isFloat(xKind) && keys.IsInteger(yKind), keys.IsInteger(xKind) && isFloat(yKind):
+		return unifyWith(float64Type, x, y)
+	case xKind != reflect.String && y.Kind() == reflect.Ptr && yKind == reflect.String:
+		return unifyWith(stringType, x, y)
 	}
+	return types.NormalizeAndUnify(x, y)
+}
 
-	xUnify, err := types.Unify(float64Type, x)
+func unifyWith(target, x, y reflect.Type) (*types.Unified, error) {
+	xUnify, err := types.Unify(target, x)
 	if err != nil {
 		return nil, err
 	}
 
-	yUnify, err := types.Unify(float64Type, y)
+	yUnify, err := types.Unify(target, y)
 	if err != nil {
 		return nil, err
 	}
 
-	return &types.Unified{X: xUnify.Y, Y: yUnify.Y, RType: float64Type}, nil
+	return &types.Unified{X: xUnify.Y, Y: yUnify.Y, RType: target}, nil
 }
 
 func valueKind(rType reflect.Type) reflect.Kind {
-- 
2.43.0


From cd8ab9dea81ec39ee4fcd4631facf5583374803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 63/77] fix: concatenate numbers with strings and compare them
 in their full decimal form

---
 binary.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/binary.go b/binary.go
index b77a90d..100940b 100644
--- a/binary.go
+++ b/binary.go
@@ -182,25 +182,33 @@ func isFloat(kind reflect.Kind) bool {
 	return kind == reflect.Float32 || kind == reflect.Float64
 }
 
-//operandUnifier returns function converting operand, uint8 is handled here because converter reads it as int8
+//operandUnifier returns function converting operand, uint8 is handled here because converter reads it as int8, and
+//numbers meeting a string because converter formats them as int or float32
 func operandUnifier(from, to reflect.Type, unify types.UnifyFn) types.UnifyFn {
-	if unify == nil || to.Kind() != reflect.Int {
+	if unify == nil {
 		return unify
 	}
 
+	kind := valueKind(from)
 	switch {
-	case from.Kind() == reflect.Uint8:
-		return uint8ToInt
-	case from.Kind() == reflect.Ptr && from.Elem().Kind() == reflect.Uint8:
-		return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
-			if pointer = xunsafe.DerefPointer(pointer); pointer == nil {
-				return nil, nil
-			}
-			return uint8ToInt(pointer)
-		}
+	case to.Kind() == reflect.Int && kind == reflect.Uint8:
+		unify = uint8ToInt
+	case to.Kind() == reflect.String && kind >= reflect.Int && kind <= reflect.Float64:
+		unify = numberToString(from)
+	default:
+		return unify
 	}
 
-	return unify
+	if from.Kind() != reflect.Ptr {
+		return unify
+	}
+
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		if pointer = xunsafe.DerefPointer(pointer); pointer == nil {
+			return nil, nil
+		}
+		return unify(pointer)
+	}
 }
 
 func uint8ToInt(pointer unsafe.Pointer) (unsafe.Pointer, error) {
@@ -208,6 +216,17 @@ func uint8ToInt(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return unsafe.Pointer(&anInt), nil
 }
 
+func numberToString(rType reflect.Type) types.UnifyFn {
+	if rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		text := formatNumber(reflect.NewAt(rType, pointer).Elem())
+		return unsafe.Pointer(&text), nil
+	}
+}
+
 func derefPointer(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return xunsafe.DerefPointer(pointer), nil
 }
-- 
2.43.0


From 8f45eb0316d07f32fdff89a83f011c00817c1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 64/77] fix: reject calls of functions with invalid arguments
 instead of rendering their source

---
 planner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/planner.go b/planner.go
index 4607a09..57acc19 100644
--- a/planner.go
+++ b/planner.go
@@ -238,6 +238,12 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 		return opSelector, next, nil
 	}
 
+	if call, ok := selector.X.(*expr.Call); ok && err != nil {
+		if _, notFound := p.Func(nil, selector.ID, call); notFound == nil { //arguments of the existing function are invalid
+			return nil, nil, err
+		}
+	}
+
 	resultSelector := p.selectorByName(selector.ID)
 	if resultSelector != nil && resultSelector.Literal != nil && selector.X == nil { //functions namespace is not a value
 		return nil, nil, nil
-- 
2.43.0


From 3fe597d8b87a68879d4652d62669984c59566735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 65/77] fix: reject standalone functions that are not functions
 or return unsupported results

---
 est/op/func.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index 6d0b5e6..a5546ac 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -911,6 +911,15 @@ func (f *Functions) RegisterStandaloneFunction(name string, function *Function)
 		return fmt.Errorf("function %v already exists", name)
 	}
 
+	rType := reflect.TypeOf(function.Handler)
+	if rType == nil || rType.Kind() != reflect.Func {
+		return fmt.Errorf("unexpected function handler type, expected Function, got %T", function.Handler)
+	}
+
+	if err := validateMethodSignature(rType, true); err != nil {
+		return err
+	}
+
 	f.functions[name] = function
 	return nil
 }
-- 
2.43.0


From 133738d5b06ea50a3d2644913fe55a074755246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 66/77] fix: embed variables of generic types

The name of the field holding an embedded value of a generic type was taken
with the type arguments, and reflect.StructOf panicked.
---
 est/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/est/type.go b/est/type.go
index 22c46d4..4ea32e8 100644
--- a/est/type.go
+++ b/est/type.go
@@ -50,7 +50,8 @@ func (t *Type) typeName(rType reflect.Type) string {
 	}
 
 	if rType.Name() != "" {
-		idSegments := strings.Split(rType.String(), ".")
+		name := strings.SplitN(rType.String(), "[", 2)[0] //embedded field of a generic type has no type arguments in its name
+		idSegments := strings.Split(name, ".")
 		id = idSegments[len(idSegments)-1]
 	}
 
-- 
2.43.0


From 348e746632313d11ef2bb5e8ce8a16c1f27e2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 67/77] fix: normalize map keys and slice indexes that are
 pointers to integers of any width

---
 keys/normalize.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keys/normalize.go b/keys/normalize.go
index 0847536..a810c03 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -68,6 +68,14 @@ func Normalize(key interface{}) interface{} {
 		}
 		return *actual
 	}
+
+	if rKey := reflect.ValueOf(key); rKey.Kind() == reflect.Ptr && IsInteger(rKey.Type().Elem().Kind()) {
+		if rKey.IsNil() {
+			return nil
+		}
+		return Normalize(rKey.Elem().Interface())
+	}
+
 	return key
 }
 
-- 
2.43.0


From 3c52009e8fd04461150df6b69554d21ed4d091b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 68/77] fix: don't hold literal ranges of #foreach in memory,
 large ones made Compile panic or run out of memory

---
 est/op/expr.go      |  1 +
 est/op/range.go     | 18 ++++++++++++++++++
 est/stmt/foreach.go | 36 ++++++++++++++++++------------------
 planner.go          |  4 ----
 range.go            | 20 ++------------------
 5 files changed, 39 insertions(+), 40 deletions(-)
 create mode 100644 est/op/range.go

diff --git a/est/op/expr.go b/est/op/expr.go
index 3449307..8cdbbcc 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -17,6 +17,7 @@ type Expression struct {
 	*Selector
 	est.New
 	Unify converter.UnifyFn
+	Range *Range
 }
 
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
diff --git a/est/op/range.go b/est/op/range.go
new file mode 100644
index 0000000..666977f
--- /dev/null
+++ b/est/op/range.go
@@ -0,0 +1,18 @@
+package op
+
+//Range represents integers of the literal range, End is not a part of it
+type Range struct {
+	Begin int
+	End   int
+	Step  int
+}
+
+//NewRange creates a range, it is descending if begin is greater than end
+func NewRange(begin, end int) *Range {
+	step := 1
+	if begin > end {
+		step = -1
+	}
+
+	return &Range{Begin: begin, End: end, Step: step}
+}
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 1acaa30..aad3d02 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -11,8 +11,9 @@ import (
 type ForEach struct {
 	Block est.Compute
 
-	Item *op.Operand
-	X    *op.Operand
+	Item  *op.Operand
+	X     *op.Operand
+	Range *op.Range
 
 	*xunsafe.Slice
 }
@@ -72,14 +73,11 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//computeLiteral goes through the literal range, which may be too large to be held in memory
 func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
-	xPtr := *e.X.LiteralPtr
-	l := e.Slice.Len(xPtr)
-
 	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+	for i := e.Range.Begin; i != e.Range.End; i += e.Range.Step {
+		e.Item.Sel.SetValue(state.MemPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -110,25 +108,30 @@ func snapshot(slicePtr unsafe.Pointer) unsafe.Pointer {
 
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		aSlice, err := sliceExpr.Operand(control)
+		var err error
+		loop := &ForEach{Range: sliceExpr.Range}
+		loop.Block, err = block(control)
 		if err != nil {
 			return nil, err
 		}
 
-		loop := &ForEach{}
-		loop.Block, err = block(control)
+		loop.Item, err = itemExpr.Operand(control)
 		if err != nil {
 			return nil, err
 		}
 
-		loop.Slice = xunsafe.NewSlice(aSlice.Type)
-		loop.X = aSlice
+		if loop.Range != nil {
+			return loop.computeLiteral, nil
+		}
 
-		loop.Item, err = itemExpr.Operand(control)
+		aSlice, err := sliceExpr.Operand(control)
 		if err != nil {
 			return nil, err
 		}
 
+		loop.Slice = xunsafe.NewSlice(aSlice.Type)
+		loop.X = aSlice
+
 		switch loop.Slice.Elem().Kind() {
 		case reflect.Ptr:
 			if loop.X.Sel != nil && loop.X.Sel.Indirect {
@@ -140,10 +143,7 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 				return loop.computeIndirect, nil
 			}
 
-			if loop.X.Sel != nil {
-				return loop.compute, nil
-			}
-			return loop.computeLiteral, nil
+			return loop.compute, nil
 		default:
 			return loop.computeTyped, nil
 		}
diff --git a/planner.go b/planner.go
index 57acc19..e8205ae 100644
--- a/planner.go
+++ b/planner.go
@@ -545,10 +545,6 @@ func (p *Planner) apply(options []Option) {
 	}
 }
 
-func (p *Planner) registerConst(i *[]int) {
-	p.constants.add(i)
-}
-
 func (p *Planner) init(options []Option) {
 	p.apply(options)
 
diff --git a/range.go b/range.go
index f0d2f54..175f5c1 100644
--- a/range.go
+++ b/range.go
@@ -5,7 +5,6 @@ import (
 	"github.com/viant/velty/est/op"
 	"reflect"
 	"strconv"
-	"unsafe"
 )
 
 func (p *Planner) compileRange(actual *aexpr.Range) (*op.Expression, error) {
@@ -19,23 +18,8 @@ func (p *Planner) compileRange(actual *aexpr.Range) (*op.Expression, error) {
 		return nil, err
 	}
 
-	var aSlice []int
-	if begin < finish {
-		aSlice = make([]int, finish-begin)
-		for i := 0; i < len(aSlice); i++ {
-			aSlice[i] = begin + i
-		}
-	} else {
-		aSlice = make([]int, begin-finish)
-		for i := 0; i < len(aSlice); i++ {
-			aSlice[i] = begin - i
-		}
-	}
-
-	p.registerConst(&aSlice)
-	slicePtr := unsafe.Pointer(&aSlice)
 	return &op.Expression{
-		LiteralPtr: &slicePtr,
-		Type:       reflect.SliceOf(actual.Type()),
+		Range: op.NewRange(begin, finish),
+		Type:  reflect.SliceOf(actual.Type()),
 	}, nil
 }
-- 
2.43.0


From 87d9526d3663b037da8695693d49eaab55b300e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 69/77] fix: identify embedded types without a name by the
 type, not by its text, two of them may print alike

---
 est/type.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/est/type.go b/est/type.go
index 4ea32e8..0591abb 100644
--- a/est/type.go
+++ b/est/type.go
@@ -20,7 +20,7 @@ type Type struct {
 	fields          []reflect.StructField
 	xFields         []*xunsafe.Field
 	transients      *int
-	anonymousFields map[string]string
+	anonymousFields map[reflect.Type]string
 }
 
 func (t *Type) AddField(id string, name string, rType reflect.Type) reflect.StructField {
@@ -65,7 +65,7 @@ func (t *Type) addField(id string, name string, rType reflect.Type, anonymous bo
 			name = t.ReserveNewName()
 		} else {
 			name = t.reserveNewName(anonymousNamespace)
-			t.anonymousFields[rType.String()] = name
+			t.anonymousFields[rType] = name
 			id = name
 		}
 	}
@@ -98,7 +98,7 @@ func (t *Type) Snapshot() *Type {
 	xFields := make([]*xunsafe.Field, len(t.xFields))
 	fields := make([]reflect.StructField, len(t.fields))
 	types := map[string]int{}
-	anonymousFields := map[string]string{}
+	anonymousFields := map[reflect.Type]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
 	transients := *t.transients
@@ -132,8 +132,7 @@ func (t *Type) reserveNewName(ns string) string {
 }
 
 func (t *Type) AnonymousHolder(rType reflect.Type) (string, bool) {
-	stringified := rType.String()
-	holder, ok := t.anonymousFields[stringified]
+	holder, ok := t.anonymousFields[rType]
 	return holder, ok
 }
 
@@ -143,6 +142,6 @@ func NewType() *Type {
 		Type:            reflect.StructOf([]reflect.StructField{}),
 		fieldsIndex:     map[string]int{},
 		transients:      &transients,
-		anonymousFields: map[string]string{},
+		anonymousFields: map[reflect.Type]string{},
 	}
 }
-- 
2.43.0


From b9f85fd0323e175c9c911016631ca370e9846ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 70/77] fix: render undefined references as they were written
 also with HTML escaping

---
 est/stmt/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 56a2a97..bf7fde5 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -76,7 +76,7 @@ func (a *directAppender) newAppendFloatIndirect() est.Compute {
 func (a *directAppender) appendSelectorName() est.Compute {
 	asPtr := unsafe.Pointer(&a.x.Sel.Placeholder)
 	return func(state *est.State) unsafe.Pointer {
-		state.Buffer.AppendString(a.x.Sel.Placeholder)
+		state.Buffer.AppendStringWithoutEscaping(a.x.Sel.Placeholder)
 		return asPtr
 	}
 }
-- 
2.43.0


From bf1d2649d7fff4e0f0da1c6c40940742306d95a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 71/77] fix: report embedding a type whose name is already used
 instead of panicking

---
 est/type.go | 11 +++++++++++
 planner.go  |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/est/type.go b/est/type.go
index 0591abb..30d8149 100644
--- a/est/type.go
+++ b/est/type.go
@@ -42,6 +42,17 @@ func (t *Type) EmbedType(rType reflect.Type) reflect.StructField {
 	return field
 }
 
+//IsEmbedNameUsed returns the name an embedded variable of the type would have, and whether other variable has the name
+func (t *Type) IsEmbedNameUsed(rType reflect.Type) (string, bool) {
+	name := t.typeName(rType)
+	if name == "" { //reserves unique name
+		return "", false
+	}
+
+	_, used := t.fieldsIndex[name]
+	return name, used
+}
+
 func (t *Type) typeName(rType reflect.Type) string {
 	var id string
 
diff --git a/planner.go b/planner.go
index e8205ae..81485cd 100644
--- a/planner.go
+++ b/planner.go
@@ -45,6 +45,10 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 		rType = reflect.TypeOf(val)
 	}
 
+	if name, reserved := p.Type.IsEmbedNameUsed(rType); reserved {
+		return fmt.Errorf("can't embed variable of type %v, name %v is already used", rType, name)
+	}
+
 	field := p.Type.EmbedType(rType)
 	vTag := Parse(field.Tag.Get(velty))
 
-- 
2.43.0


From e1985eb4d2fe3b70cafdcb330491c5a8bb399b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 72/77] fix: refuse functions with the second result that has a
 method named Error but is not an error

---
 est/op/func.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index a5546ac..39ae526 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -403,6 +403,8 @@ func (f *Functions) newFunc(name string, funcType reflect.Type, resultType refle
 	return aFunc, nil
 }
 
+var errorType = reflect.TypeOf((*error)(nil)).Elem()
+
 func validateMethodSignature(funcType reflect.Type, resultTypeSpecified bool) error {
 	if funcType.NumOut() > 2 || funcType.NumOut() == 0 {
 		return fmt.Errorf("function has to return one or two results ")
@@ -413,7 +415,7 @@ func validateMethodSignature(funcType reflect.Type, resultTypeSpecified bool) er
 	}
 
 	if funcType.NumOut() == 2 {
-		if _, found := funcType.Out(1).MethodByName("Error"); !found {
+		if !funcType.Out(1).Implements(errorType) {
 			return fmt.Errorf("2nd return has to be an error if specified")
 		}
 	}
-- 
2.43.0


From 10934b8c4badae93f554e7cc5bb9817a44f55839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 73/77] fix: reject assignments to fields of map elements
 instead of ignoring them

---
 stmt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stmt.go b/stmt.go
index 6435f54..dcf3166 100644
--- a/stmt.go
+++ b/stmt.go
@@ -92,6 +92,17 @@ func validateAssignTarget(target *op.Expression, node ast.Node) error {
 		return fmt.Errorf("unsupported assignment target %v", selector.ID)
 	}
 
+	for holder := selector; holder.Slice == nil && holder.Parent != nil; { //map holds values that are not addressable
+		holder = holder.Parent
+		if holder.Type == nil || holder.Type.Kind() == reflect.Ptr {
+			break
+		}
+
+		if holder.Map != nil {
+			return fmt.Errorf("unsupported assignment target %v, it's a part of the map element", selector.ID)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 828c212fbe24635bc026aacf85bb3ffec0026e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 74/77] fix: convert values between pointers of different types
 the way other values are converted, keep nil pointers

---
 stmt.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stmt.go b/stmt.go
index dcf3166..8f66277 100644
--- a/stmt.go
+++ b/stmt.go
@@ -110,12 +110,12 @@ func validateAssignTarget(target *op.Expression, node ast.Node) error {
 //sign or the size of the target, and numbers assigned to strings because it formats them as int or float32, a nil pointer is converted to the zero value, a pointer target gets address of a copy
 func assignUnifier(from, to reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
 	isPtr := from.Kind() == reflect.Ptr
-	if to.Kind() == reflect.Ptr && !isPtr {
+	if to.Kind() == reflect.Ptr && (!isPtr || unify != nil) {
 		return pointerUnifier(from, to.Elem(), unify)
 	}
 
-	if unify == nil || to.Kind() == reflect.Ptr {
-		return unify
+	if unify == nil {
+		return nil
 	}
 
 	if isPtr {
@@ -176,7 +176,12 @@ func pointerUnifier(from, to reflect.Type, fallback converter.UnifyFn) converter
 	}
 
 	valueUnify := assignUnifier(from, to, unify.Y)
+	isPtr := from.Kind() == reflect.Ptr
 	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		if isPtr && xunsafe.DerefPointer(pointer) == nil { //nil pointer stays nil
+			return unsafe.Pointer(new(unsafe.Pointer)), nil
+		}
+
 		if valueUnify != nil {
 			var err error
 			if pointer, err = valueUnify(pointer); err != nil {
-- 
2.43.0


From 8d087a7e95c34919e00111ae1b5accdf4d0377bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:41 +0000
Subject: [PATCH 75/77] fix: keys that are pointers to floats are looked up as
 the float, not truncated

---
 keys/lookup.go    | 25 +++++++++++++++++++++++++
 keys/normalize.go | 18 +++++++++++++++---
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/keys/lookup.go b/keys/lookup.go
index a75f7ae..135c267 100644
--- a/keys/lookup.go
+++ b/keys/lookup.go
@@ -5,6 +5,12 @@ import "reflect"
 //Lookup returns the map value stored under the key, the result is invalid if the map doesn't hold it
 func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
 	keyType := aMap.Type().Key()
+	if floatKey, ok := floatKeyOf(key, keyType); ok {
+		if value := aMap.MapIndex(floatKey); value.IsValid() || keyType.Kind() != reflect.Interface {
+			return value
+		}
+	}
+
 	if rKey := reflect.ValueOf(key); keyType.Kind() == reflect.Interface && rKey.IsValid() && isKey(rKey.Type(), keyType) {
 		if value := aMap.MapIndex(rKey); value.IsValid() { //the map may hold the key of that very type
 			return value
@@ -34,6 +40,25 @@ func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
 	return aMap.MapIndex(rKey)
 }
 
+//floatKeyOf returns the key of the map held by a pointer to float
+func floatKeyOf(key interface{}, keyType reflect.Type) (reflect.Value, bool) {
+	rKey := reflect.ValueOf(key)
+	if rKey.Kind() != reflect.Ptr || rKey.IsNil() {
+		return reflect.Value{}, false
+	}
+
+	rKey = rKey.Elem()
+	if rKey.Kind() != reflect.Float64 && rKey.Kind() != reflect.Float32 {
+		return reflect.Value{}, false
+	}
+
+	if rKey.Kind() == keyType.Kind() {
+		return rKey.Convert(keyType), true
+	}
+
+	return rKey, keyType.Kind() == reflect.Interface && isKey(rKey.Type(), keyType)
+}
+
 //IsInteger returns true for signed and unsigned integers
 func IsInteger(kind reflect.Kind) bool {
 	return kind >= reflect.Int && kind <= reflect.Uintptr
diff --git a/keys/normalize.go b/keys/normalize.go
index a810c03..e934ca6 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,6 +1,9 @@
 package keys
 
-import "reflect"
+import (
+	"math"
+	"reflect"
+)
 
 func Normalize(key interface{}) interface{} {
 	if key == nil {
@@ -21,12 +24,12 @@ func Normalize(key interface{}) interface{} {
 		if actual == nil {
 			return nil
 		}
-		return int(*actual)
+		return normalizeFloat(*actual, *actual)
 	case *float32:
 		if actual == nil {
 			return nil
 		}
-		return int(*actual)
+		return normalizeFloat(float64(*actual), *actual)
 	case *int16:
 		if actual == nil {
 			return nil
@@ -79,6 +82,15 @@ func Normalize(key interface{}) interface{} {
 	return key
 }
 
+//normalizeFloat returns int unless the value has a fraction, or is out of the int range
+func normalizeFloat(value float64, key interface{}) interface{} {
+	if value == math.Trunc(value) && value >= math.MinInt64 && value < math.MaxInt64 {
+		return int(value)
+	}
+
+	return key
+}
+
 //normalizeUnsigned returns int unless the value is out of its range
 func normalizeUnsigned(key interface{}) interface{} {
 	if value := reflect.ValueOf(key).Uint(); value == uint64(int(value)) && int(value) >= 0 {
-- 
2.43.0


From b1f48bf9e88534e974f4e17f66e070503badec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 76/77] fix: the for step computes its whole right side before
 it is applied

---
 parser/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/token.go b/parser/token.go
index c432cc0..b71fc95 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -7,6 +7,10 @@ import (
 )
 
 func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matchedCode int) (ast2.Token, ast2.Expression) {
+	if _, ok := rightOperand.(*expr.Binary); ok { //it is computed before it is applied to the variable
+		rightOperand = &expr.Parentheses{P: rightOperand}
+	}
+
 	switch matchedCode {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-- 
2.43.0


From 5f527c9c9db7545dfe1339b5bb6831aded1f04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 77/77] fix: IndexBy a value that can't be a key of a map is an
 error, not a panic

---
 functions/slices.go |  4 ++++
 keys/lookup.go      | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index d999722..623d470 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -137,6 +137,10 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			}
 
 			key := reflect.ValueOf(keys.Normalize(xField.Value(unsafe.Pointer(holder.UnsafeAddr()))))
+			if !keys.IsHashable(key) {
+				return nil, fmt.Errorf("can't index by %v, %T can't be a key", field, key.Interface())
+			}
+
 			if !key.IsValid() {
 				key = reflect.Zero(mapType.Key())
 			}
diff --git a/keys/lookup.go b/keys/lookup.go
index 135c267..96b6f87 100644
--- a/keys/lookup.go
+++ b/keys/lookup.go
@@ -11,14 +11,14 @@ func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
 		}
 	}
 
-	if rKey := reflect.ValueOf(key); keyType.Kind() == reflect.Interface && rKey.IsValid() && isKey(rKey.Type(), keyType) {
+	if rKey := reflect.ValueOf(key); keyType.Kind() == reflect.Interface && rKey.IsValid() && isKey(rKey, keyType) {
 		if value := aMap.MapIndex(rKey); value.IsValid() { //the map may hold the key of that very type
 			return value
 		}
 	}
 
 	rKey := reflect.ValueOf(Normalize(key))
-	if !rKey.IsValid() || (keyType.Kind() == reflect.Interface && !isKey(rKey.Type(), keyType)) {
+	if !rKey.IsValid() || (keyType.Kind() == reflect.Interface && !isKey(rKey, keyType)) {
 		return reflect.Value{}
 	}
 
@@ -56,7 +56,7 @@ func floatKeyOf(key interface{}, keyType reflect.Type) (reflect.Value, bool) {
 		return rKey.Convert(keyType), true
 	}
 
-	return rKey, keyType.Kind() == reflect.Interface && isKey(rKey.Type(), keyType)
+	return rKey, keyType.Kind() == reflect.Interface && isKey(rKey, keyType)
 }
 
 //IsInteger returns true for signed and unsigned integers
@@ -75,6 +75,32 @@ func sameInteger(x, y reflect.Value) bool {
 	return negativeX == negativeY && y.Convert(x.Type()).Interface() == x.Interface()
 }
 
-func isKey(rType, keyType reflect.Type) bool {
-	return rType.Comparable() && rType.AssignableTo(keyType)
+func isKey(key reflect.Value, keyType reflect.Type) bool {
+	return IsHashable(key) && key.Type().AssignableTo(keyType)
+}
+
+//IsHashable returns true if the value can be a key of a map
+func IsHashable(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Interface:
+		return IsHashable(value.Elem())
+	case reflect.Struct:
+		for i := 0; i < value.NumField(); i++ {
+			if !IsHashable(value.Field(i)) {
+				return false
+			}
+		}
+		return true
+	case reflect.Array:
+		for i := 0; i < value.Len(); i++ {
+			if !IsHashable(value.Index(i)) {
+				return false
+			}
+		}
+		return value.Type().Comparable()
+	}
+
+	return value.Type().Comparable()
 }
-- 
2.43.0

