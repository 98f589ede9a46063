From 692fb422b1f088f4019966afb63995e0d6e1da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 1/5] fix: compute rounded divisions with integer arithmetic

The /R and /U divisions went through float64, which cannot represent
integers beyond 2^53: C(9007199254740993/1R) answered 9007199254740992.
---
 pkg/core/evaluator/eval_infix_expression.go | 41 ++++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..e6bf11e 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,8 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
-
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
@@ -128,20 +126,51 @@ func (e *Evaluator) evalIntegerDivide(
 	case ast.ROUNDING_METHOD_ROUND:
 		{
 			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
+			// 浮動小数点数では2^53を超える整数を正確に扱えないため、整数演算で求める
+			quotient := leftValue / rightValue
+			if roundsHalfAwayFromZero(leftValue%rightValue, rightValue) {
+				if (leftValue < 0) == (rightValue < 0) {
+					quotient++
+				} else {
+					quotient--
+				}
+			}
+
+			return object.NewInteger(quotient), nil
 		}
 	case ast.ROUNDING_METHOD_ROUND_UP:
 		{
 			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
+			// 浮動小数点数では2^53を超える整数を正確に扱えないため、整数演算で求める
+			quotient := leftValue / rightValue
+			remainder := leftValue % rightValue
+			if remainder != 0 && (remainder < 0) == (rightValue < 0) {
+				quotient++
+			}
+
+			return object.NewInteger(quotient), nil
 		}
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// roundsHalfAwayFromZero は、剰余がremainderとなる除算の商を、
+// 四捨五入で0から遠い方の整数に丸めるべきかを返す。
+//
+// 桁あふれを避けるため、負の数に揃えて |remainder| >= |divisor| - |remainder| を調べる。
+func roundsHalfAwayFromZero(remainder int, divisor int) bool {
+	if remainder > 0 {
+		remainder = -remainder
+	}
+
+	if divisor > 0 {
+		divisor = -divisor
+	}
+
+	return remainder <= divisor-remainder
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From b30609fe2b5e038af9c8e551fb3b09372220e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 2/5] fix: reject dice whose value is not a face of the die

A supplier that hands over a value outside 1..sides (for example 5/2 in the
manual queue) made CHOICE[a,b] panic with an index out of range, and put
random numbers outside of their range.
---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..8461c08 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -70,6 +70,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > d.Sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: ダイスの出目が範囲外です",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From dcd49bb987f1badfc7be0efb0eb9deef5133e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 3/5] fix: reject integer literals that do not fit instead of
 clamping them

C(99999999999999999999) silently calculated with 9223372036854775807.
---
 pkg/core/parser/parser.go     | 6 +++---
 pkg/core/parser/parser.pigeon | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..3c4e8e2 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -2346,10 +2346,10 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	// 整数が大きすぎる場合はエラーとなる
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 func (p *parser) callonInteger1() (interface{}, error) {
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..4610b0d 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -356,10 +356,10 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	// 整数が大きすぎる場合はエラーとなる
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 CompareOp <- "=" / "<>" / "<=" / "<" / ">=" / ">"
-- 
2.43.0


From e76ad847ca287bf04331ab85203c4e24394fa4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 4/5] fix: apply the sign of an exploding roll's modifier to
 its first term only

3u6[5]-1+2 was read as -(1+2) instead of -1+2.
---
 pkg/core/parser/parser.go     | 41 ++++++++++++++++++++++++++++++++++-
 pkg/core/parser/parser.pigeon | 14 +++++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 3c4e8e2..f4b04a1 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -652,7 +652,34 @@ var g = &grammar{
 										},
 										&ruleRefExpr{
 											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
+											name: "IntExprMultitive",
+										},
+										&zeroOrMoreExpr{
+											pos: position{line: 187, col: 70, offset: 4159},
+											expr: &seqExpr{
+												pos: position{line: 187, col: 71, offset: 4160},
+												exprs: []interface{}{
+													&choiceExpr{
+														pos: position{line: 187, col: 72, offset: 4161},
+														alternatives: []interface{}{
+															&litMatcher{
+																pos:        position{line: 187, col: 72, offset: 4161},
+																val:        "+",
+																ignoreCase: false,
+															},
+															&litMatcher{
+																pos:        position{line: 187, col: 78, offset: 4167},
+																val:        "-",
+																ignoreCase: false,
+															},
+														},
+													},
+													&ruleRefExpr{
+														pos:  position{line: 187, col: 83, offset: 4172},
+														name: "IntExprMultitive",
+													},
+												},
+											},
 										},
 									},
 								},
@@ -2047,6 +2074,18 @@ func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error
 	if bonusSlice != nil {
 		op := string(bonusSlice[0].([]byte))
 		right := bonusSlice[1].(ast.Node)
+		rest := toIfaceSlice(bonusSlice[2])
+
+		// -1+2 が -(1+2) とならないように、先頭の符号は最初の項のみに付ける
+		if op == "-" && len(rest) > 0 {
+			op = "+"
+			right = ast.NewUnaryMinus(right)
+		}
+
+		right, err := leftAssociativeAdditive(right, bonusSlice[2])
+		if err != nil {
+			return nil, err
+		}
 
 		switch op {
 		case "+":
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 4610b0d..a3bdf9e 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,13 +184,25 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
+URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprMultitive (('+' / '-') IntExprMultitive)*)? {
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
 	if bonusSlice != nil {
 		op := string(bonusSlice[0].([]byte))
 		right := bonusSlice[1].(ast.Node)
+		rest := toIfaceSlice(bonusSlice[2])
+
+		// -1+2 が -(1+2) とならないように、先頭の符号は最初の項のみに付ける
+		if op == "-" && len(rest) > 0 {
+			op = "+"
+			right = ast.NewUnaryMinus(right)
+		}
+
+		right, err := leftAssociativeAdditive(right, bonusSlice[2])
+		if err != nil {
+			return nil, err
+		}
 
 		switch op {
 		case "+":
-- 
2.43.0


From a22fe0cde98b9f4ee87b536e259f1812b020ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 5/5] fix: evaluate the operands of a roll that is the whole
 left side of a comparison

---
 pkg/core/evaluator/eval_var_args.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..2fc7ff0 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,18 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+
+	if left.IsPrimaryExpression() {
+		// 2D6>=7 のように、加算ロールが単独で左辺となっている場合
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0

