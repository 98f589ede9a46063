// Syntax tree nodes: the shape every constructor gives and what the rest relies on.

def impl(ty Int, prim Bool): ast_NodeImpl = struct(ast_NodeImpl, ty, prim)
def infix(ty Int, prim Bool, l Node, op String, sop String, r Node, prec Int, la Bool, ra Bool): InfixExpressionImpl =
  struct(ast_InfixExpressionImpl, impl(ty, prim), struct(ast_NonNilNode), l, op, sop, r, prec, la, ra)
def basicN(ty Int, l Node, op String, r Node, prec Int, la Bool, ra Bool): Node =
  Node_BasicInfixExpression(struct(ast_BasicInfixExpression, infix(ty, false, l, op, op, r, prec, la, ra)))
def addN(l Node, r Node): Node = basicN(ast_ADD_NODE, l, "+", r, ast_PREC_ADDITIVE, true, true)
def subN(l Node, r Node): Node = basicN(ast_SUBTRACT_NODE, l, "-", r, ast_PREC_ADDITIVE, true, false)
def mulN(l Node, r Node): Node = basicN(ast_MULTIPLY_NODE, l, "*", r, ast_PREC_MULTITIVE, true, true)
def cmpN(l Node, op String, r Node): Node = basicN(ast_COMPARE_NODE, l, op, r, ast_PREC_COMPARE, false, false)
def divN(ty Int, m Int, l Node, op String, r Node): Node =
  Node_Divide(struct(ast_Divide, struct(ast_BasicInfixExpression, infix(ty, false, l, op, op, r, ast_PREC_MULTITIVE, true, false)), m))
def divDownN(l Node, r Node): Node = divN(ast_DIVIDE_WITH_ROUNDING_DOWN_NODE, ast_ROUNDING_METHOD_ROUND_DOWN, l, "/", r)
def divRoundN(l Node, r Node): Node = divN(ast_DIVIDE_WITH_ROUNDING_NODE, ast_ROUNDING_METHOD_ROUND, l, "/R", r)
def divUpN(l Node, r Node): Node = divN(ast_DIVIDE_WITH_ROUNDING_UP_NODE, ast_ROUNDING_METHOD_ROUND_UP, l, "/U", r)
def varN(ty Int, l Node, op String, sop String, r Node, prec Int): Node =
  Node_VariableInfixExpression(struct(ast_VariableInfixExpression, infix(ty, true, l, op, sop, r, prec, false, false), struct(ast_VariableNode)))
def dRollN(l Node, r Node): Node = varN(ast_D_ROLL_NODE, l, "D", "DRoll", r, ast_PREC_ROLL)
def bRollN(l Node, r Node): Node = varN(ast_B_ROLL_NODE, l, "B", "BRoll", r, ast_PREC_ROLL)
def rRollN(l Node, r Node): Node = varN(ast_R_ROLL_NODE, l, "R", "RRoll", r, ast_PREC_ROLL)
def uRollN(l Node, r Node): Node = varN(ast_U_ROLL_NODE, l, "U", "URoll", r, ast_PREC_ROLL)
def randN(l Node, r Node): Node = varN(ast_RANDOM_NUMBER_NODE, l, "...", "RandomNumber", r, ast_PREC_DOTS)
def minusN(r Node): Node =
  Node_PrefixExpressionImpl(struct(ast_PrefixExpressionImpl, impl(ast_UNARY_MINUS_NODE, false), struct(ast_NonNilNode), "-", "-", r))
def intN(v Int): Node = Node_Int(struct(ast_Int, impl(ast_INT_NODE, true), struct(ast_NonNilNode), struct(ast_ConstNode), v))
def strN(s String): Node = Node_String(struct(ast_String, impl(ast_STRING_NODE, true), struct(ast_NonNilNode), struct(ast_ConstNode), s))
def nilN(): Node = Node_Nil(struct(ast_Nil, impl(ast_NIL_NODE, true), struct(ast_ConstNode)))
def sumN(ds Seq[Die]): Node =
  Node_SumRollResult(struct(ast_SumRollResult, impl(ast_SUM_ROLL_RESULT_NODE, true), struct(ast_NonNilNode), struct(ast_ConstNode), ds))
def bListN(rs Seq[Node]): Node = Node_BRollList(struct(ast_BRollList, impl(ast_B_ROLL_LIST_NODE, false), struct(ast_NonNilNode), struct(ast_VariableNode), rs))
def rListN(rs Seq[Node], thr Node): Node = Node_RRollList(struct(ast_RRollList, impl(ast_R_ROLL_LIST_NODE, false), struct(ast_NonNilNode), struct(ast_VariableNode), rs, thr))
def uExprN(l Node, bonus Node): Node = Node_URollExpr(struct(ast_URollExpr, impl(ast_U_ROLL_EXPR_NODE, false), struct(ast_NonNilNode), struct(ast_VariableNode), l, bonus))
def choiceN(items Seq[Node]): Node = Node_Choice(struct(ast_Choice, impl(ast_CHOICE_NODE, false), struct(ast_NonNilNode), struct(ast_VariableNode), items))
def commandN(ty Int, x Node): Node = Node_Command(struct(ast_Command, impl(ty, false), struct(ast_NonNilNode), x))

// the comparison operators
def cmpOp(op String): Bool = op == "=" || op == "<>" || op == "<" || op == ">" || op == "<=" || op == ">="

// trees that evaluate to an integer (or an error)
rec intE(n Node): Bool = switch n {
  Int => n == intN(n.Value);
  SumRollResult => n == sumN(n.Dice);
  PrefixExpressionImpl => n == minusN(n.right) && intE(n.right);
  BasicInfixExpression => (n == addN(n.left, n.right) || n == subN(n.left, n.right) || n == mulN(n.left, n.right)) && intE(n.left) && intE(n.right);
  Divide => (n == divDownN(n.left, n.right) || n == divRoundN(n.left, n.right) || n == divUpN(n.left, n.right)) && intE(n.left) && intE(n.right);
  VariableInfixExpression => (n == dRollN(n.left, n.right) || n == randN(n.left, n.right)) && intE(n.left) && intE(n.right);
  else => false }

def isBRoll(n Node): Bool = switch n { VariableInfixExpression => n == bRollN(n.left, n.right) && intE(n.left) && intE(n.right); else => false }
def isRRoll(n Node): Bool = switch n { VariableInfixExpression => n == rRollN(n.left, n.right) && intE(n.left) && intE(n.right); else => false }
def isURoll(n Node): Bool = switch n { VariableInfixExpression => n == uRollN(n.left, n.right) && intE(n.left) && intE(n.right); else => false }
def isThr(n Node): Bool = n == nilN() || intE(n)
def isBList(n Node): Bool = switch n { BRollList => n == bListN(n.BRolls) && len(n.BRolls) >= 1 && all(isBRoll, n.BRolls); else => false }
def isRList(n Node): Bool = switch n { RRollList => n == rListN(n.RRolls, n.Threshold) && len(n.RRolls) >= 1 && isThr(n.Threshold) && all(isRRoll, n.RRolls); else => false }
def isUList(n Node): Bool = switch n { RRollList => n == rListN(n.RRolls, n.Threshold) && len(n.RRolls) >= 1 && isThr(n.Threshold) && all(isURoll, n.RRolls); else => false }
def isBonus(n Node): Bool = n == nil || (switch n { BasicInfixExpression => (n == addN(n.left, n.right) || n == subN(n.left, n.right)) && intE(n.left) && intE(n.right); else => false })
def isUExpr(n Node): Bool = switch n { URollExpr => n == uExprN(n.URollList, n.Bonus) && isUList(n.URollList) && isBonus(n.Bonus); else => false }
def isStr(n Node): Bool = switch n { String => n == strN(n.Value); else => false }
def isChoice(n Node): Bool = switch n { Choice => n == choiceN(n.Items) && len(n.Items) >= 1 && all(isStr, n.Items); else => false }

// comparisons and commands
def isCmpOf(n Node): Bool = switch n { BasicInfixExpression => n == cmpN(n.left, n.operator, n.right) && cmpOp(n.operator) && intE(n.right); else => false }
def isIntCmp(n Node): Bool = switch n { BasicInfixExpression => isCmpOf(n) && intE(n.left); else => false }
def isBCmp(n Node): Bool = switch n { BasicInfixExpression => isCmpOf(n) && isBList(n.left); else => false }
def isRCmp(n Node): Bool = switch n { BasicInfixExpression => isCmpOf(n) && isRList(n.left); else => false }
def isUCmp(n Node): Bool = switch n { BasicInfixExpression => isCmpOf(n) && isUExpr(n.left); else => false }
def isCalc(n Node): Bool = switch n { Command => n == commandN(ast_CALC_NODE, n.Expression) && intE(n.Expression); else => false }
def isDExpr(n Node): Bool = switch n { Command => n == commandN(ast_D_ROLL_EXPR_NODE, n.Expression) && intE(n.Expression); else => false }
def isDComp(n Node): Bool = switch n { Command => n == commandN(ast_D_ROLL_COMP_NODE, n.Expression) && isIntCmp(n.Expression); else => false }
def isBComp(n Node): Bool = switch n { Command => n == commandN(ast_B_ROLL_COMP_NODE, n.Expression) && isBCmp(n.Expression); else => false }
def isRComp(n Node): Bool = switch n { Command => n == commandN(ast_R_ROLL_COMP_NODE, n.Expression) && isRCmp(n.Expression); else => false }
def isUComp(n Node): Bool = switch n { Command => n == commandN(ast_U_ROLL_COMP_NODE, n.Expression) && isUCmp(n.Expression); else => false }
// everything the parser may return
def isTop(n Node): Bool = isCalc(n) || isDExpr(n) || isDComp(n) || isBComp(n) || isRComp(n) || isUComp(n) || isBList(n) || isRList(n) || isUExpr(n) || isChoice(n)
// everything the evaluator is applied to
def isEv(n Node): Bool = isTop(n) || intE(n) || isIntCmp(n) || isBRoll(n) || isRRoll(n)

// ---- constructors
func "pkg/core/ast.NewAdd" (l, r) (n)
  props C04 C13
  ensures is C04 C13: n == addN(l, r)
func "pkg/core/ast.NewSubtract" (l, r) (n)
  props C04 C13
  ensures is C04 C13: n == subN(l, r)
func "pkg/core/ast.NewMultiply" (l, r) (n)
  props C04 C13
  ensures is C04 C13: n == mulN(l, r)
func "pkg/core/ast.NewCompare" (l, op, r) (n)
  props C04 C13
  ensures is C04 C13: n == cmpN(l, op, r)
func "pkg/core/ast.NewDivideWithRoundingUp" (l, r) (n)
  props C01 C13
  ensures is C01 C13: n == divUpN(l, r)
func "pkg/core/ast.NewDivideWithRounding" (l, r) (n)
  props C01 C13
  ensures is C01 C13: n == divRoundN(l, r)
func "pkg/core/ast.NewDivideWithRoundingDown" (l, r) (n)
  props C01 C13
  ensures is C01 C13: n == divDownN(l, r)
func "pkg/core/ast.NewUnaryMinus" (r) (n)
  props C01 C13
  ensures is C01 C13: n == minusN(r)
func "pkg/core/ast.NewDRoll" (l, r) (n)
  props C04 C13
  ensures is C04 C13: n == dRollN(l, r)
func "pkg/core/ast.NewBRoll" (l, r) (n)
  props C05 C13
  ensures is C05 C13: n == bRollN(l, r)
func "pkg/core/ast.NewRRoll" (l, r) (n)
  props C06 C13
  ensures is C06 C13: n == rRollN(l, r)
func "pkg/core/ast.NewURoll" (l, r) (n)
  props C07 C13
  ensures is C07 C13: n == uRollN(l, r)
func "pkg/core/ast.NewRandomNumber" (l, r) (n)
  props C09 C13
  ensures is C09 C13: n == randN(l, r)
func "pkg/core/ast.NewInt" (v) (n)
  props C13
  ensures is C13: n == intN(v)
func "pkg/core/ast.NewString" (s) (n)
  props C10 C13
  ensures is C10 C13: n == strN(s)
func "pkg/core/ast.NewSumRollResult" (ds) (n)
  props C04 C11
  ensures is C04 C11: n == sumN(ds)
func "pkg/core/ast.NewBRollList" (first) (n)
  props C05 C13
  ensures is C05 C13: n == bListN([first])
  ensures new C05 C13: fresh(n)
func "pkg/core/ast.NewRRollList" (first, thr) (n)
  props C06 C13
  ensures is C06 C13: n == rListN([first], thr)
  ensures new C06 C13: fresh(n)
func "pkg/core/ast.NewURollExpr" (l, bonus?) (n)
  props C07 C13
  ensures is C07 C13: n == uExprN(l, bonus)
func "pkg/core/ast.NewChoice" (first) (n)
  props C10 C13
  ensures is C10 C13: n == choiceN([first])
  ensures new C10 C13: fresh(n)
func "pkg/core/ast.NewCalc" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_CALC_NODE, x)
func "pkg/core/ast.NewDRollExpr" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_D_ROLL_EXPR_NODE, x)
func "pkg/core/ast.NewDRollComp" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_D_ROLL_COMP_NODE, x)
func "pkg/core/ast.NewBRollComp" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_B_ROLL_COMP_NODE, x)
func "pkg/core/ast.NewRRollComp" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_R_ROLL_COMP_NODE, x)
func "pkg/core/ast.NewURollComp" (x) (n)
  props C13
  ensures is C13: n == commandN(ast_U_ROLL_COMP_NODE, x)
func "pkg/core/ast.NilInstance" () (n)
  props C13
  ensures is C13: n == nilN()
func "pkg/core/ast.(*BRollList).Append" (n, b)
  props C05 C13
  modifies n.BRolls
  ensures app C05 C13: n.BRolls == old(n.BRolls) + [b]
func "pkg/core/ast.(*RRollList).Append" (n, b)
  props C06 C13
  modifies n.RRolls
  ensures app C06 C13: n.RRolls == old(n.RRolls) + [b]
func "pkg/core/ast.(*Choice).Append" (n, s)
  props C10 C13
  modifies n.Items
  ensures app C10 C13: n.Items == old(n.Items) + [s]
func "pkg/core/ast.(*SumRollResult).Value" (n) (r)
  props C04 C11
  helper
  ensures sum C04 C11: r == wrap64(sumD(n.Dice))
  loop 1 invariant rest C04 C11: wrap64(sumD(n.Dice)) == wrap64(sum + sumD(drop(n.Dice, $n)))
