// The displayed expression.

def paren(s String): String = "(" + s + ")"
rec dieStrs(ds Seq[Die]): Seq[String] = if len(ds) == 0 then [] else [itoa(ds[0].Value)] + dieStrs(drop(ds, 1))
rec itemStrs(xs Seq[Node]): Seq[String] = if len(xs) == 0 then [] else [xs[0].(String).Value] + itemStrs(drop(xs, 1))

// the precedence and the associativity of the operators, looser first
def isCmpN(n Node): Bool = switch n { BasicInfixExpression => n.nodeType == ast_COMPARE_NODE; else => false }
def isDots(n Node): Bool = switch n { VariableInfixExpression => n.nodeType == ast_RANDOM_NUMBER_NODE; else => false }
def isMul(n Node): Bool = switch n { BasicInfixExpression => n.nodeType == ast_MULTIPLY_NODE; else => false }
def isAdd(n Node): Bool = switch n { BasicInfixExpression => n.nodeType == ast_ADD_NODE; else => false }
def binds(n Node): Int = switch n {
  BasicInfixExpression => if isCmpN(n) then 1 else if isMul(n) then 3 else 2;
  Divide => 3;
  VariableInfixExpression => if isDots(n) then 5 else 4;
  else => 9 }
def fromLeft(n Node): Bool = switch n { BasicInfixExpression => !isCmpN(n); Divide => true; else => false }
def fromRight(n Node): Bool = isAdd(n) || isMul(n)
// an operand that needs parentheses beside an operator
def weaker(c Node, p Node, associates Bool): Bool = binds(c) < binds(p) || binds(c) == binds(p) && !associates
def primary(n Node): Bool = n is Int || n is SumRollResult || n is VariableInfixExpression
def suffix(m Int): String = if m == ast_ROUNDING_METHOD_ROUND_UP then "U" else if m == ast_ROUNDING_METHOD_ROUND then "R" else ""

// w: the operand stands at the left end of the text or of a parenthesised group
rec shown(n Node, w Bool): String = switch n {
  Int => itoa(n.Value);
  SumRollResult => itoa(wrap64(sumD(n.Dice))) + "[" + join(dieStrs(n.Dice), ",") + "]";
  PrefixExpressionImpl => if primary(n.right) then "-" + shown(n.right, w) else "-" + paren(shown(n.right, true));
  BasicInfixExpression => if isCmpN(n) then shown(n.left, true) + n.operator + shown(n.right, true) else shownL(n, n.left, w) + n.operator + shownR(n, n.right);
  Divide => shownL(n, n.left, w) + "/" + shownR(n, n.right) + suffix(n.RoundingMethod);
  VariableInfixExpression => if isDots(n) then "[" + shownL(n, n.left, true) + "..." + shownR(n, n.right) + "]" else shownL(n, n.left, w) + n.operator + shownR(n, n.right);
  BRollList => join(shownList(n.BRolls), "+");
  RRollList => if n.Threshold == nilN() then join(shownList(n.RRolls), "+") else join(shownList(n.RRolls), "+") + "[" + shown(n.Threshold, true) + "]";
  URollExpr => if n.Bonus == nil then shown(n.URollList, true) else shown(n.URollList, true) + opOf(n.Bonus) + shownR(n.Bonus, rightB(n.Bonus));
  Choice => "CHOICE[" + join(itemStrs(n.Items), ",") + "]";
  Command => if n.nodeType == ast_CALC_NODE then "C(" + shown(n.Expression, true) + ")" else shown(n.Expression, w);
  else => "" }
def shownL(p Node, c Node, w Bool): String =
  if c is PrefixExpressionImpl then (if w && fromLeft(p) then shown(c, w) else paren(shown(c, w)))
  else if weaker(c, p, fromLeft(p)) then paren(shown(c, true)) else shown(c, w)
def shownR(p Node, c Node): String =
  if c is PrefixExpressionImpl then paren(shown(c, false))
  else if weaker(c, p, fromRight(p)) then paren(shown(c, true)) else shown(c, false)
rec shownList(xs Seq[Node]): Seq[String] = if len(xs) == 0 then [] else [shown(xs[0], true)] + shownList(drop(xs, 1))
// an exploding roll's terms with its modifier
def isUSum(n Node): Bool = switch n { BasicInfixExpression => (n == addN(n.left, n.right) || n == subN(n.left, n.right)) && isUList(n.left) && intE(n.right); else => false }
def isShown(n Node): Bool = intE(n) || isTop(n) || isIntCmp(n) || isBCmp(n) || isRCmp(n) || isUCmp(n) || isBRoll(n) || isRRoll(n) || isURoll(n) || isUList(n) || isUSum(n)

func "pkg/core/notation.infixNotationOfBRollList" (n) (r, err)
  props C11
  helper
  requires isBList(n)
  ensures shown C11: err == nil && r == join(shownList(n.BRolls), "+")
  loop 1 invariant rest C11: infixNotations + shownList(drop(n.BRolls, $n)) == shownList(n.BRolls)
func "pkg/core/notation.infixNotationOfRRollList" (n) (r, err)
  props C11
  helper
  requires isRList(n) || isUList(n)
  case: isRList(n)
  case: isUList(n)
  ensures shown C11: err == nil && r == shown(n, true)
  loop 1 invariant rest C11: infixNotations + shownList(drop(n.RRolls, $n)) == shownList(n.RRolls)
func "pkg/core/notation.infixNotationOfChoice" (n) (r, err)
  props C11
  helper
  requires isChoice(n)
  ensures shown C11: err == nil && r == shown(n, true)
  loop 1 invariant rest C11: itemValues + itemStrs(drop(n.Items, $n)) == itemStrs(n.Items)
func "pkg/core/notation.infixNotationOfSumRollResult" (n) (r, err)
  props C11
  helper
  ensures shown C11: err == nil && r == itoa(wrap64(sumD(n.Dice))) + "[" + join(dieStrs(n.Dice), ",") + "]"
  loop 1 invariant rest C11: dieValueStrs + dieStrs(drop(n.Dice, $n)) == dieStrs(n.Dice)
func "pkg/core/notation.Parenthesize" (s) (r)
  props C11
  helper
  ensures p C11: r == paren(s)
func "pkg/core/notation.FormatModifier" (m) (r)
  props C12
  helper
  ensures mod C12: r == (if m == 0 then "" else if m > 0 then "+" + itoa(m) else itoa(m))
func "pkg/core/notation.infixNotationOfURollExpr" (n) (r, err)
  props C11
  helper
  requires isUExpr(n)
  ensures shown C11: err == nil && r == shown(n, true)
def leftX(n Node): Node = switch n { BasicInfixExpression => n.left; Divide => n.left; VariableInfixExpression => n.left; else => n }
def rightX(n Node): Node = switch n { BasicInfixExpression => n.right; Divide => n.right; VariableInfixExpression => n.right; else => n }
def isOp(n Node): Bool = (n is BasicInfixExpression || n is Divide || n is VariableInfixExpression) && (intE(n) || isBRoll(n) || isRRoll(n) || isURoll(n) || isUSum(n))
def operand(p Node, c Node, associates Bool, w Bool): String =
  if c is PrefixExpressionImpl then paren(shown(c, w)) else if weaker(c, p, associates) then paren(shown(c, true)) else shown(c, w)
func "pkg/core/notation.parenthesizeChildOfInfixExpression" (p, c, assoc, w) (r, err)
  props C11
  helper
  requires isOp(p) && (intE(c) || isUList(c))
  case: intE(c) && intE(p)
  case: intE(c)
  case: isUList(c)
  ensures shown C11: err == nil && r == operand(p, c, assoc, w)
func "pkg/core/notation.infixNotationsOfInfixExpressionChildren" (n, w) (l, r, err)
  props C11
  helper
  requires isOp(n)
  case: intE(n)
  case: isUSum(n)
  case: isBRoll(n) || isRRoll(n) || isURoll(n)
  ensures left C11: err == nil && l == shownL(n, leftX(n), w)
  ensures right C11: r == shownR(n, rightX(n))
func "pkg/core/notation.InfixNotation" (n, walkingToLeft) (r, err)
  props C11
  requires isShown(n)
  case: intE(n) && n is BasicInfixExpression
  case: intE(n) && n is Divide
  case: intE(n) && n is VariableInfixExpression
  case: intE(n)
  case: isTop(n)
  case: isIntCmp(n)
  case: isBCmp(n)
  case: isRCmp(n)
  case: isUCmp(n)
  case: isBRoll(n)
  case: isRRoll(n)
  case: isURoll(n)
  case: isUSum(n)
  case: isUList(n)
  ensures shown C11: err == nil && r == shown(n, walkingToLeft)
