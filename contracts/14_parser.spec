// The actions of the grammar: the tree each rule makes of the parts it has read.
// The parts come as the parser's engine delivers them: the text of a literal, the
// value of a rule, a list for a sequence or a repetition, nil for an absent option.
// ---- parts
def node(v Any): Node = unbox(ast_Node, v)
def lst(v Any): Seq[Any] = if v == nil then [] else unbox(__any, v)
def isLst(v Any): Bool = v == nil || boxed(__any, v)
def text(v Any): String = unbox(__byte, v)
def isIx(v Any): Bool = boxed(ast_Node, v) && intE(node(v))
def isText(v Any): Bool = boxed(__byte, v)
fn toUpper(s String): String
def isSeq2(v Any): Bool = boxed(__any, v) && len(lst(v)) == 2
def isSeq3(v Any): Bool = boxed(__any, v) && len(lst(v)) == 3
// one more term of a sum, one more factor of a product
def isTerm(v Any): Bool = isSeq2(v) && isText(lst(v)[0]) && (text(lst(v)[0]) == "+" || text(lst(v)[0]) == "-") && isIx(lst(v)[1])
def isFactor(v Any): Bool =
  isSeq2(v) && isText(lst(v)[0]) && (text(lst(v)[0]) == "*" || text(lst(v)[0]) == "/") && isIx(lst(v)[1]) ||
  isSeq3(v) && isText(lst(v)[0]) && text(lst(v)[0]) == "/" && isIx(lst(v)[1]) && isText(lst(v)[2]) && (toUpper(text(lst(v)[2])) == "U" || toUpper(text(lst(v)[2])) == "R")
def terms(v Any): Bool = isLst(v) && all(isTerm, lst(v))
def factors(v Any): Bool = isLst(v) && all(isFactor, lst(v))
// ---- sums and products group to the left; a division rounds as its suffix says
rec sumUp(l Node, rest Seq[Any]): Node = if len(rest) == 0 then l else
  sumUp(if text(lst(rest[0])[0]) == "+" then addN(l, node(lst(rest[0])[1])) else subN(l, node(lst(rest[0])[1])), drop(rest, 1))
def factor(l Node, r Seq[Any]): Node =
  if text(r[0]) == "*" then mulN(l, node(r[1])) else
  if len(r) < 3 then divDownN(l, node(r[1])) else
  if toUpper(text(r[2])) == "U" then divUpN(l, node(r[1])) else divRoundN(l, node(r[1]))
rec multiply(l Node, rest Seq[Any]): Node = if len(rest) == 0 then l else multiply(factor(l, lst(rest[0])), drop(rest, 1))
func "pkg/core/parser.toIfaceSlice" (v) (r)
  props C13
  inline
  requires list: isLst(v)
  ensures list C13: r == lst(v)
func "pkg/core/parser.leftAssociativeAdditive" (first, rest) (n, err)
  props C13
  requires first: isIx(first)
  requires rest: terms(rest)
  ensures tree C13: err == nil && n == sumUp(node(first), lst(rest))
  ensures int C13: intE(n)
  loop 1 invariant rest C13: sumUp(lastNode, drop(lst(rest), $n)) == sumUp(node(first), lst(rest))
  loop 1 invariant int C13: intE(lastNode)
func "pkg/core/parser.leftAssociativeMultitive" (first, rest) (n, err)
  props C13
  requires first: isIx(first)
  requires rest: factors(rest)
  ensures tree C13: err == nil && n == multiply(node(first), lst(rest))
  ensures int C13: intE(n)
  loop 1 invariant rest C13: multiply(lastNode, drop(lst(rest), $n)) == multiply(node(first), lst(rest))
  loop 1 invariant int C13: intE(lastNode)

// ---- the rules
func "pkg/core/parser.(*current).onIntExprAdditive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && terms(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == sumUp(node(first), lst(rest))
func "pkg/core/parser.(*current).onIntExprMultitive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && factors(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == multiply(node(first), lst(rest))
func "pkg/core/parser.(*current).onParenthesizedIntExpr1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onIntExprUnaryPlus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onIntExprUnaryMinus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == minusN(node(e))
func "pkg/core/parser.(*current).onDRollExprAdditive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && terms(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == sumUp(node(first), lst(rest))
func "pkg/core/parser.(*current).onDRollExprMultitive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && factors(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == multiply(node(first), lst(rest))
func "pkg/core/parser.(*current).onParenthesizedDRollExpr1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onDRollExprUnaryPlus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onDRollExprUnaryMinus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == minusN(node(e))
func "pkg/core/parser.(*current).onIntRandExprAdditive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && terms(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == sumUp(node(first), lst(rest))
func "pkg/core/parser.(*current).onIntRandExprMultitive1" (c, first, rest) (r, err)
  props C13
  requires parts: isIx(first) && factors(rest)
  ensures tree C13: err == nil && isIx(r) && node(r) == multiply(node(first), lst(rest))
func "pkg/core/parser.(*current).onParenthesizedIntRandExpr1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onIntRandExprUnaryPlus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == node(e)
func "pkg/core/parser.(*current).onIntRandExprUnaryMinus1" (c, e) (r, err)
  props C13
  requires parts: isIx(e)
  ensures tree C13: err == nil && isIx(r) && node(r) == minusN(node(e))
func "pkg/core/parser.(*current).onDRoll1" (c, num, sides) (r, err)
  props C13
  requires parts: isIx(num) && isIx(sides)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == dRollN(node(num), node(sides))
func "pkg/core/parser.(*current).onBRoll1" (c, num, sides) (r, err)
  props C13
  requires parts: isIx(num) && isIx(sides)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == bRollN(node(num), node(sides))
func "pkg/core/parser.(*current).onRRoll1" (c, num, sides) (r, err)
  props C13
  requires parts: isIx(num) && isIx(sides)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == rRollN(node(num), node(sides))
func "pkg/core/parser.(*current).onURoll1" (c, num, sides) (r, err)
  props C13
  requires parts: isIx(num) && isIx(sides)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == uRollN(node(num), node(sides))
func "pkg/core/parser.(*current).onRandomNumber1" (c, min, max) (r, err)
  props C13
  requires parts: isIx(min) && isIx(max)
  ensures tree C13: err == nil && isIx(r) && node(r) == randN(node(min), node(max))
func "pkg/core/parser.(*current).onInteger1" (c) (r, err)
  props C13
  ensures number C13: atoi_ok(c.text) ==> err == nil && isIx(r) && node(r) == intN(atoi_val(c.text))
  ensures toobig C13: !atoi_ok(c.text) ==> err != nil
func "pkg/core/parser.(*current).onDRollComp1" (c, left, op, right) (r, err)
  props C13
  requires parts: isIx(left) && isText(op) && cmpOp(text(op)) && isIx(right)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == cmpN(node(left), text(op), node(right)) && isIntCmp(node(r))
def isBLst(v Any): Bool = boxed(ast_Node, v) && isBList(node(v))
def isRLst(v Any): Bool = boxed(ast_Node, v) && isRList(node(v))
def isULst(v Any): Bool = boxed(ast_Node, v) && isUList(node(v))
def isUX(v Any): Bool = boxed(ast_Node, v) && isUExpr(node(v))
def isB(v Any): Bool = boxed(ast_Node, v) && isBRoll(node(v))
def isR(v Any): Bool = boxed(ast_Node, v) && isRRoll(node(v))
def isU(v Any): Bool = boxed(ast_Node, v) && isURoll(node(v))
def nextB(v Any): Bool = isSeq2(v) && isB(lst(v)[1])
def nextR(v Any): Bool = isSeq2(v) && isR(lst(v)[1])
def nextU(v Any): Bool = isSeq2(v) && isU(lst(v)[1])
rec seconds(rest Seq[Any]): Seq[Node] = if len(rest) == 0 then [] else [node(lst(rest[0])[1])] + seconds(drop(rest, 1))
def isThr0(v Any): Bool = v == nil || isSeq3(v) && isIx(lst(v)[1])
def thrN(v Any): Node = if v == nil then nilN() else node(lst(v)[1])
func "pkg/core/parser.(*current).onBRollList1" (c, first, rest) (r, err)
  props C13
  requires parts: isB(first) && isLst(rest) && all(nextB, lst(rest))
  ensures tree C13: err == nil && isBLst(r) && node(r) == bListN([node(first)] + seconds(lst(rest)))
  loop 1 invariant rest C13: bRollList == bListN(bRollList.BRolls) && bRollList.BRolls + seconds(drop(lst(rest), $n)) == [node(first)] + seconds(lst(rest))
  loop 1 invariant all C13: all(isBRoll, bRollList.BRolls)
func "pkg/core/parser.(*current).onRRollList1" (c, first, rest, th) (r, err)
  props C13
  requires parts: isR(first) && isLst(rest) && all(nextR, lst(rest)) && isThr0(th)
  ensures tree C13: err == nil && isRLst(r) && node(r) == rListN([node(first)] + seconds(lst(rest)), thrN(th))
  loop 1 invariant rest C13: rRollList == rListN(rRollList.RRolls, thrN(th)) && rRollList.RRolls + seconds(drop(lst(rest), $n)) == [node(first)] + seconds(lst(rest))
  loop 1 invariant all C13: all(isRRoll, rRollList.RRolls)
func "pkg/core/parser.(*current).onURollList1" (c, first, rest, th) (r, err)
  props C13
  requires parts: isU(first) && isLst(rest) && all(nextU, lst(rest)) && isThr0(th)
  ensures tree C13: err == nil && isULst(r) && node(r) == rListN([node(first)] + seconds(lst(rest)), thrN(th))
  loop 1 invariant rest C13: uRollList == rListN(uRollList.RRolls, thrN(th)) && uRollList.RRolls + seconds(drop(lst(rest), $n)) == [node(first)] + seconds(lst(rest))
  loop 1 invariant all C13: all(isURoll, uRollList.RRolls)
func "pkg/core/parser.(*current).onBRollComp1" (c, left, op, right) (r, err)
  props C13
  requires parts: isBLst(left) && isText(op) && cmpOp(text(op)) && isIx(right)
  ensures tree C13: err == nil && boxed(ast_Node, r) && isBComp(node(r)) && node(r) == commandN(ast_B_ROLL_COMP_NODE, cmpN(node(left), text(op), node(right)))
func "pkg/core/parser.(*current).onRRollComp1" (c, left, op, right) (r, err)
  props C13
  requires parts: isRLst(left) && isText(op) && cmpOp(text(op)) && isIx(right)
  ensures tree C13: err == nil && boxed(ast_Node, r) && isRComp(node(r)) && node(r) == commandN(ast_R_ROLL_COMP_NODE, cmpN(node(left), text(op), node(right)))
func "pkg/core/parser.(*current).onURollComp1" (c, left, op, right) (r, err)
  props C13
  requires parts: isUX(left) && isText(op) && cmpOp(text(op)) && isIx(right)
  ensures tree C13: err == nil && boxed(ast_Node, r) && isUComp(node(r)) && node(r) == commandN(ast_U_ROLL_COMP_NODE, cmpN(node(left), text(op), node(right)))
// an exploding roll's modifier: 0 plus or minus its first term, the rest added to the left
def isBonus0(v Any): Bool = v == nil || isSeq3(v) && isText(lst(v)[0]) && (text(lst(v)[0]) == "+" || text(lst(v)[0]) == "-") && isIx(lst(v)[1]) && terms(lst(v)[2])
def bonusT(v Any): Node = if v == nil then nil else
  if text(lst(v)[0]) == "+" then addN(intN(0), sumUp(node(lst(v)[1]), lst(lst(v)[2]))) else
  if len(lst(lst(v)[2])) == 0 then subN(intN(0), node(lst(v)[1])) else addN(intN(0), sumUp(minusN(node(lst(v)[1])), lst(lst(v)[2])))
func "pkg/core/parser.(*current).onURollExpr1" (c, uRollList, bonus) (r, err)
  props C13
  requires parts: isULst(uRollList) && isBonus0(bonus)
  ensures tree C13: err == nil && isUX(r) && node(r) == uExprN(node(uRollList), bonusT(bonus))
def isItem(v Any): Bool = boxed(ast_Node, v) && isStr(node(v))
def nextItem(v Any): Bool = isSeq2(v) && isItem(lst(v)[1])
fn trimSpace(s String): String
func "pkg/core/parser.(*current).onChoiceItems1" (c, first, rest) (r, err)
  props C13
  requires parts: isItem(first) && isLst(rest) && all(nextItem, lst(rest))
  ensures tree C13: err == nil && boxed(ast_Node, r) && isChoice(node(r)) && node(r) == choiceN([node(first)] + seconds(lst(rest)))
  loop 1 invariant rest C13: choice == choiceN(choice.Items) && choice.Items + seconds(drop(lst(rest), $n)) == [node(first)] + seconds(lst(rest))
  loop 1 invariant all C13: all(isStr, choice.Items)
func "pkg/core/parser.(*current).onChoice1" (c, items) (r, err)
  props C13
  ensures same C13: err == nil && r == items
func "pkg/core/parser.(*current).onChoiceItem1" (c, s) (r, err)
  props C13
  ensures same C13: err == nil && r == s
func "pkg/core/parser.(*current).onCommand1" (c, n) (r, err)
  props C13
  ensures same C13: err == nil && r == n
func "pkg/core/parser.(*current).onCommandWithExpression1" (c, n) (r, err)
  props C13
  ensures same C13: err == nil && r == n
func "pkg/core/parser.(*current).onChoiceItemChars1" (c) (r, err)
  props C13
  ensures item C13: err == nil && isItem(r) && node(r) == strN(trimSpace(c.text))
func "pkg/core/parser.(*current).onCalc1" (c, expr) (r, err)
  props C13
  requires parts: isIx(expr)
  ensures tree C13: err == nil && boxed(ast_Node, r) && node(r) == commandN(ast_CALC_NODE, node(expr))
// ---- a roll command needs a random element
def counted(m Map): Bool = m is some && has(m, "RandCount") && boxed(int, at(m, "RandCount"))
def randCount(m Map): Int = unbox(int, at(m, "RandCount"))
func "pkg/core/parser.(*current).onDRollExprCommand1" (c, expr) (r, err)
  props C13
  requires parts: isIx(expr)
  requires counted: counted(c.state)
  ensures random C13: (err == nil) <==> randCount(c.state) >= 1
  ensures tree C13: err == nil ==> boxed(ast_Node, r) && node(r) == commandN(ast_D_ROLL_EXPR_NODE, node(expr))
func "pkg/core/parser.(*current).onDRollCompCommand1" (c, expr) (r, err)
  props C13
  requires parts: boxed(ast_Node, expr) && isIntCmp(node(expr))
  requires counted: counted(c.state)
  ensures random C13: (err == nil) <==> randCount(c.state) >= 1
  ensures tree C13: err == nil ==> boxed(ast_Node, r) && node(r) == commandN(ast_D_ROLL_COMP_NODE, node(expr))
func "pkg/core/parser.(*current).onResetRandCount1" (c) (err)
  props C13
  modifies c.state
  requires some: c.state is some
  ensures reset C13: err == nil && c.state == put(old(c.state), "RandCount", box(int, 0))
func "pkg/core/parser.(*current).onIncRandCount1" (c) (err)
  props C13
  modifies c.state
  requires some: c.state is some
  requires counted: counted(c.state)
  ensures inc C13: err == nil && c.state == put(old(c.state), "RandCount", box(int, wrap64(old(randCount(c.state)) + 1)))
// ---- the grammar: what each rule delivers. Read from the source on every run; for
// every rule, the parts its expression delivers meet the requirements of its action
// and the answer is as stated here.
def isCOp(v Any): Bool = isText(v) && cmpOp(text(v))
def isCmp(v Any): Bool = boxed(ast_Node, v) && isIntCmp(node(v))
def isCh(v Any): Bool = boxed(ast_Node, v) && isChoice(node(v))
def isCommand(v Any): Bool = boxed(ast_Node, v) && isTop(node(v))
def isBC(v Any): Bool = boxed(ast_Node, v) && isBComp(node(v))
def isRC(v Any): Bool = boxed(ast_Node, v) && isRComp(node(v))
def isUC(v Any): Bool = boxed(ast_Node, v) && isUComp(node(v))
def isCa(v Any): Bool = boxed(ast_Node, v) && isCalc(node(v))
def isDE(v Any): Bool = boxed(ast_Node, v) && isDExpr(node(v))
def isDC(v Any): Bool = boxed(ast_Node, v) && isDComp(node(v))
grammar "pkg/core/parser" g C13
  rule Command is isCommand
  rule CommandWithExpression is isCommand
  rule Choice is isCh
  rule ChoiceItems is isCh each nextItem
  rule ChoiceItem is isItem
  rule ChoiceItemChars is isItem
  rule Calc is isCa
  rule DRollExprCommand is isDE
  rule DRollCompCommand is isDC
  rule BRollList is isBLst each nextB
  rule BRollComp is isBC
  rule RRollList is isRLst each nextR
  rule RRollComp is isRC
  rule URollComp is isUC
  rule URollExpr is isUX each isTerm
  rule URollList is isULst each nextU
  rule IntExpr is isIx
  rule IntExprAdditive is isIx each isTerm
  rule IntExprMultitive is isIx each isFactor
  rule IntExprPrimary is isIx
  rule ParenthesizedIntExpr is isIx
  rule IntExprUnaryPlus is isIx
  rule IntExprUnaryMinus is isIx
  rule DRollExpr is isIx
  rule DRollExprAdditive is isIx each isTerm
  rule DRollExprMultitive is isIx each isFactor
  rule DRollExprPrimary is isIx
  rule ParenthesizedDRollExpr is isIx
  rule DRollExprUnaryPlus is isIx
  rule DRollExprUnaryMinus is isIx
  rule IntRandExpr is isIx
  rule IntRandExprAdditive is isIx each isTerm
  rule IntRandExprMultitive is isIx each isFactor
  rule IntRandExprPrimary is isIx
  rule ParenthesizedIntRandExpr is isIx
  rule IntRandExprUnaryPlus is isIx
  rule IntRandExprUnaryMinus is isIx
  rule DRollComp is isCmp
  rule DRoll is isIx
  rule BRoll is isB
  rule RRoll is isR
  rule URoll is isU
  rule RollOperand is isIx
  rule RandomNumber is isIx
  rule RandomNumberOperand is isIx
  rule Integer is isIx
  rule CompareOp is isCOp
