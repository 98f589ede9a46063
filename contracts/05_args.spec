// Arguments of rolls evaluated in place, rolls replaced by their dice, and the
// thresholds of reroll and exploding rolls.

datatype NOut = NOK(n Node, st Stream, ds Seq[Die]) | NFail(st Stream, ds Seq[Die])
datatype LOut = LOK(rs Seq[Node], st Stream, ds Seq[Die]) | LFail(st Stream, ds Seq[Die])

// a roll node with its two arguments evaluated, the left one first
def isRollT(t Int): Bool = t == ast_D_ROLL_NODE || t == ast_B_ROLL_NODE || t == ast_R_ROLL_NODE || t == ast_U_ROLL_NODE
def vaRoll(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let t = operands(leftOf(n), rightOf(n), mr, st, ds) in switch t {
    TwoFail => NFail(t.st, t.ds);
    TwoOK => NOK(Node_VariableInfixExpression(set(set(n.(VariableInfixExpression), left, intN(valOf(t.l))), right, intN(valOf(t.r)))), t.st, t.ds) }
def vaVar(n Node, mr Int, st Stream, ds Seq[Die]): NOut = if isRollT(n.(VariableInfixExpression).nodeType) then vaRoll(n, mr, st, ds) else NFail(st, ds)
// an operand: a constant stays, a roll gets its arguments, the rest is walked
def vaSub(n Node, mr Int, st Stream, ds Seq[Die]): NOut = switch n {
  Int => NOK(n, st, ds);
  SumRollResult => NOK(n, st, ds);
  VariableInfixExpression => vaVar(n, mr, st, ds);
  else => vaE(n, mr, st, ds) }
rec vaE(n Node, mr Int, st Stream, ds Seq[Die]): NOut = switch n {
  PrefixExpressionImpl => let a = vaSub(n.right, mr, st, ds) in switch a { NFail => a; NOK => NOK(set(n, right, a.n), a.st, a.ds) };
  BasicInfixExpression => let t = vaPair(n.left, n.right, mr, st, ds) in switch t { PairFail => NFail(t.st, t.ds); PairOK => NOK(set(set(n, left, t.l), right, t.r), t.st, t.ds) };
  Divide => let t = vaPair(n.left, n.right, mr, st, ds) in switch t { PairFail => NFail(t.st, t.ds); PairOK => NOK(set(set(n, left, t.l), right, t.r), t.st, t.ds) };
  else => NFail(st, ds) }
datatype Pair = PairOK(l Node, r Node, st Stream, ds Seq[Die]) | PairFail(st Stream, ds Seq[Die])
def vaPair(l Node, r Node, mr Int, st Stream, ds Seq[Die]): Pair =
  let a = vaSub(l, mr, st, ds) in switch a {
    NFail => PairFail(a.st, a.ds);
    NOK => let b = vaSub(r, mr, a.st, a.ds) in switch b { NFail => PairFail(b.st, b.ds); NOK => PairOK(a.n, b.n, b.st, b.ds) } }
rec vaList(rs Seq[Node], mr Int, st Stream, ds Seq[Die], acc Seq[Node]): LOut =
  if len(rs) == 0 then LOK(acc, st, ds)
  else let a = vaRoll(rs[0], mr, st, ds) in switch a { NFail => LFail(a.st, a.ds); NOK => vaList(drop(rs, 1), mr, a.st, a.ds, acc + [a.n]) }
def vaThr(thr Node, mr Int, st Stream, ds Seq[Die]): NOut =
  if thr == nilN() then NOK(thr, st, ds)
  else let t = evalS(thr, mr, st, ds) in switch t { Fail => NFail(t.st, t.ds); OK => NOK(intN(valOf(t.o)), t.st, t.ds) }
def vaBL(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let a = vaList(n.(BRollList).BRolls, mr, st, ds, []) in switch a { LFail => NFail(a.st, a.ds); LOK => NOK(bListN(a.rs), a.st, a.ds) }
def vaRL(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let t = vaThr(n.(RRollList).Threshold, mr, st, ds) in switch t {
    NFail => t;
    NOK => let a = vaList(n.(RRollList).RRolls, mr, t.st, t.ds, []) in switch a { LFail => NFail(a.st, a.ds); LOK => NOK(rListN(a.rs, t.n), a.st, a.ds) } }
def bonusN(v Int): Node = if v == 0 then nil else if v > 0 then addN(intN(0), intN(v)) else subN(intN(0), intN(wrap64(0 - v)))
rec vaUX(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let l = vaRL(n.(URollExpr).URollList, mr, st, ds) in switch l {
    NFail => l;
    NOK => if n.(URollExpr).Bonus == nil then NOK(uExprN(l.n, nil), l.st, l.ds)
      else let b = evalS(n.(URollExpr).Bonus, mr, l.st, l.ds) in switch b {
        Fail => NFail(b.st, b.ds);
        OK => NOK(uExprN(l.n, bonusN(valOf(b.o))), b.st, b.ds) } }
// the left side of a comparison
def vaLeft(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  if intE(n) then vaSub(n, mr, st, ds)
  else if n is BRollList then vaBL(n, mr, st, ds)
  else if n is RRollList then vaRL(n, mr, st, ds)
  else vaUX(n, mr, st, ds)
def vaCmp(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let a = vaLeft(n.(BasicInfixExpression).left, mr, st, ds) in switch a {
    NFail => a;
    NOK => let b = evalS(n.(BasicInfixExpression).right, mr, a.st, a.ds) in switch b {
      Fail => NFail(b.st, b.ds);
      OK => NOK(cmpN(a.n, n.(BasicInfixExpression).operator, intN(valOf(b.o))), b.st, b.ds) } }
def vaTop(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  if isDExpr(n) then (let a = vaSub(n.(Command).Expression, mr, st, ds) in switch a { NFail => a; NOK => NOK(commandN(ast_D_ROLL_EXPR_NODE, a.n), a.st, a.ds) })
  else if intE(n) then vaE(n, mr, st, ds)
  else if isBList(n) then vaBL(n, mr, st, ds)
  else if isRList(n) then vaRL(n, mr, st, ds)
  else if isUExpr(n) then vaUX(n, mr, st, ds)
  else vaCmp(n, mr, st, ds)
def isCmpAny(n Node): Bool = isIntCmp(n) || isBCmp(n) || isRCmp(n) || isUCmp(n)
def isNonPrim(n Node): Bool = intE(n) && (n is BasicInfixExpression || n is Divide || n is PrefixExpressionImpl)

// the kind of tree is kept
def constThr(l Node): Bool = l.(RRollList).Threshold == nilN() || l.(RRollList).Threshold is Int
def vaKind(n Node, m Node): Bool =
  if intE(n) then intE(m)
  else if isDExpr(n) then isDExpr(m)
  else if isBList(n) then isBList(m)
  else if isRList(n) then isRList(m) && constThr(m)
  else if isUExpr(n) then isUExpr(m) && constThr(m.(URollExpr).URollList)
  else if isIntCmp(n) then isIntCmp(m)
  else if isBCmp(n) then isBCmp(m)
  else if isRCmp(n) then isRCmp(m) && constThr(leftB(m))
  else isUCmp(m) && constThr(leftB(m).(URollExpr).URollList)
def nsem(x NOut, failed Bool, n Node, st Stream, ds Seq[Die]): Bool = switch x {
  NOK => !failed && n == x.n && st == x.st && ds == x.ds;
  NFail => failed && st == x.st && ds == x.ds }

func "pkg/core/evaluator.(*Evaluator).evalVarArgsOfVariableExpr" (e, node) (err)
  props C04 C05 C06 C07
  helper
  requires node is VariableInfixExpression && (intE(node) || isBRoll(node) || isRRoll(node) || isURoll(node))
  case C03 C04 C06 C11 C12 C15: intE(node) && node.(VariableInfixExpression).nodeType == ast_D_ROLL_NODE
  case C03 C05 C12 C15: isBRoll(node)
  case C03 C06 C08 C12 C15: isRRoll(node)
  case C03 C07 C08 C12 C15: isURoll(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04 C05 C06 C07: nsem(vaVar(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04 C05 C06 C07: err == nil ==> (if intE(old(node)) then intE(node) else if isBRoll(old(node)) then isBRoll(node) else if isRRoll(old(node)) then isRRoll(node) else isURoll(node))
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInBRollList" (e, node) (err)
  props C05
  helper
  requires isBList(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C05: nsem(vaBL(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C05: err == nil ==> isBList(node)
  loop 1 invariant rest C05: vaList(old(node.BRolls), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice), []) == vaList(drop(node.BRolls, $n), e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, take(node.BRolls, $n))
  loop 1 invariant todo C05: all(isBRoll, drop(node.BRolls, $n))
  loop 1 invariant done C05: all(isBRoll, take(node.BRolls, $n))
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInRRollList" (e, node) (err)
  props C06 C08
  helper
  requires isRList(node)
  case: node.Threshold == nilN()
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C06 C08: nsem(vaRL(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C06 C08: err == nil ==> isRList(node) && constThr(node)
  loop 1 invariant rest C06 C08: vaRL(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == (let a = vaList(drop(node.RRolls, $n), e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, take(node.RRolls, $n)) in switch a { LFail => NFail(a.st, a.ds); LOK => NOK(rListN(a.rs, node.Threshold), a.st, a.ds) })
  loop 1 invariant todo C06 C08: all(isRRoll, drop(node.RRolls, $n))
  loop 1 invariant done C06 C08: all(isRRoll, take(node.RRolls, $n))
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInURollExpr" (e, node) (err)
  props C07 C08
  helper
  requires isUExpr(node)
  case: node.URollList.(RRollList).Threshold == nilN() && node.Bonus == nil
  case: node.URollList.(RRollList).Threshold == nilN()
  case: node.Bonus == nil
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C07 C08: nsem(vaUX(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C07 C08: err == nil ==> isUExpr(node) && constThr(node.URollList)
  loop 1 invariant rest C07 C08: vaRL(old(node.URollList), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == (let a = vaList(drop(uRollList.RRolls, $n), e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, take(uRollList.RRolls, $n)) in switch a { LFail => NFail(a.st, a.ds); LOK => NOK(rListN(a.rs, uRollList.Threshold), a.st, a.ds) })
  loop 1 invariant todo C07 C08: all(isURoll, drop(uRollList.RRolls, $n))
// the walk through the rest of the tree
  loop 1 invariant done C07 C08: all(isURoll, take(uRollList.RRolls, $n))
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInPrefixExpression" (e, node) (err)
  props C04
  helper
  requires intE(node) && node is PrefixExpressionImpl
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04: nsem(vaE(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> intE(node)
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInInfixExpression" (e, node) (err)
  props C04
  helper
  requires intE(node) && (node is BasicInfixExpression || node is Divide)
  case: node is BasicInfixExpression
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04: nsem(vaE(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> intE(node)
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInCompare" (e, node) (err)
  props C04 C05 C06 C07
  helper
  requires isCmpAny(node)
  case C03 C04 C11 C12 C15: isIntCmp(node)
  case C03 C05 C11 C12 C15: isBCmp(node)
  case C03 C06 C08 C11 C12 C15: isRCmp(node)
  case C03 C07 C08 C11 C12 C15: isUCmp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04 C05 C06 C07: nsem(vaCmp(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04 C05 C06 C07: err == nil ==> vaKind(old(node), node)
func "pkg/core/evaluator.(*Evaluator).evalVarArgsInCommand" (e, node) (err)
  props C04
  helper
  requires isDExpr(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04: nsem(vaTop(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> isDExpr(node)
func "pkg/core/evaluator.(*Evaluator).EvalVarArgs" (e, node) (err)
  props C04 C05 C06 C07 C08
  requires isNonPrim(node) || isDExpr(node) || isBList(node) || isRList(node) || isUExpr(node) || isCmpAny(node)
  case C03 C04 C11 C12 C15: isNonPrim(node)
  case C03 C04 C11 C12 C15: isDExpr(node)
  case C03 C05 C11 C12 C15: isBList(node)
  case C03 C06 C08 C11 C12 C15: isRList(node)
  case C03 C07 C08 C11 C12 C15: isUExpr(node)
  case C03 C04 C11 C12 C15: isIntCmp(node)
  case C03 C05 C11 C12 C15: isBCmp(node)
  case C03 C06 C08 C11 C12 C15: isRCmp(node)
  case C03 C07 C08 C11 C12 C15: isUCmp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures args C04 C05 C06 C07 C08: nsem(vaTop(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04 C05 C06 C07 C08: err == nil ==> vaKind(old(node), node)
