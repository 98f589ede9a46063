// Rolls replaced by their dice, and the thresholds of reroll and exploding rolls.

// one addition roll term whose count and sides are known
def dvRoll(n Node, st Stream, ds Seq[Die]): NOut =
  if !(leftOf(n) is Int) || !(rightOf(n) is Int) then NFail(st, ds)
  else let r = rolls(valN(leftOf(n)), valN(rightOf(n)), st) in switch r {
    RollOK => NOK(sumN(r.dice), r.st, ds + r.dice);
    RollErr => NFail(r.st, ds) }
def valN(n Node): Int = switch n { Int => n.Value; else => 0 }
def dvVar(n Node, st Stream, ds Seq[Die]): NOut = if n.(VariableInfixExpression).nodeType == ast_D_ROLL_NODE then dvRoll(n, st, ds) else NFail(st, ds)
def dvSub(n Node, st Stream, ds Seq[Die]): NOut = switch n {
  Int => NOK(n, st, ds);
  SumRollResult => NOK(n, st, ds);
  VariableInfixExpression => dvVar(n, st, ds);
  else => dvE(n, st, ds) }
rec dvE(n Node, st Stream, ds Seq[Die]): NOut = switch n {
  PrefixExpressionImpl => let a = dvSub(n.right, st, ds) in switch a { NFail => a; NOK => NOK(set(n, right, a.n), a.st, a.ds) };
  BasicInfixExpression => let t = dvPair(n.left, n.right, st, ds) in switch t { PairFail => NFail(t.st, t.ds); PairOK => NOK(set(set(n, left, t.l), right, t.r), t.st, t.ds) };
  Divide => let t = dvPair(n.left, n.right, st, ds) in switch t { PairFail => NFail(t.st, t.ds); PairOK => NOK(set(set(n, left, t.l), right, t.r), t.st, t.ds) };
  else => NFail(st, ds) }
def dvPair(l Node, r Node, st Stream, ds Seq[Die]): Pair =
  let a = dvSub(l, st, ds) in switch a {
    NFail => PairFail(a.st, a.ds);
    NOK => let b = dvSub(r, a.st, a.ds) in switch b { NFail => PairFail(b.st, b.ds); NOK => PairOK(a.n, b.n, b.st, b.ds) } }
def dvTop(n Node, st Stream, ds Seq[Die]): NOut =
  if intE(n) then dvE(n, st, ds)
  else if isDExpr(n) then (let a = dvSub(n.(Command).Expression, st, ds) in switch a { NFail => a; NOK => NOK(commandN(ast_D_ROLL_EXPR_NODE, a.n), a.st, a.ds) })
  else (let t = dvPair(n.(BasicInfixExpression).left, n.(BasicInfixExpression).right, st, ds) in switch t { PairFail => NFail(t.st, t.ds); PairOK => NOK(cmpN(t.l, n.(BasicInfixExpression).operator, t.r), t.st, t.ds) })
def dvKind(n Node, m Node): Bool = if intE(n) then intE(m) else if isDExpr(n) then isDExpr(m) else isIntCmp(m)

func "pkg/core/evaluator.(*Evaluator).determineValueOfDRoll" (e, node) (r, err)
  props C04
  helper
  requires intE(node) && node.nodeType == ast_D_ROLL_NODE
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures roll C04: let x = dvRoll(node, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) in switch x {
    NOK => err == nil && r == x.n && stream(e.diceRoller.feeder) == x.st && e.env.rolledDice == x.ds;
    NFail => err != nil && stream(e.diceRoller.feeder) == x.st && e.env.rolledDice == x.ds }
func "pkg/core/evaluator.(*Evaluator).determineValuesInPrefixExpression" (e, node) (err)
  props C04
  helper
  requires intE(node) && node is PrefixExpressionImpl
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures values C04: nsem(dvE(old(node), old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> intE(node)
func "pkg/core/evaluator.(*Evaluator).determineValuesInInfixExpression" (e, node) (err)
  props C04
  helper
  requires (intE(node) && (node is BasicInfixExpression || node is Divide)) || isIntCmp(node)
  case: intE(node) && node is BasicInfixExpression
  case: intE(node)
  case: isIntCmp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures values C04: nsem(dvTop(old(node), old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> dvKind(old(node), node)
func "pkg/core/evaluator.(*Evaluator).DetermineValues" (e, node) (err)
  props C04
  requires isNonPrim(node) || isDExpr(node) || isIntCmp(node)
  case C03 C04 C11 C12 C15: isNonPrim(node)
  case C03 C04 C11 C12 C15: isDExpr(node)
  case C03 C04 C11 C12 C15: isIntCmp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures values C04: nsem(dvTop(old(node), old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C04: err == nil ==> dvKind(old(node), node)
rec isVar(n Node): Bool = switch n {
  Int => false; SumRollResult => false; String => false; Nil => false;
  PrefixExpressionImpl => isVar(n.right);
  BasicInfixExpression => isVar(n.left) || isVar(n.right);
  Divide => isVar(n.left) || isVar(n.right);
  else => true }
func "pkg/core/ast.(*BasicInfixExpression).IsVariable" (n) (r)
  props C04
  helper
  requires intE(n.left) && intE(n.right)
  ensures var C04: r <==> isVar(n.left) || isVar(n.right)
func "pkg/core/ast.(*PrefixExpressionImpl).IsVariable" (n) (r)
  props C04
  helper
  requires intE(n.right)
  ensures var C04: r <==> isVar(n.right)
