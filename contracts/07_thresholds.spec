// The thresholds of reroll and exploding rolls, and the left side of a comparison.

def msgR(): String = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
def msgU(): String = "2U6[5] のように振り足し目標値を指定してください"
def msgLow(): String = "振り足し目標値として2以上の整数を指定してください"
// a missing threshold, one that cannot be evaluated, one below 2
def thrOut(thr Node, missing String, mr Int, st Stream, ds Seq[Die], err Err, st2 Stream, ds2 Seq[Die]): Bool =
  if thr == nilN() then err != nil && err.msg == missing && st2 == st && ds2 == ds
  else let t = evalS(thr, mr, st, ds) in switch t {
    Fail => err != nil && st2 == t.st && ds2 == t.ds;
    OK => st2 == t.st && ds2 == t.ds && (if valOf(t.o) < 2 then err != nil && err.msg == msgLow() else err == nil) }
func "pkg/core/evaluator.(*Evaluator).CheckRRollThreshold" (e, node) (err)
  props C08
  requires isRList(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures check C08: thrOut(node.Threshold, msgR(), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice), err, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/evaluator.(*Evaluator).CheckURollThreshold" (e, node) (err)
  props C08
  requires isUList(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures check C08: thrOut(node.Threshold, msgU(), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice), err, stream(e.diceRoller.feeder), e.env.rolledDice)

// a reroll roll without a threshold takes the target of its comparison
def leftB(n Node): Node = n.(BasicInfixExpression).left
def rightB(n Node): Node = n.(BasicInfixExpression).right
def setThr(n Node, mr Int, st Stream, ds Seq[Die]): NOut =
  let x = n.(Command).Expression in let l = leftB(x).(RRollList) in
  if l.Threshold != nilN() then NOK(n, st, ds)
  else let t = evalS(rightB(x), mr, st, ds) in switch t {
    Fail => NFail(t.st, t.ds);
    OK => NOK(commandN(ast_R_ROLL_COMP_NODE, cmpN(rListN(l.RRolls, intN(valOf(t.o))), opOf(x), rightB(x))), t.st, t.ds) }
func "pkg/core/evaluator.(*Evaluator).SetRerollThreshold" (e, node) (err)
  props C08 C06
  requires isRComp(node)
  keeps node.Expression, node.Expression.(BasicInfixExpression).left
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures set C08 C06: nsem(setThr(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, node, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C08 C06: err == nil ==> isRComp(node)
func "pkg/core/evaluator.(*Evaluator).EvalCompareLeft" (e, node) (r, err)
  props C04
  requires isIntCmp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures left C04: sem(evalS(old(node).(BasicInfixExpression).left, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures int C04: err == nil ==> r is Integer && node == cmpN(intN(valOf(r)), old(node.operator), old(node.right))
