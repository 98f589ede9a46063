// The evaluator: a function from syntax tree, dice supply and recorded dice to
// a value, the supply left and the recorded dice.

nonnil evaluator_Evaluator.diceRoller
nonnil evaluator_Evaluator.env

datatype Out = OK(o Obj, st Stream, ds Seq[Die]) | Fail(st Stream, ds Seq[Die])
def stOf(x Out): Stream = switch x { OK => x.st; Fail => x.st }
def dsOf(x Out): Seq[Die] = switch x { OK => x.ds; Fail => x.ds }
datatype Two = TwoOK(l Obj, r Obj, st Stream, ds Seq[Die]) | TwoFail(st Stream, ds Seq[Die])

def elems(o Obj): Seq[Obj] = switch o { Array => o.Elements; else => [] }

// ---- arithmetic
def abs(x Int): Int = if x < 0 then 0 - x else x
def sgn(x Int): Int = if x < 0 then 0 - 1 else 1
// l/r rounded towards plus infinity, and half away from zero
def ceilDiv(l Int, r Int): Int = if trem(l, r) != 0 && ((l < 0) <==> (r < 0)) then tdiv(l, r) + 1 else tdiv(l, r)
def halfDiv(l Int, r Int): Int = if 2 * abs(trem(l, r)) >= abs(r) then tdiv(l, r) + sgn(l) * sgn(r) else tdiv(l, r)
def quot(m Int, l Int, r Int): Int =
  if m == ast_ROUNDING_METHOD_ROUND_DOWN then tdiv(l, r)
  else if m == ast_ROUNDING_METHOD_ROUND_UP then ceilDiv(l, r)
  else halfDiv(l, r)
// the roundings are the mathematical ones
lemma quotTrunc C01 (l Int, r Int) given r != 0: abs(tdiv(l, r)) * abs(r) <= abs(l) && abs(l) < (abs(tdiv(l, r)) + 1) * abs(r) && (tdiv(l, r) == 0 || sgn(tdiv(l, r)) == sgn(l) * sgn(r))
lemma quotCeil C01 (l Int, r Int) given r != 0: (ceilDiv(l, r) - 1) * abs(r) < l * sgn(r) && l * sgn(r) <= ceilDiv(l, r) * abs(r)
lemma quotHalf C01 (l Int, r Int) given r != 0: abs(halfDiv(l, r)) * 2 * abs(r) - abs(r) <= 2 * abs(l) && 2 * abs(l) < abs(halfDiv(l, r)) * 2 * abs(r) + abs(r) && (halfDiv(l, r) == 0 || sgn(halfDiv(l, r)) == sgn(l) * sgn(r))

def cmp(op String, a Int, b Int): Bool =
  if op == "=" then a == b else if op == "<>" then a != b else if op == "<" then a < b
  else if op == ">" then a > b else if op == "<=" then a <= b else a >= b
rec countOK(op String, xs Seq[Obj], t Int): Int =
  if len(xs) == 0 then 0 else (if cmp(op, valOf(xs[0]), t) then 1 else 0) + countOK(op, drop(xs, 1), t)
rec countGE(xs Seq[Obj], t Int): Int =
  if len(xs) == 0 then 0 else (if valOf(xs[0]) >= t then 1 else 0) + countGE(drop(xs, 1), t)
rec countGroups(op String, gs Seq[Obj], t Int): Int =
  if len(gs) == 0 then 0 else countOK(op, elems(gs[0]), t) + countGroups(op, drop(gs, 1), t)

// ---- rolling inside an expression
def sumRoll(num Int, sides Int, st Stream, ds Seq[Die]): Out =
  let r = rolls(num, sides, st) in switch r { RollOK => OK(intO(wrap64(sumD(r.dice))), r.st, ds + r.dice); RollErr => Fail(r.st, ds) }
def basicRoll(num Int, sides Int, st Stream, ds Seq[Die]): Out =
  let r = rolls(num, sides, st) in switch r { RollOK => OK(arrO(intsOf(r.dice)), r.st, ds + r.dice); RollErr => Fail(r.st, ds) }
def randNum(a Int, b Int, st Stream, ds Seq[Die]): Out =
  if a >= b then Fail(st, ds)
  else let r = rolls(1, wrap64(b - a + 1), st) in switch r {
    RollOK => OK(intO(wrap64(a - 1 + r.dice[0].Value)), r.st, ds + r.dice);
    RollErr => Fail(r.st, ds) }
// a value drawn lies in the range, and every value of the range has its die
lemma randInRange C09 (a Int, b Int, v Int) given fits64(a) && fits64(b) && fits64(v) given a < b given fits64(b - a + 1) given 1 <= v && v <= wrap64(b - a + 1): a <= wrap64(a - 1 + v) && wrap64(a - 1 + v) <= b
lemma randCovers C09 (a Int, b Int, x Int) given fits64(a) && fits64(b) given a < b given fits64(b - a + 1) given a <= x && x <= b: let v = x - a + 1 in 1 <= v && v <= wrap64(b - a + 1) && wrap64(a - 1 + v) == x
lemma randTooWide C09 (a Int, b Int) given fits64(a) && fits64(b) given a < b given !fits64(b - a + 1): wrap64(b - a + 1) < 1

def calc(op String, l Int, r Int, st Stream, ds Seq[Die]): Out =
  if cmpOp(op) then OK(boolO(cmp(op, l, r)), st, ds)
  else if op == "+" then OK(intO(wrap64(l + r)), st, ds)
  else if op == "-" then OK(intO(wrap64(l - r)), st, ds)
  else if op == "*" then OK(intO(wrap64(l * r)), st, ds)
  else if op == "D" then sumRoll(l, r, st, ds)
  else if op == "B" || op == "R" then basicRoll(l, r, st, ds)
  else if op == "..." then randNum(l, r, st, ds)
  else Fail(st, ds)
def divide(m Int, l Int, r Int, st Stream, ds Seq[Die]): Out =
  if r == 0 then Fail(st, ds) else OK(intO(wrap64(quot(m, l, r))), st, ds)

rec evalS(n Node, mr Int, st Stream, ds Seq[Die]): Out = switch n {
  Int => OK(intO(n.Value), st, ds);
  SumRollResult => OK(intO(wrap64(sumD(n.Dice))), st, ds);
  PrefixExpressionImpl => let a = evalS(n.right, mr, st, ds) in switch a { OK => OK(intO(wrap64(0 - valOf(a.o))), a.st, a.ds); Fail => a };
  BasicInfixExpression => let t = operands(n.left, n.right, mr, st, ds) in switch t { TwoOK => calc(n.operator, valOf(t.l), valOf(t.r), t.st, t.ds); TwoFail => Fail(t.st, t.ds) };
  Divide => let t = operands(n.left, n.right, mr, st, ds) in switch t { TwoOK => divide(n.RoundingMethod, valOf(t.l), valOf(t.r), t.st, t.ds); TwoFail => Fail(t.st, t.ds) };
  VariableInfixExpression => let t = operands(n.left, n.right, mr, st, ds) in switch t { TwoOK => calc(n.operator, valOf(t.l), valOf(t.r), t.st, t.ds); TwoFail => Fail(t.st, t.ds) };
  else => Fail(st, ds) }
rec operands(l Node, r Node, mr Int, st Stream, ds Seq[Die]): Two =
  let a = evalS(l, mr, st, ds) in switch a {
    Fail => TwoFail(a.st, a.ds);
    OK => let b = evalS(r, mr, a.st, a.ds) in switch b { Fail => TwoFail(b.st, b.ds); OK => TwoOK(a.o, b.o, b.st, b.ds) } }

// ---- exact arithmetic (no dice)
rec arithE(n Node): Bool = switch n {
  Int => true;
  PrefixExpressionImpl => arithE(n.right);
  BasicInfixExpression => (n.operator == "+" || n.operator == "-" || n.operator == "*") && arithE(n.left) && arithE(n.right);
  Divide => arithE(n.left) && arithE(n.right);
  else => false }
rec mathV(n Node): Int = switch n {
  Int => n.Value;
  PrefixExpressionImpl => 0 - mathV(n.right);
  BasicInfixExpression => if n.operator == "+" then mathV(n.left) + mathV(n.right) else if n.operator == "-" then mathV(n.left) - mathV(n.right) else mathV(n.left) * mathV(n.right);
  Divide => quot(n.RoundingMethod, mathV(n.left), mathV(n.right));
  else => 0 }
// every intermediate value fits and no division is by zero
rec exactE(n Node): Bool = switch n {
  Int => true;
  PrefixExpressionImpl => exactE(n.right) && fits64(mathV(n));
  BasicInfixExpression => exactE(n.left) && exactE(n.right) && fits64(mathV(n));
  Divide => exactE(n.left) && exactE(n.right) && mathV(n.right) != 0 && fits64(mathV(n));
  else => false }
// a division by zero is met, everything evaluated before it being exact
rec divZero(n Node): Bool = switch n {
  PrefixExpressionImpl => divZero(n.right);
  BasicInfixExpression => divZero(n.left) || exactE(n.left) && divZero(n.right);
  Divide => divZero(n.left) || exactE(n.left) && (divZero(n.right) || exactE(n.right) && mathV(n.right) == 0);
  else => false }

// ---- basic rolls
rec evalB(bs Seq[Node], mr Int, st Stream, ds Seq[Die], acc Seq[Obj]): Out =
  if len(bs) == 0 then OK(arrO(acc), st, ds)
  else let a = evalS(bs[0], mr, st, ds) in switch a {
    Fail => a;
    OK => evalB(drop(bs, 1), mr, a.st, a.ds, acc + elems(a.o)) }

// ---- reroll rolls
def again(k Int, sides Node): Seq[Node] = if k > 0 then [rRollN(intN(k), sides)] else []
def rightOf(n Node): Node = switch n { VariableInfixExpression => n.right; else => n }
def leftOf(n Node): Node = switch n { VariableInfixExpression => n.left; else => n }
rec rerolls(i Int, q Seq[Node], thr Int, mr Int, st Stream, ds Seq[Die], acc Seq[Obj]): Out =
  if i >= mr || len(q) == 0 then OK(arrO(acc), st, ds)
  else let a = evalS(q[0], mr, st, ds) in switch a {
    Fail => a;
    OK => rerolls(i + 1, drop(q, 1) + again(wrap64(countGE(elems(a.o), thr)), rightOf(q[0])), thr, mr, a.st, a.ds, acc + [a.o]) }
def evalR(rs Seq[Node], thr Node, mr Int, st Stream, ds Seq[Die]): Out =
  if thr == nilN() then Fail(st, ds)
  else let t = evalS(thr, mr, st, ds) in switch t { Fail => t; OK => rerolls(0, rs, valOf(t.o), mr, t.st, t.ds, []) }

// ---- exploding rolls
rec uDie(j Int, sides Int, thr Int, mr Int, st Stream, ds Seq[Die], acc Seq[Obj]): Out =
  if j >= mr then OK(arrO(acc), st, ds)
  else let r = rolls(1, sides, st) in switch r {
    RollErr => Fail(r.st, ds);
    RollOK => if r.dice[0].Value < thr then OK(arrO(acc + [intO(r.dice[0].Value)]), r.st, ds + r.dice)
      else uDie(j + 1, sides, thr, mr, r.st, ds + r.dice, acc + [intO(r.dice[0].Value)]) }
rec uDice(i Int, num Int, sides Int, thr Int, mr Int, st Stream, ds Seq[Die], acc Seq[Obj]): Out =
  if i >= num then OK(arrO(acc), st, ds)
  else let a = uDie(0, sides, thr, mr, st, ds, []) in switch a { Fail => a; OK => uDice(i + 1, num, sides, thr, mr, a.st, a.ds, acc + [a.o]) }
def uTerm(n Node, thr Int, mr Int, st Stream, ds Seq[Die]): Out =
  let t = operands(leftOf(n), rightOf(n), mr, st, ds) in switch t {
    TwoFail => Fail(t.st, t.ds);
    TwoOK => if valOf(t.r) < 1 || valOf(t.l) < 1 then Fail(t.st, t.ds) else uDice(0, valOf(t.l), valOf(t.r), thr, mr, t.st, t.ds, []) }
rec uTerms(rs Seq[Node], thr Int, mr Int, st Stream, ds Seq[Die], acc Seq[Obj]): Out =
  if len(rs) == 0 then OK(arrO(acc), st, ds)
  else let a = uTerm(rs[0], thr, mr, st, ds) in switch a { Fail => a; OK => uTerms(drop(rs, 1), thr, mr, a.st, a.ds, acc + elems(a.o)) }
def evalUL(rs Seq[Node], thr Node, mr Int, st Stream, ds Seq[Die]): Out =
  if thr == nilN() then Fail(st, ds)
  else let t = evalS(thr, mr, st, ds) in switch t { Fail => t; OK => uTerms(rs, valOf(t.o), mr, t.st, t.ds, []) }
def uRes(gs Obj, m Obj): Obj = Obj_URollExprResult(struct(object_URollExprResult, gs, m, nil))
def evalUx(rs Seq[Node], thr Node, bonus Node, mr Int, st Stream, ds Seq[Die]): Out =
  let m = (if bonus == nil then OK(intO(0), st, ds) else evalS(bonus, mr, st, ds)) in switch m {
    Fail => m;
    OK => let g = evalUL(rs, thr, mr, m.st, m.ds) in switch g { Fail => g; OK => OK(uRes(g.o, m.o), g.st, g.ds) } }

// ---- the other results
def choiceS(items Seq[Node], st Stream, ds Seq[Die]): Out =
  let r = rolls(1, len(items), st) in switch r {
    RollOK => OK(strO(items[r.dice[0].Value - 1].(String).Value), r.st, ds + r.dice);
    RollErr => Fail(r.st, ds) }
def cmpRight(a Out, x Node, mr Int): Two = switch a {
  Fail => TwoFail(a.st, a.ds);
  OK => let t = evalS(x.(BasicInfixExpression).right, mr, a.st, a.ds) in switch t { Fail => TwoFail(t.st, t.ds); OK => TwoOK(a.o, t.o, t.st, t.ds) } }
def opOf(x Node): String = x.(BasicInfixExpression).operator
def bCompS(x Node, mr Int, st Stream, ds Seq[Die]): Out =
  let t = cmpRight(evalB(x.(BasicInfixExpression).left.(BRollList).BRolls, mr, st, ds, []), x, mr) in switch t {
    TwoFail => Fail(t.st, t.ds);
    TwoOK => OK(Obj_BRollCompResult(struct(object_BRollCompResult, t.l, intO(wrap64(countOK(opOf(x), elems(t.l), valOf(t.r)))))), t.st, t.ds) }
def rCompS(x Node, mr Int, st Stream, ds Seq[Die]): Out =
  let t = cmpRight(evalR(x.(BasicInfixExpression).left.(RRollList).RRolls, x.(BasicInfixExpression).left.(RRollList).Threshold, mr, st, ds), x, mr) in switch t {
    TwoFail => Fail(t.st, t.ds);
    TwoOK => OK(Obj_RRollCompResult(struct(object_RRollCompResult, t.l, intO(wrap64(countGroups(opOf(x), elems(t.l), valOf(t.r)))))), t.st, t.ds) }
def uGroups(u Obj): Seq[Obj] = elems(u.(URollExprResult).valueGroups)
def uMod(u Obj): Int = valOf(u.(URollExprResult).modifier)
// the result keeps the sums it has computed
def uSummed(u Obj): Obj = Obj_URollExprResult(struct(object_URollExprResult, u.(URollExprResult).valueGroups, u.(URollExprResult).modifier, arrO(sumsO(uGroups(u)))))
def uCompS(x Node, mr Int, st Stream, ds Seq[Die]): Out =
  let u = x.(BasicInfixExpression).left.(URollExpr) in
  let t = cmpRight(evalUx(u.URollList.(RRollList).RRolls, u.URollList.(RRollList).Threshold, u.Bonus, mr, st, ds), x, mr) in switch t {
    TwoFail => Fail(t.st, t.ds);
    TwoOK => OK(Obj_URollCompResult(struct(object_URollCompResult, uSummed(t.l), intO(wrap64(countOK(opOf(x), addAll(sumsO(uGroups(t.l)), uMod(t.l)), valOf(t.r)))))), t.st, t.ds) }

def sem(x Out, failed Bool, r Obj, st Stream, ds Seq[Die]): Bool = switch x {
  OK => !failed && r == x.o && st == x.st && ds == x.ds;
  Fail => failed && st == x.st && ds == x.ds }
def isGroups(o Obj): Bool = switch o { Array => all(isIntArr, o.Elements); else => false }
def isURes(o Obj): Bool = switch o { URollExprResult => o.modifier is Integer && isGroups(o.valueGroups) && o.sumOfGroups == nil; else => false }

// ---- contracts
func "pkg/core/evaluator.(*Evaluator).RollDice" (e, num, sides) (r, err)
  props C03
  helper
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures roll C03: let x = rolls(num, sides, old(stream(e.diceRoller.feeder))) in switch x {
    RollOK => err == nil && r == x.dice && stream(e.diceRoller.feeder) == x.st && e.env.rolledDice == old(e.env.rolledDice) + x.dice;
    RollErr => err != nil && stream(e.diceRoller.feeder) == x.st && e.env.rolledDice == old(e.env.rolledDice) }
func "pkg/core/evaluator.(*Environment).AppendRolledDice" (e, dice)
  props C03
  modifies e.rolledDice
  ensures app C03: e.rolledDice == old(e.rolledDice) + dice
  loop 1 invariant pref C03: e.rolledDice + drop(dice, $n) == old(e.rolledDice) + dice
func "pkg/core/evaluator.(*Environment).PushRolledDie" (e, d)
  props C03
  helper
  modifies e.rolledDice
  ensures app C03: e.rolledDice == old(e.rolledDice) + [d]
func "pkg/core/evaluator.(*Environment).RolledDice" (e) (r)
  props C03
  ensures copy C03: r == e.rolledDice
  ensures isolated C03: fresh(r)
func "pkg/core/evaluator.(*Evaluator).RolledDice" (e) (r)
  props C03
  ensures copy C03: r == e.env.rolledDice
  ensures isolated C03: fresh(r)
func "pkg/core/evaluator.NewEnvironment" () (r)
  props C03
  ensures empty C03: r is some && len(r.rolledDice) == 0
  ensures isolated C03: fresh(r)

func "pkg/core/evaluator.(*Evaluator).evalSumRoll" (e, num, sides) (r, err)
  props C04
  helper
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures sum C04: sem(sumRoll(num.Value, sides.Value, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  loop 1 invariant rest C04: wrap64(sumD(rolledDice)) == wrap64(sum + sumD(drop(rolledDice, $n)))
func "pkg/core/evaluator.(*Evaluator).evalBasicRoll" (e, num, sides) (r, err)
  props C05 C06
  helper
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures values C05 C06: sem(basicRoll(num.Value, sides.Value, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures ints C05 C06: err == nil ==> isIntArr(r)
  loop 1 invariant rest C05 C06: intsOf(rolledDice) == intObjs + intsOf(drop(rolledDice, $n))
  loop 1 invariant ints C05 C06: all(isInt, intObjs)
func "pkg/core/evaluator.(*Evaluator).countNumOfSuccesses" (e, values, operator, target) (r, err)
  props C05 C06 C07
  helper
  requires all(isInt, values.Elements) && cmpOp(operator)
  ensures ok C05 C06 C07: err == nil
  ensures count C05 C06 C07: r == intO(wrap64(countOK(operator, values.Elements, target.Value)))
  loop 1 invariant rest C05 C06 C07: wrap64(countOK(operator, values.Elements, target.Value)) == wrap64(numOfSuccesses + countOK(operator, drop(values.Elements, $n), target.Value))
  loop 1 invariant noRoll C05 C06 C07: stream(e.diceRoller.feeder) == old(stream(e.diceRoller.feeder)) && e.env.rolledDice == old(e.env.rolledDice)

func "pkg/core/evaluator.(*Evaluator).evalBRollList" (e, node) (r, err)
  props C05
  helper
  requires isBList(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures list C05: sem(evalB(node.BRolls, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice), []), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures ints C05: err == nil ==> isIntArr(r)
  loop 1 invariant rest C05: evalB(node.BRolls, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice), []) == evalB(drop(node.BRolls, $n), e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, elements)
  loop 1 invariant ints C05: all(isInt, elements)
func "pkg/core/evaluator.(*Evaluator).evalRRollList" (e, node) (r, err)
  props C06 C08
  helper
  requires isRList(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures list C06: sem(evalR(node.RRolls, node.Threshold, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures groups C06: err == nil ==> isGroups(r)
  loop 1 invariant rest C06: evalR(node.RRolls, node.Threshold, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == rerolls($n, rollQueue, threshold, e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, valueGroups)
  loop 1 invariant queue C06: all(isRRoll, rollQueue)
  loop 1 invariant groups C06: all(isIntArr, valueGroups)
  loop 2 invariant count C06: wrap64(countGE(values.Elements, threshold)) == wrap64(numOfSuccesses + countGE(drop(values.Elements, $n), threshold))
func "pkg/core/evaluator.(*Evaluator).evalCompoundingRoll" (e, node, threshold) (r, err)
  props C07
  helper
  requires isURoll(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures term C07: sem(uTerm(node, threshold.Value, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures groups C07: err == nil ==> isGroups(r)
  loop 1 invariant rest C07: uTerm(node, threshold.Value, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == uDice($n, numVal, sidesVal, threshold.Value, e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, valueGroups)
  loop 1 invariant groups C07: all(isIntArr, valueGroups)
  loop 2 invariant rest C07: uTerm(node, threshold.Value, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == (let a = uDie($n, sidesVal, threshold.Value, e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, valueGroup) in switch a { Fail => a; OK => uDice($outer + 1, numVal, sidesVal, threshold.Value, e.MaxRerolls, a.st, a.ds, valueGroups + [a.o]) })
  loop 2 invariant ints C07: all(isInt, valueGroup)
func "pkg/core/evaluator.(*Evaluator).evalURollList" (e, node) (r, err)
  props C07 C08
  helper
  requires isUList(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures list C07: sem(evalUL(node.RRolls, node.Threshold, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures groups C07: err == nil ==> isGroups(r)
  loop 1 invariant rest C07: evalUL(node.RRolls, node.Threshold, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)) == uTerms(drop(node.RRolls, $n), thresholdInt.Value, e.MaxRerolls, stream(e.diceRoller.feeder), e.env.rolledDice, valueGroups)
  loop 1 invariant groups C07: all(isIntArr, valueGroups)
func "pkg/core/evaluator.(*Evaluator).evalURollExpr" (e, node) (r, err)
  props C07 C08
  helper
  requires isUExpr(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures expr C07: sem(evalUx(node.URollList.(RRollList).RRolls, node.URollList.(RRollList).Threshold, node.Bonus, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures res C07: err == nil ==> isURes(r)
  ensures isolated C07: fresh(r)

func "pkg/core/evaluator.(*Evaluator).evalBRollComp" (e, node) (r, err)
  props C05
  helper
  requires isBComp(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures comp C05: sem(bCompS(node.Expression, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C05: err == nil ==> r is BRollCompResult && isIntArr(r.Values) && r.NumOfSuccesses is Integer
func "pkg/core/evaluator.(*Evaluator).evalRRollComp" (e, node) (r, err)
  props C06
  helper
  requires isRComp(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures comp C06: sem(rCompS(node.Expression, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C06: err == nil ==> r is RRollCompResult && isGroups(r.ValueGroups) && r.NumOfSuccesses is Integer
  loop 1 invariant rest C06: wrap64(countGroups(compareNode.operator, valueGroupsArray.Elements, targetIntObj.Value)) == wrap64(numOfSuccesses + countGroups(compareNode.operator, drop(valueGroupsArray.Elements, $n), targetIntObj.Value))
func "pkg/core/evaluator.(*Evaluator).evalURollComp" (e, node) (r, err)
  props C07
  helper
  requires isUComp(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures comp C07: sem(uCompS(node.Expression, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C07: err == nil ==> r is URollCompResult && r.NumOfSuccesses is Integer && isGroups(r.RollResult.(URollExprResult).valueGroups) && r.RollResult.(URollExprResult).modifier is Integer
  ensures isolated C07: fresh(r)
  loop 1 invariant rest C07: addAll(sumOfGroups.Elements, rollResult.modifier.Value) == modifiedSumOfGroups + addAll(drop(sumOfGroups.Elements, $n), rollResult.modifier.Value)
  loop 1 invariant ints C07: all(isInt, modifiedSumOfGroups)

// ---- one definition for every tree, used by the dispatching functions
def evCmd(n Node, mr Int, st Stream, ds Seq[Die]): Out =
  if isBComp(n) then bCompS(n.(Command).Expression, mr, st, ds)
  else if isRComp(n) then rCompS(n.(Command).Expression, mr, st, ds)
  else if isUComp(n) then uCompS(n.(Command).Expression, mr, st, ds)
  else evalS(n.(Command).Expression, mr, st, ds)
def isCmd(n Node): Bool = isCalc(n) || isDExpr(n) || isDComp(n) || isBComp(n) || isRComp(n) || isUComp(n)
def isPlain(n Node): Bool = intE(n) || isIntCmp(n) || isBRoll(n) || isRRoll(n)
def evTop(n Node, mr Int, st Stream, ds Seq[Die]): Out =
  if isPlain(n) then evalS(n, mr, st, ds)
  else if isBList(n) then evalB(n.(BRollList).BRolls, mr, st, ds, [])
  else if isRList(n) then evalR(n.(RRollList).RRolls, n.(RRollList).Threshold, mr, st, ds)
  else if isUExpr(n) then evalUx(n.(URollExpr).URollList.(RRollList).RRolls, n.(URollExpr).URollList.(RRollList).Threshold, n.(URollExpr).Bonus, mr, st, ds)
  else if isChoice(n) then choiceS(n.(Choice).Items, st, ds)
  else evCmd(n, mr, st, ds)
def kindPlain(n Node, o Obj): Bool = if intE(n) then o is Integer else if isIntCmp(n) then o is Boolean else isIntArr(o)
def kindCmd(n Node, o Obj): Bool =
  if isBComp(n) then o is BRollCompResult && isIntArr(o.(BRollCompResult).Values) && o.(BRollCompResult).NumOfSuccesses is Integer
  else if isRComp(n) then o is RRollCompResult && isGroups(o.(RRollCompResult).ValueGroups) && o.(RRollCompResult).NumOfSuccesses is Integer
  else if isUComp(n) then o is URollCompResult && o.(URollCompResult).NumOfSuccesses is Integer && isGroups(o.(URollCompResult).RollResult.(URollExprResult).valueGroups) && o.(URollCompResult).RollResult.(URollExprResult).modifier is Integer
  else if isDComp(n) then o is Boolean else o is Integer
def kindTop(n Node, o Obj): Bool =
  if isPlain(n) then kindPlain(n, o)
  else if isBList(n) then isIntArr(o)
  else if isRList(n) then isGroups(o)
  else if isUExpr(n) then isURes(o)
  else if isChoice(n) then o is String
  else kindCmd(n, o)

// exact arithmetic: no overflow, no dice
theorem exactArithmetic C01 (n Node, mr Int, st Stream, ds Seq[Die]) decreases n
  at (n.(PrefixExpressionImpl).right, mr, st, ds)
  at (n.(BasicInfixExpression).left, mr, st, ds) at (n.(BasicInfixExpression).right, mr, st, ds)
  at (n.(Divide).left, mr, st, ds) at (n.(Divide).right, mr, st, ds):
  arithE(n) ==> (exactE(n) ==> evalS(n, mr, st, ds) == OK(intO(mathV(n)), st, ds)) && (divZero(n) ==> evalS(n, mr, st, ds) == Fail(st, ds))

func "pkg/core/evaluator.(*Evaluator).evalRandomNumber" (e, min, max) (r, err)
  props C09
  helper
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C09: sem(randNum(min.Value, max.Value, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/evaluator.(*Evaluator).evalIntegerInfixExpression" (e, operator, left, right) (r, err)
  props C01 C04 C05 C06 C09
  helper
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C01 C04 C05 C06 C09: sem(calc(operator, left.Value, right.Value, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures ints C05 C06: (operator == "B" || operator == "R") && err == nil ==> isIntArr(r)
func "pkg/core/evaluator.(*Evaluator).evalIntegerDivide" (e, divide, left, right) (r, err)
  props C01
  helper
  requires 0 <= divide.RoundingMethod && divide.RoundingMethod <= 2
  ensures value C01: sem(divide(divide.RoundingMethod, left.Value, right.Value, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/evaluator.(*Evaluator).evalPrefixExpression" (e, node) (r, err)
  props C01
  helper
  requires intE(node) && node is PrefixExpressionImpl
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C01: sem(evalS(node, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures int C01: err == nil ==> r is Integer
func "pkg/core/evaluator.(*Evaluator).evalInfixExpression" (e, node) (r, err)
  props C01 C04 C05 C06 C09
  helper
  requires isPlain(node) && (node is BasicInfixExpression || node is Divide || node is VariableInfixExpression)
  case: intE(node) && node is BasicInfixExpression && node.(BasicInfixExpression).operator == "+"
  case: intE(node) && node is BasicInfixExpression && node.(BasicInfixExpression).operator == "-"
  case: intE(node) && node is BasicInfixExpression
  case: intE(node) && node is Divide
  case: intE(node)
  case C03 C04 C05 C06 C07 C09 C12 C15: isIntCmp(node)
  case C03 C05 C12 C15: isBRoll(node)
  case C03 C06 C08 C12 C15: isRRoll(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C01 C04 C05 C06 C09: sem(evalS(node, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C01 C04 C05 C06 C09: err == nil ==> kindPlain(node, r)
func "pkg/core/evaluator.(*Evaluator).evalChoice" (e, node) (r, err)
  props C10
  helper
  requires isChoice(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures choice C10: sem(choiceS(node.Items, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures str C10: err == nil ==> r is String
func "pkg/core/evaluator.(*Evaluator).evalCommand" (e, node) (r, err)
  props C01 C04 C05 C06 C07
  helper
  requires isCmd(node)
  case C03 C01 C12 C15: isCalc(node)
  case C03 C04 C09 C12 C15: isDExpr(node)
  case C03 C04 C09 C12 C15: isDComp(node)
  case C03 C05 C12 C15: isBComp(node)
  case C03 C06 C12 C15: isRComp(node)
  case C03 C07 C12 C15: isUComp(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C01 C04 C05 C06 C07: sem(evCmd(node, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C01 C04 C05 C06 C07: err == nil ==> kindCmd(node, r)
  ensures isolated C07: isUComp(node) && err == nil ==> fresh(r)
func "pkg/core/evaluator.(*Evaluator).Eval" (e, node) (r, err)
  props C01 C04 C05 C06 C07 C09 C10
  requires wf: isEv(node)
  case: intE(node)
  case C03 C04 C05 C06 C07 C12 C15: isIntCmp(node)
  case C03 C05 C12 C15: isBRoll(node)
  case C03 C06 C08 C12 C15: isRRoll(node)
  case C03 C05 C12 C15: isBList(node)
  case C03 C06 C08 C12 C15: isRList(node)
  case C03 C07 C08 C12 C15: isUExpr(node)
  case C03 C10 C12 C15: isChoice(node)
  case C03 C01 C12 C15: isCalc(node)
  case C03 C04 C09 C12 C15: isDExpr(node)
  case C03 C04 C09 C12 C15: isDComp(node)
  case C03 C05 C12 C15: isBComp(node)
  case C03 C06 C12 C15: isRComp(node)
  case C03 C07 C12 C15: isUComp(node)
  modifies stream(e.diceRoller.feeder), e.env.rolledDice
  ensures value C01 C04 C05 C06 C07 C08 C09 C10: sem(evTop(node, e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, stream(e.diceRoller.feeder), e.env.rolledDice)
  ensures kind C01 C04 C05 C06 C07 C08 C09 C10: err == nil ==> kindTop(node, r)
  ensures isolated C07: !intE(node) && isUExpr(node) && err == nil ==> fresh(r)
  ensures isolated C07: !intE(node) && isUComp(node) && err == nil ==> fresh(r)
