// Commands: the parts of the message, the dice attached and the verdict.

datatype Res = ResOK(parts Seq[String], dice Seq[Die], sc Int, st Stream, ds Seq[Die]) | ResFail(st Stream, ds Seq[Die])
def noVerdict(): Int = command_SUCCESS_CHECK_UNSPECIFIED
def verdict(b Bool): Int = if b then command_SUCCESS_CHECK_SUCCESS else command_SUCCESS_CHECK_FAILURE
def verdictText(b Bool): String = if b then "成功" else "失敗"

// the value lists
def listed(xs Seq[Obj]): String = join(inspAll(xs), ",")
rec groupStrs(gs Seq[Obj]): Seq[String] = if len(gs) == 0 then [] else [listed(elems(gs[0]))] + groupStrs(drop(gs, 1))
def groupsText(gs Seq[Obj]): String = join(groupStrs(gs), " + ")
def uGroup(g Obj): String = itoa(sumGroup(g)) + (if len(elems(g)) > 1 then inspTight1(g) else "")
rec uGroupStrs(gs Seq[Obj]): Seq[String] = if len(gs) == 0 then [] else [uGroup(gs[0])] + uGroupStrs(drop(gs, 1))
def modText(m Int): String = if m == 0 then "" else if m > 0 then "+" + itoa(m) else itoa(m)
def uText(gs Seq[Obj], m Int): String = join(uGroupStrs(gs), ",") + modText(m)
def firstMax(g Seq[Obj]): Int = if len(g) == 0 then 0 else maxO(drop(g, 1), valOf(g[0]))
def uMax(gs Seq[Obj], m Int): Int = wrap64(firstMax(sumsO(gs)) + m)
def uTotal(gs Seq[Obj], m Int): Int = wrap64(wrap64(sumO(sumsO(gs))) + m)

theorem intsHoldNoNil C12 (xs Seq[Obj]) trigger okAll(xs) decreases len(xs) at (drop(xs, 1)): all(isInt, xs) ==> okAll(xs)
theorem groupsHoldNoNil C12 (gs Seq[Obj]) trigger okAll(gs) decreases len(gs) at (drop(gs, 1)): all(isIntArr, gs) ==> okAll(gs)

def calcR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let t = evalS(n.(Command).Expression, mr, st, ds) in switch t {
    Fail => ResFail(t.st, t.ds);
    OK => ResOK([shown(n, true), "計算結果", insp(t.o)], [], noVerdict(), t.st, t.ds) }
def dExprR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaTop(n, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let b = dvTop(a.n, a.st, a.ds) in switch b {
      NFail => ResFail(b.st, b.ds);
      NOK => let t = evalS(b.n.(Command).Expression, mr, b.st, b.ds) in switch t {
        Fail => ResFail(t.st, t.ds);
        OK => ResOK([paren(shown(a.n, true)), shown(b.n, true), insp(t.o)], t.ds, noVerdict(), t.st, t.ds) } } }
def dCompR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaTop(n.(Command).Expression, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let b = dvTop(a.n, a.st, a.ds) in switch b {
      NFail => ResFail(b.st, b.ds);
      NOK => let t = evalS(leftB(b.n), mr, b.st, b.ds) in switch t {
        Fail => ResFail(t.st, t.ds);
        OK => let u = evalS(rightB(b.n), mr, t.st, t.ds) in switch u {
          Fail => ResFail(u.st, u.ds);
          OK => let v = cmp(opOf(b.n), valOf(t.o), valOf(u.o)) in
            ResOK([paren(shown(a.n, true)), shown(leftB(b.n), true), insp(t.o), verdictText(v)], u.ds, verdict(v), u.st, u.ds) } } } }
def bListR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaBL(n, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let t = evalB(a.n.(BRollList).BRolls, mr, a.st, a.ds, []) in switch t {
      Fail => ResFail(t.st, t.ds);
      OK => ResOK([paren(shown(a.n, true)), listed(elems(t.o))], t.ds, noVerdict(), t.st, t.ds) } }
def hits(o Obj): String = "成功数" + insp(o)
def bCompR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaTop(n.(Command).Expression, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let t = bCompS(a.n, mr, a.st, a.ds) in switch t {
      Fail => ResFail(t.st, t.ds);
      OK => ResOK([paren(shown(a.n, true)), listed(elems(t.o.(BRollCompResult).Values)), hits(t.o.(BRollCompResult).NumOfSuccesses)], t.ds, noVerdict(), t.st, t.ds) } }
def low(thr Node): Bool = thr == nilN() || valN(thr) < 2
def lowMsg(thr Node, missing String): String = if thr == nilN() then missing else msgLow()
def rListR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaRL(n, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let l = a.n.(RRollList) in
      if low(l.Threshold) then ResOK([paren(shown(a.n, true)), lowMsg(l.Threshold, msgR())], [], noVerdict(), a.st, a.ds)
      else let t = evalR(l.RRolls, l.Threshold, mr, a.st, a.ds) in switch t {
        Fail => ResFail(t.st, t.ds);
        OK => ResOK([paren(shown(a.n, true)), groupsText(elems(t.o))], t.ds, noVerdict(), t.st, t.ds) } }
def rCompR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaTop(n.(Command).Expression, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let s = setThr(commandN(ast_R_ROLL_COMP_NODE, a.n), mr, a.st, a.ds) in switch s {
      NFail => ResFail(s.st, s.ds);
      NOK => let x = s.n.(Command).Expression in let thr = leftB(x).(RRollList).Threshold in
        if low(thr) then ResOK([paren(shown(s.n, true)), lowMsg(thr, msgR())], [], noVerdict(), s.st, s.ds)
        else let t = rCompS(x, mr, s.st, s.ds) in switch t {
          Fail => ResFail(t.st, t.ds);
          OK => ResOK([paren(shown(s.n, true)), groupsText(elems(t.o.(RRollCompResult).ValueGroups)), hits(t.o.(RRollCompResult).NumOfSuccesses)], t.ds, noVerdict(), t.st, t.ds) } } }
def uExprR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaUX(n, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let u = a.n.(URollExpr) in let thr = u.URollList.(RRollList).Threshold in
      if low(thr) then ResOK([paren(shown(a.n, true)), lowMsg(thr, msgU())], [], noVerdict(), a.st, a.ds)
      else let t = evalUx(u.URollList.(RRollList).RRolls, thr, u.Bonus, mr, a.st, a.ds) in switch t {
        Fail => ResFail(t.st, t.ds);
        OK => ResOK([paren(shown(a.n, true)), uText(uGroups(t.o), uMod(t.o)), itoa(uMax(uGroups(t.o), uMod(t.o))) + "/" + itoa(uTotal(uGroups(t.o), uMod(t.o))) + " (最大/合計)"], t.ds, noVerdict(), t.st, t.ds) } }
def uCompR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let a = vaTop(n.(Command).Expression, mr, st, ds) in switch a {
    NFail => ResFail(a.st, a.ds);
    NOK => let thr = leftB(a.n).(URollExpr).URollList.(RRollList).Threshold in
      if low(thr) then ResOK([paren(shown(a.n, true)), lowMsg(thr, msgU())], [], noVerdict(), a.st, a.ds)
      else let t = uCompS(a.n, mr, a.st, a.ds) in switch t {
        Fail => ResFail(t.st, t.ds);
        OK => let u = t.o.(URollCompResult).RollResult in
          ResOK([paren(shown(a.n, true)), uText(uGroups(u), uMod(u)), hits(t.o.(URollCompResult).NumOfSuccesses)], t.ds, noVerdict(), t.st, t.ds) } }
def choiceR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  let t = choiceS(n.(Choice).Items, st, ds) in switch t {
    Fail => ResFail(t.st, t.ds);
    OK => ResOK([paren(shown(n, true)), t.o.(String).Value], t.ds, noVerdict(), t.st, t.ds) }
def cmdR(n Node, mr Int, st Stream, ds Seq[Die]): Res =
  if isCalc(n) then calcR(n, mr, st, ds)
  else if isDExpr(n) then dExprR(n, mr, st, ds)
  else if isDComp(n) then dCompR(n, mr, st, ds)
  else if isBComp(n) then bCompR(n, mr, st, ds)
  else if isRComp(n) then rCompR(n, mr, st, ds)
  else if isUComp(n) then uCompR(n, mr, st, ds)
  else if isBList(n) then bListR(n, mr, st, ds)
  else if isRList(n) then rListR(n, mr, st, ds)
  else if isUExpr(n) then uExprR(n, mr, st, ds)
  else choiceR(n, mr, st, ds)

def rsem(x Res, failed Bool, r Opt_command_Result, gameID String, st Stream, ds Seq[Die]): Bool = switch x {
  ResFail => failed && st == x.st && ds == x.ds;
  ResOK => !failed && r is some && st == x.st && ds == x.ds && r.GameID == gameID && r.MessageParts == x.parts && r.RolledDice == x.dice && r.SuccessCheckResult == x.sc && !r.IsSecret }
func "pkg/core/command.formatRRollValues" (gs) (r)
  props C12 C06
  helper
  requires isGroups(gs)
  ensures text C12 C06: r == groupsText(gs.Elements)
  loop 1 invariant rest C12 C06: valueGroupStrs + groupStrs(drop(gs.Elements, $n)) == groupStrs(gs.Elements)
func "pkg/core/command.formatURollExprValueGroupsAndModifier" (u) (r)
  props C12 C07
  helper
  requires isGroups(u.valueGroups) && u.modifier is Integer
  requires cache: u.sumOfGroups == nil || u.sumOfGroups == arrO(sumsO(u.valueGroups.(Array).Elements))
  modifies u.sumOfGroups
  ensures text C12 C07: r == uText(elems(u.valueGroups), valOf(u.modifier))
  ensures cached C12 C07: u.sumOfGroups == arrO(sumsO(u.valueGroups.(Array).Elements))
  loop 1 invariant rest C12 C07: formattedValueGroups + uGroupStrs(drop(u.valueGroups.Elements, $n)) == uGroupStrs(u.valueGroups.Elements)
  loop 1 invariant sums C12 C07: drop(sumsO(u.valueGroups.Elements), $n) == sumsO(drop(u.valueGroups.Elements, $n))
func "pkg/core/command.executeCalc" (node, gameID, e) (r, err)
  props C12 C03 C01
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isCalc(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C01: rsem(calcR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeDRollExpr" (node, gameID, e) (r, err)
  props C12 C03 C04
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isDExpr(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C04: rsem(dExprR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeDRollComp" (node, gameID, e) (r, err)
  props C12 C03 C04
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isDComp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C04: rsem(dCompR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeBRollList" (node, gameID, e) (r, err)
  props C12 C03 C05
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isBList(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C05: rsem(bListR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeBRollComp" (node, gameID, e) (r, err)
  props C12 C03 C05
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isBComp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C05: rsem(bCompR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeRRollList" (node, gameID, e) (r, err)
  props C12 C03 C06 C08
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isRList(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C06 C08: rsem(rListR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeRRollComp" (node, gameID, e) (r, err)
  props C12 C03 C06 C08
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isRComp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C06 C08: rsem(rCompR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeURollExpr" (node, gameID, e) (r, err)
  props C12 C03 C07 C08
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList vaUX dvE shown shownList
  requires isUExpr(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C07 C08: rsem(uExprR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeURollComp" (node, gameID, e) (r, err)
  props C12 C03 C07 C08
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList vaUX dvE shown shownList
  requires isUComp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C07 C08: rsem(uCompR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeChoice" (node, gameID, e) (r, err)
  props C12 C03 C10
  helper
  opaque evalS operands arithE uDie uDice uTerms rerolls evalB vaE vaList dvE shown shownList
  requires isChoice(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C10: rsem(choiceR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
func "pkg/core/command.executeCommand" (node, gameID, e) (r, err)
  props C12 C03 C01 C04 C05 C06 C07 C08
  helper
  requires isTop(node)
  case C12 C03 C01 C15: isCalc(node)
  case C12 C03 C04 C09 C15: isDExpr(node)
  case C12 C03 C04 C15: isDComp(node)
  case C12 C03 C05 C15: isBComp(node)
  case C12 C03 C06 C08 C15: isRComp(node)
  case C12 C03 C07 C08 C15: isUComp(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C01 C04 C05 C06 C07 C08: rsem(cmdR(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)
// the same, as a name of its own for the callers
rec runCmd(n Node, mr Int, st Stream, ds Seq[Die]): Res = cmdR(n, mr, st, ds)
func "pkg/core/command.Execute" (node, gameID, e) (r, err)
  props C12 C03 C01 C04 C05 C06 C07 C08 C09 C10
  requires wf: isTop(node)
  case C12 C03 C01 C15: isCalc(node)
  case C12 C03 C04 C09 C15: isDExpr(node)
  case C12 C03 C04 C15: isDComp(node)
  case C12 C03 C05 C15: isBComp(node)
  case C12 C03 C06 C08 C15: isRComp(node)
  case C12 C03 C07 C08 C15: isUComp(node)
  case C12 C03 C05 C15: isBList(node)
  case C12 C03 C06 C08 C15: isRList(node)
  case C12 C03 C07 C08 C15: isUExpr(node)
  case C12 C03 C10 C15: isChoice(node)
  modifies node, stream(e.diceRoller.feeder), e.env.rolledDice
  ensures isolated C12: err == nil ==> fresh(r)
  ensures result C12 C03 C01 C04 C05 C06 C07 C08 C09 C10: rsem(runCmd(old(node), e.MaxRerolls, old(stream(e.diceRoller.feeder)), old(e.env.rolledDice)), err != nil, r, gameID, stream(e.diceRoller.feeder), e.env.rolledDice)

// the message
func "pkg/core/command.(*Result).JoinedMessageParts" (r) (s)
  props C12
  ensures joined C12: s == join(r.MessageParts, " ＞ ")
func "pkg/core/command.(*Result).Message" (r) (s)
  props C12
  ensures message C12: s == r.GameID + " : " + join(r.MessageParts, " ＞ ")
func "pkg/core/command.(*Result).AppendMessagePart" (r, message) ()
  props C12
  helper
  modifies r.MessageParts
  ensures appended C12: r.MessageParts == old(r.MessageParts) + [message]
