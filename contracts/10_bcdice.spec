// The dice engine: the secret marker, the dice bot in use, the fallback to the
// first part of the text, and the catalogue of game systems.

fn runes(s String): Seq[Int]
fn byteat(s String, i Int): Int
fn afterFirst(s String): String
fn firstPart(s String): String
fn parseN(text String): Node
fn parseOK(text String): Bool
fn parseErr(text String): String

def secretMark(s String): Bool = len(s) > 0 && (byteat(s, 0) == 83 || byteat(s, 0) == 115)
def unmarked(s String): String = if secretMark(s) then afterFirst(s) else s
func "pkg/core/util.CheckIfInputMayBeASecretRoll" (input) (rest, secret)
  props C14
  ensures mark C14: secret == secretMark(input)
  ensures rest C14: rest == unmarked(input)

// running a text: what it is, when it is a command
datatype Run = RunOK(r Res) | RunFail(st Stream, parsed Bool)
def gid(b Bot): String = switch b { Basic => b.DiceBotImpl.BasicInfo.(some).GameID; DiceBotImpl => b.BasicInfo.(some).GameID }
def basicRun(text String, st Stream): Res = if parseOK(text) then runCmd(parseN(text), 10000, st, []) else ResFail(st, [])
def resSt(r Res): Stream = switch r { ResOK => r.st; ResFail => r.st }
def okRes(r Res): Bool = r is ResOK
def fullRun(text String, st Stream): Res =
  let a = basicRun(unmarked(text), st) in
  if okRes(a) then a else basicRun(firstPart(unmarked(text)), resSt(a))
def shows(x Res, failed Bool, r Opt_command_Result, gameID String, secret Bool, st Stream): Bool = switch x {
  ResFail => failed && st == x.st;
  ResOK => !failed && r is some && st == x.st && r.GameID == gameID && r.MessageParts == x.parts && r.RolledDice == x.dice && r.SuccessCheckResult == x.sc && r.IsSecret == secret }

nonnil dicebot_DiceBotImpl.BasicInfo

func "pkg/bcdice.(*BCDice).ExecuteDiceBotCommand" (b, c) (r, err)
  props C14
  requires ready: b.diceRoller is some && (b.DiceBot is Basic || b.DiceBot is DiceBotImpl)
  modifies stream(b.diceRoller.feeder)
  ensures none C14: err != nil
  ensures unused C14: stream(b.diceRoller.feeder) == old(stream(b.diceRoller.feeder))
func "pkg/bcdice.(*BCDice).ExecuteBasicCommand" (b, c) (r, err)
  props C14
  requires ready: b.diceRoller is some && (b.DiceBot is Basic || b.DiceBot is DiceBotImpl)
  modifies stream(b.diceRoller.feeder)
  opaque runCmd
  ensures isolated C14: err == nil ==> fresh(r)
  ensures result C14: shows(basicRun(c, old(stream(b.diceRoller.feeder))), err != nil, r, gid(b.DiceBot), false, stream(b.diceRoller.feeder))
  ensures notCommand C14: !parseOK(c) ==> err != nil && err.msg == parseErr(c)
func "pkg/bcdice.(*BCDice).ExecuteCommand" (b, input) (r, err)
  props C14
  requires ready: b.diceRoller is some && (b.DiceBot is Basic || b.DiceBot is DiceBotImpl)
  modifies stream(b.diceRoller.feeder)
  opaque runCmd
  ensures isolated C14: err == nil ==> fresh(r)
  ensures result C14: shows(fullRun(input, old(stream(b.diceRoller.feeder))), err != nil, r, gid(b.DiceBot), secretMark(input), stream(b.diceRoller.feeder))
  ensures lastError C14: !parseOK(unmarked(input)) && !parseOK(firstPart(unmarked(input))) ==> err != nil && err.msg == parseErr(firstPart(unmarked(input)))

// the catalogue
func "pkg/dicebot/gamesystem/basic.New" () (r)
  props C18
  inline
  ensures id C18: gid(r) == "DiceBot"
func "pkg/dicebot.(*DiceBotImpl).GameID" (d) (id)
  props C18
  ensures id C18: id == d.BasicInfo.(some).GameID
func "pkg/dicebot/list.Find" (gameID) (c, err)
  props C18
  inline
  ensures known C18: (err == nil) <==> gameID == "DiceBot"
func "pkg/dicebot/list.AvailableGameIDs" (includeBasicDiceBot) (ids)
  props C18
  ensures ids C18: ids == (if includeBasicDiceBot then ["DiceBot"] else [])
func "pkg/bcdice.(*BCDice).SetDiceBotByGameID" (b, gameID) (err)
  props C18
  modifies b.DiceBot
  ensures known C18: (err == nil) <==> gameID == "DiceBot"
  ensures selected C18: err == nil ==> b.DiceBot is Basic && gid(b.DiceBot) == gameID
  ensures unchanged C18: err != nil ==> b.DiceBot == old(b.DiceBot)
func "pkg/dicebot/list.AvailableGameInfos" (includeBasicDiceBot) (r)
  props C18
  ensures infos C18: if includeBasicDiceBot then len(r.Name) == 1 && r.Name[0].System == "DiceBot" else len(r.Name) == 0
func "pkg/bcdice.(*BCDice).SetDieFeeder" (b, f) ()
  props C20
  modifies b.dieFeeder, b.diceRoller
  ensures both C20: b.diceRoller is some && b.dieFeeder == f && b.diceRoller.feeder == f
func "pkg/bcdice.(*BCDice).DieFeeder" (b) (f)
  props C20
  ensures current C20: f == b.dieFeeder
func "pkg/bcdice.New" (f) (b)
  props C20 C18
  ensures both C20: b is some && b.diceRoller is some && b.dieFeeder == f && b.diceRoller.feeder == f
  ensures basic C18: b.DiceBot is Basic && gid(b.DiceBot) == "DiceBot"
  ensures isolated C20: fresh(b)
