// The interactive shell: one dice source, a queue left as it was.

iface "pkg/core/dice/feeder.DieFeeder.CanSpecifyDie" (f) (r)
  ensures queue: r == (stream(f) is Queue)
func "pkg/core/dice/feeder.(*Queue).CanSpecifyDie" (f) (r)
  props C20
  refines "pkg/core/dice/feeder.DieFeeder.CanSpecifyDie"
  ensures yes C20: r
func "pkg/core/dice/feeder.(*MT19937).CanSpecifyDie" (f) (r)
  props C20
  refines "pkg/core/dice/feeder.DieFeeder.CanSpecifyDie"
  ensures no C20: !r

def oneSource(r repl_REPL): Bool = r.dieFeeder != nil && r.diceRoller is some && r.bcDice is some && r.bcDice.diceRoller is some && r.bcDice.dieFeeder == r.dieFeeder && r.diceRoller.feeder == r.dieFeeder && r.bcDice.diceRoller.feeder == r.dieFeeder
def playable(r repl_REPL): Bool = oneSource(r) && (r.bcDice.DiceBot is Basic || r.bcDice.DiceBot is DiceBotImpl)
def manual(s Stream): Bool = s is Queue
def afterUse(s Stream, now Stream): Bool = manual(s) ==> now == s

func "cmd/GoBCDiceREPL/repl.setDieFeeder" (r, c, input) ()
  props C20
  requires one: oneSource(r.(some))
  modifies r.dieFeeder, r.diceRoller, r.bcDice.dieFeeder, r.bcDice.diceRoller
  ensures one C20: oneSource(r.(some))
  ensures queue C20: toLower(input) == "queue" ==> stream(r.dieFeeder) is Queue && len(stream(r.dieFeeder).(Queue).queue) == 0
  ensures mt C20: toLower(input) == "mt" ==> stream(r.dieFeeder) is MT19937
  ensures other C20: toLower(input) != "mt" && toLower(input) != "queue" ==> r.dieFeeder == old(r.dieFeeder)
func "cmd/GoBCDiceREPL/repl.setDiceQueue" (r, c, input) ()
  props C20
  requires one: oneSource(r.(some))
  modifies stream(r.dieFeeder)
  ensures replaced C20: manual(old(stream(r.dieFeeder))) && readDice(input) is Read ==> stream(r.dieFeeder) == Stream_Queue(struct(feeder_Queue, readDice(input).ds))
  ensures kept C20: !(manual(old(stream(r.dieFeeder))) && formDice(input) is Read) ==> stream(r.dieFeeder) == old(stream(r.dieFeeder))
  ensures either C20: stream(r.dieFeeder) == old(stream(r.dieFeeder)) || stream(r.dieFeeder) == Stream_Queue(struct(feeder_Queue, formDice(input).ds))
func "cmd/GoBCDiceREPL/repl.eval" (r, c, input) ()
  props C20
  requires one: playable(r.(some))
  modifies stream(r.dieFeeder)
  opaque runCmd
  ensures restored C20: afterUse(old(stream(r.dieFeeder)), stream(r.dieFeeder))
func "cmd/GoBCDiceREPL/repl.rollDice" (r, c, input) ()
  props C20
  requires one: playable(r.(some))
  modifies stream(r.dieFeeder)
  ensures restored C20: afterUse(old(stream(r.dieFeeder)), stream(r.dieFeeder))
func "cmd/GoBCDiceREPL/repl.setGame" (r, c, input) ()
  props C20
  requires one: playable(r.(some))
  modifies r.bcDice.DiceBot
  ensures one C20: playable(r.(some))
func "cmd/GoBCDiceREPL/repl.New" (in, out) (r)
  props C20
  ensures ready C20: r is some && playable(r.(some))
  ensures mt C20: stream(r.dieFeeder) is MT19937
fn toLower(s String): String
func "cmd/GoBCDiceREPL/repl.listGames" (r, c, input) ()
  props C20
  ensures kept C20: true
func "cmd/GoBCDiceREPL/repl.printHelp" (r, c, input) ()
  props C20
  ensures kept C20: true
func "cmd/GoBCDiceREPL/repl.terminateREPL" (r, c, input) ()
  props C20
  modifies r.terminated
  ensures stop C20: r.terminated
