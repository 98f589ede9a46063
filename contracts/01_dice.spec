// Dice, the manual queue, the random supplier and the dice roller.

// ---- library: decimal text, joining, the pseudo random generator
fn itoa(n Int): String
fn quote(s String): String
fn atoi_ok(s String): Bool
fn atoi_val(s String): int64
fn atoi_err(s String): String
rec join(s Seq[String], sep String): String =
  if len(s) == 0 then "" else if len(s) == 1 then s[0] else s[0] + sep + join(drop(s, 1), sep)

fn intn(r O_math_rand_Rand, n Int): int64
fn rngNext(r O_math_rand_Rand, n Int): O_math_rand_Rand
fn rngSeed(r O_math_rand_Rand, seed Int): O_math_rand_Rand
fn rngNew(src Any): O_math_rand_Rand
fn ext_github_com_seehuhn_mt19937_New_0(): Opt_O_github_com_seehuhn_mt19937_MT19937

// ---- the dice supply as a state machine
fn otherErr(s Stream, sides Int): Bool
fn otherDie(s Stream, sides Int): Die
fn otherSt(s Stream, sides Int): Stream

def drawErr(s Stream, sides Int): Bool =
  switch s { Queue => len(s.queue) == 0; MT19937 => false; else => otherErr(s, sides) }
def drawDie(s Stream, sides Int): Die =
  switch s { Queue => s.queue[0]; MT19937 => struct(dice_Die, 1 + intn(s.rng.(some), sides), sides); else => otherDie(s, sides) }
def drawSt(s Stream, sides Int): Stream =
  switch s {
    Queue => if len(s.queue) == 0 then s else set(s, queue, drop(s.queue, 1));
    MT19937 => set(s, rng, some(rngNext(s.rng.(some), sides)));
    else => otherSt(s, sides) }

nonnil feeder_MT19937.rng
nonnil roller_DiceRoller.feeder

// ---- rolling num dice with sides faces
datatype Roll = RollOK(dice Seq[Die], st Stream) | RollErr(st Stream)
def goodDie(d Die, sides Int): Bool = d.Sides == sides && 1 <= d.Value && d.Value <= sides
def pre(p Seq[Die], r Roll): Roll = switch r { RollOK => RollOK(p + r.dice, r.st); RollErr => r }
rec rollD(num Int, sides Int, s Stream): Roll =
  if num <= 0 then RollOK([], s)
  else if drawErr(s, sides) then RollErr(drawSt(s, sides))
  else if !goodDie(drawDie(s, sides), sides) then RollErr(drawSt(s, sides))
  else pre([drawDie(s, sides)], rollD(num - 1, sides, drawSt(s, sides)))

// a roll that was asked for and is not malformed
def rolls(num Int, sides Int, s Stream): Roll =
  if num < 1 || sides < 1 then RollErr(s) else rollD(num, sides, s)
def rollSt(r Roll): Stream = switch r { RollOK => r.st; RollErr => r.st }

// ---- contracts
iface "pkg/core/dice/feeder.DieFeeder.Next" (f, sides) (d, err)
  requires sidesPositive: sides >= 1
  modifies stream(f)
  ensures err: (err != nil) <==> drawErr(old(stream(f)), sides)
  ensures die: err == nil ==> d == drawDie(old(stream(f)), sides)
  ensures st: stream(f) == drawSt(old(stream(f)), sides)

func "pkg/core/dice/feeder.(*Queue).Next" (f, sides) (d, err)
  props C16 C15
  refines "pkg/core/dice/feeder.DieFeeder.Next"
  modifies f.queue
  ensures emptyIsError C16: (err != nil) <==> len(old(f.queue)) == 0
  ensures emptyStays C16: len(old(f.queue)) == 0 ==> f.queue == old(f.queue)
  ensures first C16: len(old(f.queue)) > 0 ==> d == old(f.queue)[0]
  ensures rest C16: len(old(f.queue)) > 0 ==> f.queue == drop(old(f.queue), 1)

func "pkg/core/dice/feeder.(*MT19937).Next" (f, sides) (d, err)
  props C17 C15
  refines "pkg/core/dice/feeder.DieFeeder.Next"
  requires sides >= 1
  modifies f.rng.(some)
  ensures noErr C17: err == nil
  ensures sides C17: d.Sides == sides
  ensures range C17: 1 <= d.Value && d.Value <= sides
  ensures oneChoice C17: d.Value == 1 + intn(old(f.rng.(some)), sides)
  ensures next C17: f.rng.(some) == rngNext(old(f.rng.(some)), sides)

func "pkg/core/dice/feeder.NewMT19937" (seed) (r)
  props C17
  ensures isolated C17: r != nil && fresh(r)
  ensures seeded C17: stream(r) == Stream_MT19937(struct(feeder_MT19937, seed, some(rngSeed(rngNew(box(_mt19937_MT19937, ext_github_com_seehuhn_mt19937_New_0())), seed))))

func "pkg/core/dice/feeder.(*Queue).Dice" (f) (r)
  props C16
  ensures copy C16: r == f.queue
  ensures isolated C16: fresh(r)

func "pkg/core/dice/feeder.(*Queue).Set" (f, d)
  props C16
  modifies f.queue
  ensures content C16: f.queue == d
  ensures isolated C16: owned(f.queue)

func "pkg/core/dice/feeder.(*Queue).Push" (f, d)
  props C16
  modifies f.queue
  ensures append C16: f.queue == old(f.queue) + [d]
  ensures isolated C16: owned(f.queue)

func "pkg/core/dice/feeder.(*Queue).Append" (f, dice)
  props C16
  modifies f.queue
  ensures append C16: f.queue == old(f.queue) + dice
  ensures isolated C16: owned(f.queue)
  loop 1 invariant pref C16: f.queue + drop(dice, $n) == old(f.queue) + dice

func "pkg/core/dice/feeder.(*Queue).Clear" (f)
  props C16
  modifies f.queue
  ensures empty C16: len(f.queue) == 0

func "pkg/core/dice/feeder.(*Queue).Remaining" (f) (r)
  props C16
  ensures n C16: r == len(f.queue)

func "pkg/core/dice/feeder.(*Queue).IsEmpty" (f) (r)
  props C16
  ensures e C16: r <==> len(f.queue) == 0

func "pkg/core/dice/feeder.NewQueue" (d) (r)
  props C16
  ensures content C16: r != nil && stream(r) is Queue && r.queue == d
  ensures isolated C16: fresh(r)
func "pkg/core/dice/feeder.NewEmptyQueue" () (r)
  props C16 C20
  ensures empty C16 C20: r != nil && stream(r) is Queue && len(r.queue) == 0
  ensures isolated C16 C20: fresh(r)

func "pkg/core/dice/roller.(*DiceRoller).RollDice" (dr, num, sides) (r, err)
  props C02 C15
  modifies stream(dr.feeder)
  ensures ok C02: (err == nil) <==> rolls(num, sides, old(stream(dr.feeder))) is RollOK
  ensures dice C02: err == nil ==> r == rolls(num, sides, old(stream(dr.feeder))).dice
  ensures none C02: err != nil ==> len(r) == 0
  ensures taken C02: stream(dr.feeder) == rollSt(rolls(num, sides, old(stream(dr.feeder))))
  loop 1 invariant rest C02: rollD(num, sides, old(stream(dr.feeder))) == pre(rolledDice, rollD(num - len(rolledDice), sides, stream(dr.feeder)))
  loop 1 invariant count C02: len(rolledDice) == $n
