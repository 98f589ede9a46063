// Dice lists written as text.

// ---- library: splitting at a separator, the shape of one die (the regular
// expression: white space, digits, slash, digits, white space), decimal numbers
fn ext_strings_Split_0(s String, sep String): Seq[String]
fn dieForm(s String): Bool
fn dieV(s String): String
fn dieS(s String): String
fn noComma(s String): Bool
rec plain(xs Seq[String]): Bool = if len(xs) == 0 then true else noComma(xs[0]) && plain(drop(xs, 1))
def numeral(d Die): Bool = d.Value >= 0 && d.Sides >= 0
axiom atoiItoa (n Int) trigger itoa(n): -9223372036854775808 <= n && n <= 9223372036854775807 ==> atoi_ok(itoa(n)) && atoi_val(itoa(n)) == n
axiom splitJoin (xs Seq[String]) trigger ext_strings_Split_0(join(xs, ","), ","): len(xs) > 0 && plain(xs) ==> ext_strings_Split_0(join(xs, ","), ",") == xs
def one(d Die): String = itoa(d.Value) + "/" + itoa(d.Sides)
def reads(s String, d Die): Bool = noComma(s) && dieForm(s) && dieV(s) == itoa(d.Value) && dieS(s) == itoa(d.Sides)
axiom dieText (d Die) trigger itoa(d.Value): numeral(d) ==> reads(one(d), d) && reads(" " + one(d), d)

// ---- writing
rec pairs(ds Seq[Die]): Seq[String] = if len(ds) == 0 then [] else [one(ds[0])] + pairs(drop(ds, 1))
rec spaced(xs Seq[String]): Seq[String] = if len(xs) == 0 then [] else [" " + xs[0]] + spaced(drop(xs, 1))
func "pkg/core/dice.FormatDice" (dice) (r)
  props C21
  ensures text C21: r == join(pairs(dice), ", ")
  loop 1 invariant rest C21: dieStrs + pairs(drop(dice, $n)) == pairs(dice)
func "pkg/core/dice.FormatDiceWithoutSpaces" (dice) (r)
  props C21
  ensures text C21: r == join(pairs(dice), ",")
  loop 1 invariant rest C21: dieStrs + pairs(drop(dice, $n)) == pairs(dice)

// ---- reading
datatype Reading = Read(ds Seq[Die]) | Unreadable
def isDie(s String): Bool = dieForm(s) && atoi_ok(dieV(s)) && atoi_ok(dieS(s))
def dieOf(s String): Die = struct(dice_Die, atoi_val(dieV(s)), atoi_val(dieS(s)))
def ahead(p Seq[Die], r Reading): Reading = switch r { Unreadable => r; Read => Read(p + r.ds) }
rec readAll(fs Seq[String]): Reading =
  if len(fs) == 0 then Read([]) else if !isDie(fs[0]) then Unreadable else ahead([dieOf(fs[0])], readAll(drop(fs, 1)))
// the same with any number of digits: the recorded finding is that numbers that
// do not fit are accepted (as whatever strconv.Atoi gives next to its error)
rec readForm(fs Seq[String]): Reading =
  if len(fs) == 0 then Read([]) else if !dieForm(fs[0]) then Unreadable else ahead([dieOf(fs[0])], readForm(drop(fs, 1)))
theorem formRead C21 (fs Seq[String]) trigger readAll(fs) decreases len(fs) at (drop(fs, 1)): readAll(fs) is Read ==> readForm(fs) == readAll(fs)
def formDice(s String): Reading = if s == "" then Read([]) else readForm(ext_strings_Split_0(s, ","))
def readDice(s String): Reading = if s == "" then Read([]) else readAll(ext_strings_Split_0(s, ","))
func "pkg/dicebot/testing.ParseDice" (source) (r, err)
  props C21
  ensures accepted C21: readDice(source) is Read ==> err == nil
  ensures exact C21: readDice(source) is Read && err == nil ==> r == readDice(source).ds
  ensures form C21: err == nil ==> formDice(source) is Read && r == formDice(source).ds
  ensures isolated C21: err == nil ==> fresh(r)
  loop 1 invariant rest C21: ahead(rolledDice, readForm(drop(diceStrs, $n))) == readForm(diceStrs)
  loop 1 invariant fits C21: readAll(diceStrs) is Read ==> ahead(rolledDice, readAll(drop(diceStrs, $n))) == readAll(diceStrs)

// ---- what is written is read back
theorem tightBack C21 (ds Seq[Die]) trigger readAll(pairs(ds)) decreases len(ds) at (drop(ds, 1)): all(numeral, ds) ==> readAll(pairs(ds)) == Read(ds)
theorem spacedBack C21 (ds Seq[Die]) trigger readAll(spaced(pairs(ds))) decreases len(ds) at (drop(ds, 1)): all(numeral, ds) ==> readAll(spaced(pairs(ds))) == Read(ds)
theorem plainPairs C21 (ds Seq[Die]) trigger pairs(ds) decreases len(ds) at (drop(ds, 1)): all(numeral, ds) ==> plain(pairs(ds))
theorem plainSpaced C21 (ds Seq[Die]) trigger spaced(pairs(ds)) decreases len(ds) at (drop(ds, 1)): all(numeral, ds) ==> plain(spaced(pairs(ds)))
theorem spaceJoin C21 (xs Seq[String]) trigger join(xs, ", ") decreases len(xs) at (drop(xs, 1)): len(xs) > 0 ==> " " + join(xs, ", ") == join(spaced(xs), ",")
def mixed(ds Seq[Die]): Seq[String] = if len(ds) == 0 then [] else [one(ds[0])] + spaced(pairs(drop(ds, 1)))
theorem mixedJoin C21 (ds Seq[Die]) trigger mixed(ds): join(pairs(ds), ", ") == join(mixed(ds), ",") && (len(ds) > 1 ==> " " + join(pairs(drop(ds, 1)), ", ") == join(spaced(pairs(drop(ds, 1))), ","))
theorem mixedBack C21 (ds Seq[Die]) trigger mixed(ds): all(numeral, ds) ==> plain(mixed(ds)) && (len(ds) > 0 ==> plain(spaced(pairs(drop(ds, 1)))) && readAll(spaced(pairs(drop(ds, 1)))) == Read(drop(ds, 1))) && readAll(mixed(ds)) == Read(ds)
theorem tightRead C21 (ds Seq[Die]) trigger readDice(join(pairs(ds), ",")): all(numeral, ds) ==> readAll(pairs(ds)) == Read(ds) && readDice(join(pairs(ds), ",")) == Read(ds)
theorem spacedRead C21 (ds Seq[Die]) trigger readDice(join(pairs(ds), ", ")): all(numeral, ds) ==> readAll(mixed(ds)) == Read(ds) && readDice(join(mixed(ds), ",")) == Read(ds) && readDice(join(pairs(ds), ", ")) == Read(ds)
