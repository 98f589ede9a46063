// Result objects.

def intO(v Int): Obj = Obj_Integer(struct(object_Integer, v))
def boolO(b Bool): Obj = Obj_Boolean(struct(object_Boolean, b))
def strO(s String): Obj = Obj_String(struct(object_String, s))
def arrO(xs Seq[Obj]): Obj = Obj_Array(struct(object_Array, xs))
def isInt(o Obj): Bool = o is Integer
def isIntArr(o Obj): Bool = switch o { Array => all(isInt, o.Elements); else => false }
def valOf(o Obj): Int = switch o { Integer => o.Value; else => 0 }

// sums and maxima
rec sumO(xs Seq[Obj]): Int = if len(xs) == 0 then 0 else valOf(xs[0]) + sumO(drop(xs, 1))
rec sumD(ds Seq[Die]): Int = if len(ds) == 0 then 0 else ds[0].Value + sumD(drop(ds, 1))
def max2(a Int, b Int): Int = if b > a then b else a
rec maxO(xs Seq[Obj], m Int): Int = if len(xs) == 0 then m else maxO(drop(xs, 1), max2(m, valOf(xs[0])))
// the values of the dice, in order
rec intsOf(ds Seq[Die]): Seq[Obj] = if len(ds) == 0 then [] else [intO(ds[0].Value)] + intsOf(drop(ds, 1))
// one sum per group
def sumGroup(o Obj): Int = switch o { Array => wrap64(sumO(o.Elements)); else => 0 }
rec sumsO(gs Seq[Obj]): Seq[Obj] = if len(gs) == 0 then [] else [intO(sumGroup(gs[0]))] + sumsO(drop(gs, 1))
rec addAll(xs Seq[Obj], m Int): Seq[Obj] = if len(xs) == 0 then [] else [intO(wrap64(valOf(xs[0]) + m))] + addAll(drop(xs, 1), m)

theorem sumsAreInts C07 (gs Seq[Obj]) trigger sumsO(gs) decreases len(gs) at (drop(gs, 1)): all(isInt, sumsO(gs))

// ---- text
iface "pkg/core/object.Object.Inspect" (o) (r)
  requires okO(o)
  ensures text: r == insp(o)
rec insp(o Obj): String = switch o {
  Integer => itoa(o.Value);
  Boolean => if o.Value then "true" else "false";
  String => quote(o.Value);
  Array => "[" + join(inspAll(o.Elements), ", ") + "]";
  BRollCompResult => "<BRollCompResult Values=" + insp(o.Values) + ", NumOfSuccesses=" + insp(o.NumOfSuccesses) + ">";
  RRollCompResult => "<RRollCompResult ValueGroups=" + insp(o.ValueGroups) + ", NumOfSuccesses=" + insp(o.NumOfSuccesses) + ">";
  URollExprResult => "<URollExprResult ValueGroups=" + insp(o.valueGroups) + ", Modifier=" + insp(o.modifier) + ">";
  URollCompResult => "<URollCompResult RollResult=" + insp(o.RollResult) + ", NumOfSuccesses=" + insp(o.NumOfSuccesses) + ">";
  else => "" }
rec inspAll(xs Seq[Obj]): Seq[String] = if len(xs) == 0 then [] else [insp(xs[0])] + inspAll(drop(xs, 1))
def inspTight1(o Obj): String = switch o { Array => "[" + join(inspTight(o.Elements), ",") + "]"; else => insp(o) }
rec inspTight(xs Seq[Obj]): Seq[String] = if len(xs) == 0 then [] else [inspTight1(xs[0])] + inspTight(drop(xs, 1))

// an object that holds no nil inside
rec okO(o Obj): Bool = switch o {
  Integer => true; Boolean => true; String => true;
  Array => okAll(o.Elements);
  BRollCompResult => o.Values is Array && okO(o.Values) && o.NumOfSuccesses is Integer;
  RRollCompResult => o.ValueGroups is Array && okO(o.ValueGroups) && o.NumOfSuccesses is Integer;
  URollExprResult => o.valueGroups is Array && okO(o.valueGroups) && o.modifier is Integer;
  URollCompResult => o.RollResult is URollExprResult && okO(o.RollResult) && o.NumOfSuccesses is Integer;
  else => false }
rec okAll(xs Seq[Obj]): Bool = if len(xs) == 0 then true else okO(xs[0]) && okAll(drop(xs, 1))

func "pkg/core/object.NewInteger" (v) (r)
  helper
  ensures is C01: r == intO(v)
func "pkg/core/object.NewArray" (xs) (r)
  helper
  ensures is C05: r == arrO(xs)
func "pkg/core/object.(*Array).JoinedElements" (a, sep) (r)
  props C12
  requires okAll(a.Elements)
  ensures text C12: r == join(inspAll(a.Elements), sep)
  loop 1 invariant pref C12: inspAll(a.Elements) == elements + inspAll(drop(a.Elements, $n))
  loop 1 invariant ok C12: okAll(drop(a.Elements, $n))
func "pkg/core/object.(*Array).JoinedElementsWithoutSpaces" (a, sep) (r)
  props C12
  requires okAll(a.Elements)
  ensures text C12: r == join(inspTight(a.Elements), sep)
  loop 1 invariant pref C12: inspTight(a.Elements) == elements + inspTight(drop(a.Elements, $n))
  loop 1 invariant ok C12: okAll(drop(a.Elements, $n))
func "pkg/core/object.(*Array).InspectWithoutSpaces" (a) (r)
  props C12
  requires okAll(a.Elements)
  ensures text C12: r == inspTight1(a)
func "pkg/core/object.(*Integer).Inspect" (o) (r)
  props C12
  refines "pkg/core/object.Object.Inspect"
  ensures text C12: r == insp(o)
func "pkg/core/object.(*Boolean).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  ensures text C12: r == insp(o)
func "pkg/core/object.(*String).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  ensures text C12: r == insp(o)
func "pkg/core/object.(*Array).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  requires okO(o)
  ensures text C12: r == insp(o)
func "pkg/core/object.(*BRollCompResult).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  requires okO(o)
  ensures text C12: r == insp(o)
func "pkg/core/object.(*RRollCompResult).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  requires okO(o)
  ensures text C12: r == insp(o)
func "pkg/core/object.(*URollExprResult).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  requires okO(o)
  ensures text C12: r == insp(o)
func "pkg/core/object.(*URollCompResult).Inspect" (o) (r)
  refines "pkg/core/object.Object.Inspect"
  requires okO(o)
  ensures text C12: r == insp(o)
func "pkg/core/object.(*Array).MaxInteger" (a) (r, ok)
  props C07
  requires all(isInt, a.Elements)
  ensures ok C07: ok
  ensures max C07: r == intO(if len(a.Elements) == 0 then 0 else maxO(drop(a.Elements, 1), valOf(a.Elements[0])))
  loop 1 invariant rest C07: maxO(drop(a.Elements, 1), valOf(a.Elements[0])) == maxO(drop(a.Elements, 1 + $n), maxElement.Value)
func "pkg/core/object.(*Array).SumOfIntegers" (a) (r, ok)
  props C07
  requires all(isInt, a.Elements)
  ensures ok C07: ok
  ensures sum C07: r == intO(wrap64(sumO(a.Elements)))
  loop 1 invariant rest C07: wrap64(sumO(a.Elements)) == wrap64(sum + sumO(drop(a.Elements, $n)))
func "pkg/core/object.(*URollExprResult).calculateSumOfGroups" (r)
  props C07
  helper
  requires r.valueGroups is Array && all(isIntArr, r.valueGroups.(Array).Elements)
  modifies r.sumOfGroups
  ensures sums C07: r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
  loop 1 invariant rest C07: sumsO(r.valueGroups.(Array).Elements) == sums + sumsO(drop(r.valueGroups.(Array).Elements, $n))
func "pkg/core/object.(*URollExprResult).SumOfGroups" (r) (s)
  props C07
  requires r.valueGroups is Array && all(isIntArr, r.valueGroups.(Array).Elements)
  requires cache: r.sumOfGroups == nil || r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
  modifies r.sumOfGroups
  ensures sums C07: s == arrO(sumsO(r.valueGroups.(Array).Elements))
  ensures cached C07: r.sumOfGroups == s
func "pkg/core/object.(*URollExprResult).MaxValue" (r) (s)
  props C07
  requires r.valueGroups is Array && r.modifier is Integer && all(isIntArr, r.valueGroups.(Array).Elements)
  requires cache: r.sumOfGroups == nil || r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
  modifies r.sumOfGroups
  ensures max C07: let g = sumsO(r.valueGroups.(Array).Elements) in s == intO(wrap64((if len(g) == 0 then 0 else maxO(drop(g, 1), valOf(g[0]))) + valOf(r.modifier)))
  ensures cached C07: r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
func "pkg/core/object.(*URollExprResult).SumOfValues" (r) (s)
  props C07
  requires r.valueGroups is Array && r.modifier is Integer && all(isIntArr, r.valueGroups.(Array).Elements)
  requires cache: r.sumOfGroups == nil || r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
  modifies r.sumOfGroups
  ensures sum C07: s == intO(wrap64(wrap64(sumO(sumsO(r.valueGroups.(Array).Elements))) + valOf(r.modifier)))
  ensures cached C07: r.sumOfGroups == arrO(sumsO(r.valueGroups.(Array).Elements))
