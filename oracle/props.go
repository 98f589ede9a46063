package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/object"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dtesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"github.com/seehuhn/mt19937"
)

var kindsOf = map[string][]string{
	"C01": {"calc"},
	"C03": allKinds,
	"C04": {"dexpr", "dcomp"},
	"C05": {"blist", "bcomp"},
	"C06": {"rlist", "rcomp"},
	"C07": {"uexpr", "ucomp"},
	"C08": {"rlist", "rcomp", "uexpr", "ucomp"},
	"C09": {"dexpr", "blist", "dcomp", "uexpr"},
	"C10": {"choice"},
	"C11": {"calc", "dexpr", "dcomp", "blist", "bcomp", "rlist", "rcomp", "uexpr", "ucomp", "choice"},
	"C12": allKinds,
	"C13": allKinds,
	"C14": allKinds,
	"C15": allKinds,
}

// stub is a die supply that hands out a list.
type stub struct {
	ds  []die
	pos int
}

func (s *stub) Next(sides int) (dice.Die, error) {
	if s.pos >= len(s.ds) {
		return dice.Die{}, errors.New("no dice left")
	}
	d := s.ds[s.pos]
	s.pos++
	return dice.Die{Value: d.V, Sides: d.S}, nil
}
func (s *stub) CanSpecifyDie() bool { return true }

func (s *stub) ref() func(int) (die, bool) {
	return func(int) (die, bool) {
		if s.pos >= len(s.ds) {
			return die{}, false
		}
		s.pos++
		return s.ds[s.pos-1], true
	}
}

func same(a []dice.Die, b []die) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Value != b[i].V || a[i].Sides != b[i].S {
			return false
		}
	}
	return true
}

func fixedCases(prop string) []*Case {
	var out []*Case
	if f := fixedTexts[prop]; f != nil {
		for _, t := range f {
			out = append(out, &Case{Kind: "fixed", Text: t, Dice: repeatDice(t)})
		}
	}
	if prop == "C15" {
		out = append(out, &Case{Kind: "defaults"})
	}
	return out
}

var fixedTexts = map[string][]string{
	"C01": {"C(9007199254740993/1R)", "C(9007199254740993/1U)", "C(-7/2)", "C(-7/2U)", "C(-7/2R)", "C(7/(-2)R)", "C(1/0)", "C(1/0U)", "C(1/0R)", "C(0/5R)", "C((-1)/3R)", "C(9223372036854775807/2R)", "C(10-4*3/2+2)", "C(6/3/2)", "C(2-3-4)", "C(9223372036854775807/9223372036854775807R)", "C(4611686018427387904/9223372036854775807R)"},
	"C04": {"(8/2)D(4+6)<=(5*3)", "2D6>=7", "-2D6>=-7", "2D6-1D6-1", "2D6/2U", "10-2D6*2", "3D6=0", "1D6<>1", "2D6<=0-3", "1D6>6"},
	"C13": {"C(99999999999999999999)", "C(9223372036854775808)", "C(9223372036854775807)", "2d6", "2D6 ", "C(1)x", "3u6[6]-1+2", "3u6[6]-1-2*3", "1U6[2]+1-2", "C(1-2-3)", "C(8/4/2)", "C(8/4*2)", "C(-1+2)", "C(--1)", "C(+-+1)", "C((1))", "[1...2]D6", "[(1)...(2)]D[3...4]", "CHOICE[a]", "CHOICE[]", "CHOICE[a,]", "CHOICE[a, ]", "CHOICE[a,,b]", "2B6+2B6>3", "2B6+1", "2R6+2R6[3]>=2", "2R6[3", "2D6=3", "2D6==3", "2D6=>3", "2D6>==3", "2D6><3", "", "D6", "2D", "1.5", "2D6/2u+1", "2D6/2R6"},
	"C14": {"S2D6", "s2d6", "SC(1)", "S", "s", "SS2D6", "2D6 x", "2D6\tx", "2D6\nx", "C(1 )", "x 2D6", " 2D6", "S 2D6", "CHOICE[a b,c d] x", "choice[S a]", "2D6　x", "2S6"},
	"C08": {"2R6", "2R6[1]", "2R6>=1", "2R6[0]>=5", "2R6[3]<=1", "2U6", "2U6[1]", "2U6>=5", "2U6[2]>=1", "2R6=0", "2R6<1", "3U6[0]+5", "2R6[1+1]", "2R[1...6]"},
}

func repeatDice(t string) []die {
	g := &gen{rand.New(rand.NewSource(hash(t)))}
	return g.supplyFor(func(sup func(int) (die, bool)) { refWhole(t, sup) })
}

func (g *gen) kind(prop string) string {
	ks := kindsOf[prop]
	return ks[g.n(len(ks))]
}

func genCase(g *gen, prop string) *Case {
	switch prop {
	case "C02":
		c := &Case{Kind: "roll", Ints: []int{g.n(7) - 1, g.n(9) - 1}}
		if g.p(3) {
			c.Ints[0], c.Ints[1] = g.pick2(-9223372036854775808, -5, 0), 6
		}
		k := g.n(9)
		for i := 0; i < k; i++ {
			s := c.Ints[1]
			d := die{S: s, V: 1}
			if s > 0 {
				d.V = 1 + g.n(s)
			}
			switch g.n(14) {
			case 0:
				d.S += 1 - 2*g.n(2)
			case 1:
				d.V = g.pick2(0, s+1, -1, -100, 1000)
			}
			c.Dice = append(c.Dice, d)
		}
		return c
	case "C16":
		c := &Case{Kind: "queue"}
		for i := 1 + g.n(14); i > 0; i-- {
			c.Ints = append(c.Ints, g.n(9), g.n(5), g.n(7), g.n(7))
		}
		return c
	case "C17":
		c := &Case{Kind: "mt", Ints: []int{int(g.r.Uint64())}}
		if g.p(50) {
			c.Ints[0] = g.n(100) - 50
		}
		for i := g.n(60); i >= 0; i-- {
			c.Ints = append(c.Ints, 1+g.n(g.pick2(7, 1, 101, 1<<31, 1<<40)))
		}
		return c
	case "C18":
		return &Case{Kind: "catalogue", Strs: []string{g.pick("DiceBot", "dicebot", "", "Cthulhu", " DiceBot", "DiceBot ", "基本", "DICEBOT"), g.pick("x", "DiceBot", "\x00")}}
	case "C19":
		c := &Case{Kind: "api", Ints: []int{[]int{200, 200, 404, 500, 201, 400, 301, 100 + g.n(500)}[g.n(8)], g.n(5), g.n(4)}}
		if c.Ints[0] < 200 || c.Ints[0] == 204 || c.Ints[0] == 304 {
			c.Ints[0] = 200
		}
		for i := 0; i < c.Ints[2]; i++ {
			c.Strs = append(c.Strs, g.pick("a", "b", "ok", "count", "items", "message", "x y", "漢字", "<&>"), wchars[g.n(len(wchars))])
		}
		return c
	case "C21":
		c := &Case{Kind: "dice", Ints: []int{g.n(3)}}
		for i := g.n(6); i > 0; i-- {
			c.Dice = append(c.Dice, die{g.n(g.pick2(20, 1000000, 3)), g.n(g.pick2(20, 1000000, 3))})
		}
		var t []string
		for _, d := range c.Dice {
			sp := func() string { return g.pick("", "", "", " ", "  ", "\t", "\n") }
			t = append(t, sp()+g.pick("", "", "", "0")+strconv.Itoa(d.V)+"/"+strconv.Itoa(d.S)+sp())
		}
		c.Text = strings.Join(t, ",")
		if g.p(35) {
			rs := []rune(c.Text)
			all := []rune("0123456789/, \t-+a\n　１")
			i := g.n(len(rs) + 1)
			switch g.n(3) {
			case 0:
				if i < len(rs) {
					rs = append(rs[:i:i], rs[i+1:]...)
				}
			case 1:
				rs = append(rs[:i:i], append([]rune{all[g.n(len(all))]}, rs[i:]...)...)
			default:
				if i < len(rs) {
					rs[i] = all[g.n(len(all))]
				}
			}
			c.Text = string(rs)
		}
		return c
	case "C20":
		c := &Case{Kind: "shell"}
		for i := 2 + g.n(10); i > 0; i-- {
			switch g.n(12) {
			case 0:
				c.Strs = append(c.Strs, "set-die-feeder", g.pick("mt", "queue", "QUEUE", "Mt", "x", ""))
			case 1:
				c.Strs = append(c.Strs, "set-die-feeder", "queue")
			case 2, 3, 4, 5:
				s, k := g.pick("6", "6", "10", "3"), g.n(6)
				var t []string
				for ; k >= 0; k-- {
					t = append(t, strconv.Itoa(1+g.n(6))+"/"+s)
				}
				x := strings.Join(t, g.pick(",", ", "))
				if g.p(25) {
					x = g.mutate(x)
				}
				c.Strs = append(c.Strs, "set-dice-queue", x)
			case 6, 7, 8:
				k := g.kind("C03")
				c.Strs = append(c.Strs, "eval", capNumbers(g.wrap(g.command(k))))
			case 9:
				c.Strs = append(c.Strs, "set-game", g.pick("DiceBot", "x", ""))
			default:
				c.Strs = append(c.Strs, "roll", g.pick(fmt.Sprintf("%d %s", g.n(5), g.pick("6", "10", "3")), "", "x", "0 0", "1  6"))
			}
		}
		if g.p(80) {
			c.Strs = append([]string{"set-die-feeder", "queue"}, c.Strs...)
		}
		return c
	}
	kind := g.kind(prop)
	c := &Case{Kind: kind, Text: g.command(kind)}
	switch prop {
	case "C13":
		if g.p(45) {
			c.Text = g.mutate(c.Text)
		}
		return c
	case "C14":
		c.Text = g.wrap(c.Text)
		if g.p(10) {
			c.Text = g.mutate(c.Text)
		}
	case "C15":
		if g.p(50) {
			c.Text = g.wrap(c.Text)
		}
		if g.p(40) {
			c.Text = g.mutate(c.Text)
		}
		c.Text = capNumbers(c.Text)
	case "C03", "C12":
		if g.p(30) {
			c.Text = g.wrap(c.Text)
		}
	}
	c.Dice = g.supplyFor(func(sup func(int) (die, bool)) { refWhole(c.Text, sup) })
	return c
}

// capNumbers keeps the number of dice asked for small.
func capNumbers(s string) string {
	k := 0
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			k++
			if k > 3 {
				continue
			}
		} else {
			k = 0
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func runCase(c *Case) string {
	switch c.Prop {
	case "C02":
		return caseRoll(c)
	case "C16":
		return caseQueue(c)
	case "C17":
		return caseMT(c)
	case "C18":
		return caseCatalogue(c)
	case "C19":
		return caseAPI(c)
	case "C20":
		return caseShell(c)
	case "C21":
		return caseDice(c)
	case "C13":
		return caseParse(c)
	case "C11":
		if w := caseNotation(c); w != "" {
			return w
		}
	}
	if c.Kind == "defaults" {
		return ""
	}
	return caseCommand(c)
}

// caseCommand runs a text through ExecuteCommand and the reference.
func caseCommand(c *Case) string {
	st := &stub{ds: c.Dice}
	b := bcdice.New(st)
	got, err := b.ExecuteCommand(c.Text)
	if c.Prop == "C15" {
		if got == nil && err == nil {
			return "neither a result nor an error"
		}
		return ""
	}
	rs := &stub{ds: c.Dice}
	want, secret, taken := refWhole(c.Text, rs.ref())
	if (err == nil) != (want != nil) {
		return fmt.Sprintf("error: got %v, want error: %v", err, want == nil)
	}
	if st.pos != len(taken) {
		return fmt.Sprintf("dice taken from the supply: got %d, want %d", st.pos, len(taken))
	}
	if want == nil {
		return ""
	}
	if got.IsSecret != secret {
		return fmt.Sprintf("secret: got %v, want %v", got.IsSecret, secret)
	}
	if !same(got.RolledDice, want.Dice) {
		return fmt.Sprintf("dice: got %v, want %v", got.RolledDice, want.Dice)
	}
	if c.Prop == "C03" {
		// a change to the list must not be seen by a later command, and the other way round
		keep := append([]dice.Die{}, got.RolledDice...)
		st2 := &stub{ds: append(append([]die{}, c.Dice...), c.Dice...)}
		b2 := bcdice.New(st2)
		r1, err1 := b2.ExecuteCommand(c.Text)
		if err1 == nil {
			for i := range r1.RolledDice {
				r1.RolledDice[i] = dice.Die{Value: -7, Sides: -7}
			}
			r1.RolledDice = append(r1.RolledDice, dice.Die{Value: -8, Sides: -8})
		}
		b2.ExecuteCommand(c.Text)
		b.ExecuteCommand(c.Text)
		if !reflect.DeepEqual(keep, append([]dice.Die{}, got.RolledDice...)) {
			return "a later command changed the recorded dice"
		}
		return isolation(c.Dice)
	}
	parts := got.MessageParts
	switch c.Prop {
	case "C01":
		if len(parts) == 0 || parts[len(parts)-1] != want.Parts[len(want.Parts)-1] {
			return fmt.Sprintf("value: got %q, want %q", parts, want.Parts[len(want.Parts)-1])
		}
		return ""
	case "C14":
		// the part that was run: judged by its first message part
	}
	v := map[int]command.SuccessCheckResultType{0: command.SUCCESS_CHECK_UNSPECIFIED, 1: command.SUCCESS_CHECK_SUCCESS, 2: command.SUCCESS_CHECK_FAILURE}[want.Verdict]
	if got.SuccessCheckResult != v {
		return fmt.Sprintf("verdict: got %v, want %v", got.SuccessCheckResult, v)
	}
	if !reflect.DeepEqual(parts, want.Parts) {
		return fmt.Sprintf("message parts: got %q, want %q", parts, want.Parts)
	}
	if m := "DiceBot : " + strings.Join(want.Parts, " ＞ "); got.Message() != m {
		return fmt.Sprintf("message: got %q, want %q", got.Message(), m)
	}
	return ""
}

// isolation: the environment's list cannot be changed from outside.
func isolation(ds []die) string {
	env := evaluator.NewEnvironment()
	var in []dice.Die
	for _, d := range ds {
		in = append(in, dice.Die{Value: d.V, Sides: d.S})
	}
	keep := append([]dice.Die{}, in...)
	env.AppendRolledDice(in)
	for i := range in {
		in[i] = dice.Die{Value: -1, Sides: -1}
	}
	r := env.RolledDice()
	if !(len(r) == 0 && len(keep) == 0) && !reflect.DeepEqual(r, keep) {
		return "the recorded dice follow changes of the list handed in"
	}
	for i := range r {
		r[i] = dice.Die{Value: -2, Sides: -2}
	}
	_ = append(r, dice.Die{Value: -3, Sides: -3})
	env.PushRolledDie(dice.Die{Value: 1, Sides: 2})
	r2 := env.RolledDice()
	want := append(append([]dice.Die{}, keep...), dice.Die{Value: 1, Sides: 2})
	if !reflect.DeepEqual(r2, want) {
		return "the recorded dice follow changes of the list handed out"
	}
	return ""
}

func caseRoll(c *Case) string {
	st := &stub{ds: c.Dice}
	rl := roller.New(st)
	ds, err := rl.RollDice(c.Ints[0], c.Ints[1])
	rs := &stub{ds: c.Dice}
	e := &refRun{sup: rs.ref()}
	want, werr := e.roll(c.Ints[0], c.Ints[1])
	if (err == nil) != (werr == nil) {
		return fmt.Sprintf("error: got %v, want error: %v", err, werr != nil)
	}
	if st.pos != rs.pos {
		return fmt.Sprintf("dice taken: got %d, want %d", st.pos, rs.pos)
	}
	if err != nil && len(ds) != 0 {
		return fmt.Sprintf("dice returned with an error: %v", ds)
	}
	if !same(ds, want) {
		return fmt.Sprintf("dice: got %v, want %v", ds, want)
	}
	// later rolls of the same roller are independent of the earlier ones
	var held [][]dice.Die
	wants := [][]die{want}
	held = append(held, ds)
	for n := 1; n <= 3; n++ {
		st.ds = st.ds[:st.pos:st.pos]
		var w []die
		for i := 0; i < n; i++ {
			w = append(w, die{S: 5, V: 1 + (c.Ints[0]&1+2*n+i)%5})
		}
		st.ds = append(st.ds, w...)
		d, err := rl.RollDice(n, 5)
		if err != nil || !same(d, w) {
			return fmt.Sprintf("a later roll on the same roller: got %v (%v), want %v", d, err, w)
		}
		held, wants = append(held, d), append(wants, w)
		for i := range held {
			if !same(held[i], wants[i]) {
				return fmt.Sprintf("dice returned earlier were changed by a later roll: now %v, were %v", held[i], wants[i])
			}
		}
	}
	return ""
}

func caseQueue(c *Case) string {
	q := feeder.NewEmptyQueue()
	var model []dice.Die
	var held [][]dice.Die // lists handed in or out, and what they must keep being
	var kept [][]dice.Die
	check := func() string {
		if q.Remaining() != len(model) || q.IsEmpty() != (len(model) == 0) {
			return fmt.Sprintf("length: got %d (empty %v), want %d", q.Remaining(), q.IsEmpty(), len(model))
		}
		d := q.Dice()
		if len(d) != len(model) || len(d) > 0 && !reflect.DeepEqual(d, model) {
			return fmt.Sprintf("contents: got %v, want %v", d, model)
		}
		for i := range held {
			if len(kept[i]) > 0 && !reflect.DeepEqual(held[i], kept[i]) {
				return fmt.Sprintf("a list of the caller was changed: got %v, want %v", held[i], kept[i])
			}
		}
		return ""
	}
	hold := func(l []dice.Die) {
		held = append(held, l)
		kept = append(kept, append([]dice.Die{}, l...))
	}
	for i := 0; i+3 < len(c.Ints); i += 4 {
		op, k, v, s := c.Ints[i], c.Ints[i+1], c.Ints[i+2], c.Ints[i+3]
		l := make([]dice.Die, 0, k+v%3)
		for j := 0; j < k; j++ {
			l = append(l, dice.Die{Value: v + j, Sides: s})
		}
		switch op {
		case 0:
			q.Push(dice.Die{Value: v, Sides: s})
			model = append(model, dice.Die{Value: v, Sides: s})
		case 1:
			q.Append(l)
			model = append(model, l...)
			hold(l)
		case 2:
			q.Set(l)
			model = append([]dice.Die{}, l...)
			hold(l)
		case 3:
			if k == 4 {
				q.Clear()
				model = nil
			}
		case 4:
			q = feeder.NewQueue(l)
			model = append([]dice.Die{}, l...)
			hold(l)
		case 5:
			hold(q.Dice())
		case 6:
			if len(held) > 0 {
				j := v % len(held)
				for x := range held[j] {
					held[j][x] = dice.Die{Value: -v - 1, Sides: -s - 1}
					kept[j][x] = held[j][x]
				}
				held[j] = append(held[j], dice.Die{Value: 99, Sides: 99})
				kept[j] = append(kept[j], dice.Die{Value: 99, Sides: 99})
			}
		default:
			d, err := q.Next(s)
			if len(model) == 0 {
				if err == nil {
					return "an empty queue handed out a die"
				}
			} else {
				if err != nil {
					return "error from a queue with dice: " + err.Error()
				}
				if d != model[0] {
					return fmt.Sprintf("next die: got %v, want %v", d, model[0])
				}
				model = model[1:]
			}
		}
		if w := check(); w != "" {
			return w
		}
	}
	return ""
}

func caseMT(c *Case) string {
	seed := int64(c.Ints[0])
	a, b := feeder.NewMT19937(seed), feeder.NewMT19937(seed)
	rng := rand.New(mt19937.New())
	rng.Seed(seed)
	if a.Seed() != seed || a.CanSpecifyDie() {
		return "seed or kind of the supplier"
	}
	for i, s := range c.Ints[1:] {
		x, err := a.Next(s)
		y, err2 := b.Next(s)
		if err != nil || err2 != nil {
			return "error from the random supplier"
		}
		if x.Sides != s || x.Value < 1 || x.Value > s {
			return fmt.Sprintf("die %d: %v for %d sides", i, x, s)
		}
		if x != y {
			return fmt.Sprintf("die %d differs between two suppliers with the same seed: %v %v", i, x, y)
		}
		if w := 1 + rng.Intn(s); w != x.Value {
			return fmt.Sprintf("die %d is not the generator's choice: got %d, want %d", i, x.Value, w)
		}
	}
	return ""
}

func caseCatalogue(c *Case) string {
	ids, ids0 := list.AvailableGameIDs(true), list.AvailableGameIDs(false)
	if len(ids) != len(ids0)+1 || ids[0] != "DiceBot" || !reflect.DeepEqual(append([]string{}, ids[1:]...), append([]string{}, ids0...)) {
		return fmt.Sprintf("lists of identifiers: %q %q", ids, ids0)
	}
	if !sort.StringsAreSorted(ids0) {
		return fmt.Sprintf("not sorted: %q", ids0)
	}
	known := map[string]bool{}
	for _, id := range ids {
		if known[id] {
			return "twice in the list: " + id
		}
		known[id] = true
		f, err := list.Find(id)
		if err != nil {
			return "listed but not found: " + id
		}
		if got := f().GameID(); got != id {
			return fmt.Sprintf("%q gives the dice bot of %q", id, got)
		}
	}
	b := bcdice.New(&stub{})
	for _, id := range c.Strs {
		before := b.DiceBot
		err := b.SetDiceBotByGameID(id)
		if (err == nil) != known[id] {
			return fmt.Sprintf("selecting %q: %v", id, err)
		}
		if err != nil && b.DiceBot != before {
			return "a failed selection changed the dice bot"
		}
		if err == nil && b.DiceBot.GameID() != id {
			return "selected another dice bot"
		}
		_, ferr := list.Find(id)
		if (ferr == nil) != known[id] {
			return fmt.Sprintf("finding %q: %v", id, ferr)
		}
	}
	infos := list.AvailableGameInfos(true).Name
	if len(infos) != len(ids) || infos[0].System != "DiceBot" {
		return "list of game infos"
	}
	return ""
}

type respModel struct{ m helpers.ResponseMap }

func (r respModel) ToResponseMap() helpers.ResponseMap { return r.m }

func caseAPI(c *Case) string {
	code := c.Ints[0]
	e := echo.New()
	rec := httptest.NewRecorder()
	ctx := e.NewContext(httptest.NewRequest("GET", "/", nil), rec)
	want := map[string]interface{}{}
	var err error
	m := helpers.ResponseMap{}
	for i := 0; i+1 < len(c.Strs); i += 2 {
		if c.Strs[i] != "ok" {
			m[c.Strs[i]] = c.Strs[i+1]
			want[c.Strs[i]] = c.Strs[i+1]
		}
	}
	switch c.Ints[1] {
	case 0:
		err = helpers.JSONResponse(ctx, code, m)
	case 1:
		err = helpers.JSONResponseObject(ctx, code, respModel{m})
	case 2:
		want = map[string]interface{}{}
		coll := []helpers.ResponseMap{}
		items := []interface{}{}
		for i := 0; i < c.Ints[2]; i++ {
			coll = append(coll, helpers.ResponseMap{"n": strconv.Itoa(i)})
			items = append(items, map[string]interface{}{"n": strconv.Itoa(i)})
		}
		want["items"], want["count"] = items, float64(len(items))
		err = helpers.JSONResponseArray(ctx, code, coll)
	case 3:
		msg := strings.Join(c.Strs, "/")
		want = map[string]interface{}{"message": msg}
		err = helpers.JSONResponseError(ctx, helpers.NewResponseError(code, msg))
	case 4:
		return caseRoutes()
	}
	if err != nil {
		return "error: " + err.Error()
	}
	if rec.Code != code {
		return fmt.Sprintf("status: got %d, want %d", rec.Code, code)
	}
	want["ok"] = code == 200
	var got map[string]interface{}
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
		return "body: " + err.Error()
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("answer: got %v, want %v", got, want)
	}
	return ""
}

func caseRoutes() string {
	e := echo.New()
	controllers.Setup(e)
	for path, field := range map[string]string{"/": "message", "/v1/systems": "systems", "/v1/names": "names", "/v1/version": "api"} {
		rec := httptest.NewRecorder()
		e.ServeHTTP(rec, httptest.NewRequest("GET", path, nil))
		var got map[string]interface{}
		if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil || rec.Code != 200 {
			return fmt.Sprintf("%s: status %d, %v", path, rec.Code, err)
		}
		if got["ok"] != true || got[field] == nil {
			return fmt.Sprintf("%s: %v", path, got)
		}
		if path == "/v1/systems" {
			x, _ := json.Marshal(got[field])
			y, _ := json.Marshal(list.AvailableGameIDs(true))
			if string(x) != string(y) {
				return fmt.Sprintf("%s: %s", path, x)
			}
		}
		if path == "/v1/names" {
			x, _ := json.Marshal(got[field])
			y, _ := json.Marshal(list.AvailableGameInfos(true).Name)
			var a, b interface{}
			json.Unmarshal(x, &a)
			json.Unmarshal(y, &b)
			if !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("%s: %s", path, x)
			}
		}
	}
	return ""
}

func isSp(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

// hugeNumber: a number of the text read last does not fit (recorded finding:
// such a text is accepted with another number)
var hugeNumber bool

func refDice(s string) ([]die, bool) {
	hugeNumber = false
	if s == "" {
		return nil, true
	}
	var out []die
	for _, p := range strings.Split(s, ",") {
		for len(p) > 0 && isSp(p[0]) {
			p = p[1:]
		}
		for len(p) > 0 && isSp(p[len(p)-1]) {
			p = p[:len(p)-1]
		}
		num := func() (int, bool) {
			j := 0
			for j < len(p) && p[j] >= '0' && p[j] <= '9' {
				j++
			}
			v, err := strconv.Atoi(p[:j])
			if err != nil && j > 0 {
				hugeNumber = true
			}
			ok := j > 0
			p = p[j:]
			return v, ok
		}
		a, ok := num()
		if !ok || !strings.HasPrefix(p, "/") {
			return nil, false
		}
		p = p[1:]
		b, ok := num()
		if !ok || p != "" {
			return nil, false
		}
		out = append(out, die{a, b})
	}
	return out, true
}

func caseDice(c *Case) string {
	want, ok := refDice(c.Text)
	got, err := dtesting.ParseDice(c.Text)
	if ok && hugeNumber {
		// the recorded finding: accepted, or rejected once that is repaired
		ok = err == nil
	}
	if (err == nil) != ok {
		return fmt.Sprintf("accepted: got %v, want %v", err == nil, ok)
	}
	if ok && !same(got, want) {
		return fmt.Sprintf("dice: got %v, want %v", got, want)
	}
	var ds []dice.Die
	for _, d := range c.Dice {
		ds = append(ds, dice.Die{Value: d.V, Sides: d.S})
	}
	for _, f := range []func([]dice.Die) string{dice.FormatDice, dice.FormatDiceWithoutSpaces} {
		back, err := dtesting.ParseDice(f(ds))
		if err != nil || !same(back, c.Dice) {
			return fmt.Sprintf("round trip of %v: %q gives %v, %v", c.Dice, f(ds), back, err)
		}
	}
	return ""
}

// ---- syntax trees

func conv(n ast.Node) *refN {
	switch x := n.(type) {
	case *ast.Int:
		return ival(x.Value)
	case *ast.SumRollResult:
		r := &refN{k: "sum"}
		for _, d := range x.Dice {
			r.dice = append(r.dice, die{d.Value, d.Sides})
		}
		return r
	case ast.PrefixExpression:
		return &refN{k: "neg", r: conv(x.Right())}
	case *ast.Divide:
		return &refN{k: "/", l: conv(x.Left()), r: conv(x.Right()), rm: x.RoundingMethod.String()}
	case ast.InfixExpression:
		k := map[ast.NodeType]string{ast.ADD_NODE: "+", ast.SUBTRACT_NODE: "-", ast.MULTIPLY_NODE: "*", ast.D_ROLL_NODE: "D", ast.B_ROLL_NODE: "B", ast.R_ROLL_NODE: "R", ast.U_ROLL_NODE: "U", ast.RANDOM_NUMBER_NODE: "..."}[x.Type()]
		return &refN{k: k, l: conv(x.Left()), r: conv(x.Right())}
	}
	return &refN{k: fmt.Sprintf("?%T", n)}
}

func (n *refN) String() string {
	if n == nil {
		return "nil"
	}
	switch n.k {
	case "int":
		return strconv.Itoa(n.v)
	case "neg":
		return "(neg " + n.r.String() + ")"
	case "sum":
		return fmt.Sprint("(sum ", n.dice, ")")
	}
	return "(" + n.k + n.rm + " " + n.l.String() + " " + n.r.String() + ")"
}

func convC(n ast.Node) *refC {
	c := &refC{}
	rlist := func(x *ast.RRollList) {
		for _, r := range x.RRolls {
			c.rolls = append(c.rolls, conv(r))
		}
		if x.Threshold != nil && !x.Threshold.IsNil() {
			c.thr = conv(x.Threshold)
		}
	}
	var fill func(n ast.Node)
	fill = func(n ast.Node) {
		switch x := n.(type) {
		case *ast.Choice:
			for _, s := range x.Items {
				c.items = append(c.items, s.Value)
			}
		case *ast.BRollList:
			for _, r := range x.BRolls {
				c.rolls = append(c.rolls, conv(r))
			}
		case *ast.RRollList:
			rlist(x)
		case *ast.URollExpr:
			rlist(x.URollList)
			if x.Bonus != nil {
				c.bonus = conv(x.Bonus)
			}
		default:
			c.e = conv(n)
		}
	}
	kinds := map[ast.NodeType]string{ast.CALC_NODE: "calc", ast.CHOICE_NODE: "choice", ast.D_ROLL_EXPR_NODE: "dexpr", ast.D_ROLL_COMP_NODE: "dcomp", ast.B_ROLL_LIST_NODE: "blist", ast.B_ROLL_COMP_NODE: "bcomp", ast.R_ROLL_LIST_NODE: "rlist", ast.R_ROLL_COMP_NODE: "rcomp", ast.U_ROLL_EXPR_NODE: "uexpr", ast.U_ROLL_COMP_NODE: "ucomp"}
	c.kind = kinds[n.Type()]
	if x, ok := n.(*ast.Command); ok {
		if cmp, ok := x.Expression.(*ast.BasicInfixExpression); ok && cmp.Type() == ast.COMPARE_NODE {
			fill(cmp.Left())
			c.op, c.tgt = cmp.Operator(), conv(cmp.Right())
		} else {
			fill(x.Expression)
		}
	} else {
		fill(n)
	}
	return c
}

func (c *refC) String() string {
	b := "none"
	if c.bonus != nil {
		// only its value counts
		v, err := (&refRun{}).eval(c.bonus)
		b = fmt.Sprint(v, err != nil)
	}
	return fmt.Sprintf("%s e=%v op=%s tgt=%v rolls=%v thr=%v bonus=%s items=%q", c.kind, c.e, c.op, c.tgt, c.rolls, c.thr, b, c.items)
}

func caseParse(c *Case) string {
	want := refParse(c.Text)
	n, err := parser.Parse("input", []byte(c.Text))
	if (err == nil) != (want != nil) {
		return fmt.Sprintf("accepted: got %v (%v), want %v", err == nil, err, want != nil)
	}
	if err != nil {
		return ""
	}
	node, ok := n.(ast.Node)
	if !ok {
		return fmt.Sprintf("not a syntax tree: %T", n)
	}
	if g, w := convC(node).String(), want.String(); g != w {
		return fmt.Sprintf("syntax tree: got %s, want %s", g, w)
	}
	return ""
}

// caseNotation: the text shown for a tree as parsed, and reading it back.
func caseNotation(c *Case) string {
	ref := refParse(c.Text)
	if ref == nil || ref.bonus != nil {
		return ""
	}
	n, err := parser.Parse("input", []byte(c.Text))
	if err != nil {
		return ""
	}
	node := n.(ast.Node)
	if convC(node).String() != ref.String() {
		return ""
	}
	got, err := notation.InfixNotation(node, true)
	if err != nil {
		return "error: " + err.Error()
	}
	var want string
	switch ref.kind {
	case "choice":
		want = "CHOICE[" + strings.Join(ref.items, ",") + "]"
	case "calc":
		want = "C(" + refNot(ref.e, true) + ")"
	case "dexpr", "dcomp":
		want = refNot(ref.e, true)
	default:
		want = refNotList(ref.rolls)
		if ref.thr != nil {
			want += "[" + refNot(ref.thr, true) + "]"
		}
	}
	if ref.tgt != nil {
		want += ref.op + refNot(ref.tgt, true)
	}
	if got != want {
		return fmt.Sprintf("notation: got %q, want %q", got, want)
	}
	// reading it back gives the same value
	if ref.kind == "calc" && !mulDiv(ref.e) {
		b := refParse(got)
		if b == nil {
			return fmt.Sprintf("the notation %q is not a command", got)
		}
		v1, e1 := (&refRun{}).eval(ref.e)
		v2, e2 := (&refRun{}).eval(b.e)
		if (e1 == nil) != (e2 == nil) || e1 == nil && v1 != v2 {
			return fmt.Sprintf("the notation %q reads as %d, not %d", got, v2, v1)
		}
	}
	return ""
}

// mulDiv: the known finding of C11 (a product whose right operand begins with
// a division loses its parentheses).
func mulDiv(n *refN) bool {
	if n == nil {
		return false
	}
	if n.k == "*" {
		for x := n.r; x != nil && (x.k == "*" || x.k == "/"); x = x.l {
			if x.k == "/" {
				return true
			}
		}
	}
	return mulDiv(n.l) || mulDiv(n.r)
}

var _ = object.NewInteger
