package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type gen struct{ r *rand.Rand }

// dict holds the numbers written in the code under test: values near them are
// worth trying.
var dict []int

func loadDict(repo string) {
	seen := map[int]bool{}
	filepath.WalkDir(filepath.Join(repo, "pkg"), func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil || len(src) > 100000 {
			return nil // the generated parser is all numbers
		}
		fset := token.NewFileSet()
		var sc scanner.Scanner
		sc.Init(fset.AddFile(p, -1, len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := sc.Scan()
			if tok == token.EOF {
				return nil
			}
			if tok != token.INT {
				continue
			}
			if n, err := strconv.ParseInt(lit, 0, 64); err == nil && n > 6 && n < 1<<40 && !seen[int(n)] && len(dict) < 400 {
				seen[int(n)] = true
				dict = append(dict, int(n))
			}
		}
	})
}

// wide: a number at or near one in the code, or of some other magnitude
func (g *gen) wide(max int) int {
	for i := 0; i < 4; i++ {
		n := 0
		if len(dict) > 0 && g.p(60) {
			n = dict[g.n(len(dict))] + g.n(3) - 1
		} else {
			n = 1 + g.n([]int{20, 120, 1200, 12000, 100000000}[g.n(5)])
		}
		if n <= max {
			return n
		}
	}
	return 1 + g.n(30)
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) p(pc int) bool           { return g.r.Intn(100) < pc }
func (g *gen) pick(s ...string) string { return s[g.n(len(s))] }
func (g *gen) cs(s string) string {
	if g.p(40) {
		return strings.ToLower(s)
	}
	return s
}

func (g *gen) small() string { return strconv.Itoa(g.n(13)) }
func (g *gen) num() string {
	switch g.n(14) {
	case 13:
		if g.p(40) {
			return strconv.Itoa(g.wide(1 << 40))
		}
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(g.n(200))
	case 2:
		return "00" + strconv.Itoa(g.n(20))
	}
	return g.small()
}

// bigNum for expressions without dice
func (g *gen) bigNum() string {
	switch g.n(12) {
	case 0:
		return g.pick("9223372036854775807", "4611686018427387904", "3037000500", "9007199254740993", "9223372036854775806", "4294967296", "9007199254740992")
	case 1:
		return strconv.FormatInt(g.r.Int63(), 10)
	case 2:
		return strconv.Itoa(g.n(1000000))
	}
	return g.num()
}

// ints: arithmetic without dice
func (g *gen) ints(d int, big bool) string {
	if d <= 0 || g.p(25) {
		if big {
			return g.bigNum()
		}
		return g.num()
	}
	switch g.n(12) {
	case 0, 1:
		return g.ints(d-1, big) + "+" + g.ints(d-1, big)
	case 2, 3:
		return g.ints(d-1, big) + "-" + g.ints(d-1, big)
	case 4, 5:
		return g.iprim(d-1, big) + "*" + g.iprim(d-1, big)
	case 6, 7:
		return g.iprim(d-1, big) + "/" + g.iprim(d-1, big) + g.round()
	case 8:
		return g.iprim(d-1, big) + "*" + g.iprim(d-1, big) + "/" + g.iprim(d-1, big) + g.round()
	case 9:
		return g.pick("-", "+") + g.iprim(d-1, big)
	}
	return "(" + g.ints(d-1, big) + ")"
}
func (g *gen) iprim(d int, big bool) string {
	s := g.ints(d, big)
	if g.p(50) {
		return "(" + s + ")"
	}
	return s
}
func (g *gen) round() string { return g.pick("", "", "U", "R", "u", "r") }

// small values, mostly positive
func (g *gen) cnt() string {
	if g.p(2) {
		return strconv.Itoa(g.wide(500))
	}
	if g.p(2) {
		return fmt.Sprintf("[1...%d]", g.wide(1<<40))
	}
	switch g.n(10) {
	case 0:
		return fmt.Sprintf("[%d...%d]", 1+g.n(3), 2+g.n(4))
	case 1:
		return fmt.Sprintf("(%d+%d)", g.n(3), g.n(3))
	case 2:
		return fmt.Sprintf("(%d/%d%s)", g.n(12), 1+g.n(4), g.round())
	case 3:
		return fmt.Sprintf("(%d-%d)", 2+g.n(4), g.n(3))
	case 4:
		return fmt.Sprintf("([%d...%d]+%d)", 1+g.n(3), 2+g.n(4), g.n(3))
	case 5:
		return g.pick("0", "1", "(0-1)", "(-1)", "(1+2)", "([1...2]*[1...3])", "[(1+1)...(2*3)]", "[0...(2-1)]", "[(-2)...2]", "(-[1...3]+4)", "(6/2/2)", "(7-2-1)", "(2*(3-1))")
	}
	return strconv.Itoa(1 + g.n(4))
}
func (g *gen) sid() string {
	if g.p(5) {
		return strconv.Itoa(g.wide(1 << 40))
	}
	if g.p(2) {
		a := g.wide(1 << 40)
		return fmt.Sprintf("[%d...%d]", a, a+g.wide(1<<40))
	}
	switch g.n(10) {
	case 0:
		return fmt.Sprintf("[%d...%d]", 2+g.n(3), 4+g.n(4))
	case 1:
		return fmt.Sprintf("(%d+%d)", 1+g.n(3), g.n(6))
	case 2:
		return g.pick("0", "1", "(2-2)", "100", "(-6)", "[3...3]", "[4...2]", "(10/3U)", "[3...(6)]")
	}
	return g.pick("6", "6", "10", "4", "3", "2", "20", "8")
}
func (g *gen) roll(c string) string { return g.cnt() + g.cs(c) + g.sid() }
func (g *gen) rollSum(c string) string {
	s := g.roll(c)
	for g.p(30) {
		s += "+" + g.roll(c)
	}
	return s
}

// dexpr: arithmetic with addition rolls
func (g *gen) dexpr(d int) string {
	if d <= 0 || g.p(15) {
		if g.p(60) {
			return g.roll("D")
		}
		if g.p(4) {
			return "[1...3]"
		}
		return g.num()
	}
	switch g.n(11) {
	case 0, 1, 2:
		return g.dexpr(d-1) + "+" + g.dexpr(d-1)
	case 3, 4:
		return g.dexpr(d-1) + "-" + g.dexpr(d-1)
	case 5:
		return g.dprim(d-1) + "*" + g.dprim(d-1)
	case 6, 7:
		return g.dprim(d-1) + "/" + g.dprim(d-1) + g.round()
	case 8:
		return g.pick("-", "+") + g.dprim(d-1)
	}
	return "(" + g.dexpr(d-1) + ")"
}
func (g *gen) dprim(d int) string {
	s := g.dexpr(d)
	if g.p(50) {
		return "(" + s + ")"
	}
	return s
}
func (g *gen) op() string { return g.pick("=", "<>", "<", ">", "<=", ">=") }
func (g *gen) target() string {
	switch g.n(6) {
	case 0:
		return g.ints(2, false)
	case 1:
		return "(" + g.ints(1, false) + ")"
	case 2:
		return "-" + g.small()
	case 3:
		return g.num()
	}
	return g.small()
}
func (g *gen) thr() string {
	switch g.n(8) {
	case 0:
		return ""
	case 1:
		return "[" + g.ints(1, false) + "]"
	case 2:
		return "[" + g.pick("0", "1", "2", "(-3)", "1-5", "3-1") + "]"
	}
	if g.p(4) {
		return "[" + strconv.Itoa(g.wide(1000)) + "]"
	}
	return "[" + strconv.Itoa(2+g.n(6)) + "]"
}
func (g *gen) bonus() string {
	switch g.n(5) {
	case 0:
		return g.pick("+", "-") + g.iprim(1, false)
	case 1:
		return g.pick("+", "-") + g.small() + g.pick("+", "-") + g.small()
	case 2:
		return g.pick("+", "-") + g.small() + g.pick("*", "/", "+", "-") + g.small() + g.pick("+", "-", "*") + g.small()
	}
	return ""
}

var wchars = []string{"a", "魔法", "ソード", "b c", "x/y", "1", "(A)", "日 本", "q\t", "\"", "&", "ｚ", "%d", "Ω"}

func (g *gen) choice() string {
	s := g.pick("CHOICE[", "choice[", "Choice[")
	k := 1 + g.n(5)
	for i := 0; i < k; i++ {
		if i > 0 {
			s += ","
		}
		s += g.pick("", "", " ", "　") + wchars[g.n(len(wchars))] + g.pick("", "", " ", strconv.Itoa(g.n(10)))
	}
	return s + g.pick("", "", "", ",", ", ") + "]"
}

// command of the given kind
func (g *gen) command(kind string) string {
	switch kind {
	case "calc":
		return g.cs("C") + "(" + g.ints(1+g.n(4), g.p(40)) + ")"
	case "choice":
		return g.choice()
	case "dexpr":
		return g.dexpr(g.n(4))
	case "dcomp":
		return g.dexpr(g.n(4)) + g.op() + g.target()
	case "blist":
		return g.rollSum("B")
	case "bcomp":
		return g.rollSum("B") + g.op() + g.target()
	case "rlist":
		return g.rollSum("R") + g.thr()
	case "rcomp":
		return g.rollSum("R") + g.thr() + g.op() + g.target()
	case "uexpr":
		return g.rollSum("U") + g.thr() + g.bonus()
	case "ucomp":
		return g.rollSum("U") + g.thr() + g.bonus() + g.op() + g.target()
	}
	return ""
}

var allKinds = []string{"calc", "choice", "dexpr", "dcomp", "blist", "bcomp", "rlist", "rcomp", "uexpr", "ucomp"}

// mutate makes a text that may not be a command any more.
func (g *gen) mutate(s string) string {
	const cs = "0123456789+-*/()[]<>=.,DBRUCSdbruSs UuRr\t　あſKＤ２６＝ı\u0085\u2028\u00a0\u200b０"
	rs := []rune(s)
	all := []rune(cs)
	for k := 1 + g.n(2); k > 0; k-- {
		i := g.n(len(rs) + 1)
		switch g.n(3) {
		case 0:
			if i < len(rs) {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		case 1:
			rs = append(rs[:i:i], append([]rune{all[g.n(len(all))]}, rs[i:]...)...)
		default:
			if i < len(rs) {
				rs[i] = all[g.n(len(all))]
			}
		}
	}
	return string(rs)
}

// wrap adds secret markers and comments.
func (g *gen) wrap(s string) string {
	switch g.n(8) {
	case 0:
		if g.p(12) {
			return g.pick("ſ", "Ｓ", "ｓ", "$", "5", "\u200b", "\ufeff", "Š", "ś", "\x00", "\xff", "С", "ß") + s
		}
		return g.pick("S", "s") + s
	case 1:
		return s + g.pick(" ", "\t", "\n", "  ", "\r\n", "　", "\u00a0") + g.pick("attack", "攻撃", "2D6", "", ">=3", "+1", "コメント 1")
	case 2:
		return g.pick("S", "s", "SS") + s + " " + g.pick("comment", "", "S1D6")
	case 3:
		return " " + s
	}
	return s
}

// supply of dice for a case: what a run asks for, with faults now and then
func (g *gen) supplyFor(run func(sup func(int) (die, bool))) []die {
	var out []die
	limit := g.pick2(40, 12, 3, 0)
	if g.p(6) {
		limit = 600
	}
	fault := g.p(6)
	low := g.p(25)
	run(func(s int) (die, bool) {
		if len(out) >= limit {
			return die{}, false
		}
		d := die{S: s}
		if s > 0 {
			d.V = 1 + g.n(s)
			if low && d.V > 2 && g.p(60) {
				d.V = 1
			}
			if g.p(20) {
				d.V = s
			}
		}
		if fault && g.p(20) {
			switch g.n(4) {
			case 0:
				d.S = s + 1
			case 1:
				d.V = 0
			case 2:
				d.V = s + 1
			default:
				d.S = s - 1
			}
		}
		out = append(out, d)
		return d, true
	})
	for i := g.n(3); i > 0; i-- {
		out = append(out, die{1 + g.n(6), 6})
	}
	return out
}

func (g *gen) pick2(xs ...int) int {
	if g.p(75) {
		return xs[0]
	}
	return xs[1+g.n(len(xs)-1)]
}
