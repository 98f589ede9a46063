package main

import (
	"go/types"
	"regexp/syntax"
)

// diePattern describes one die, value and sides, with white space around it.
const diePattern = `\A\s*(\d+)/(\d+)\s*\z`

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// mkRuneString is the text made of characters. The text after an ASCII
// character at the start is the same taken as characters or as bytes (for a
// text in UTF-8).
func mkRuneString(t *Term) *Term {
	if t.Kind == KApp && t.Name == "runes" {
		return t.Args[0]
	}
	if t.Kind == KDrop && t.Args[1] == mkInt(1) {
		if r := t.Args[0]; r.Kind == KApp && r.Name == "runes" {
			return mkApp("afterFirst", sStr, r.Args[0])
		}
	}
	return mkApp("runestring", sStr, t)
}

func mkSubstr(x, low, h *Term) *Term {
	if low == mkInt(1) && h == mkStrLen(x) {
		return mkApp("afterFirst", sStr, x)
	}
	return mkApp("substr", sStr, x, low, h)
}

// nullable: the expression matches the empty text at the start of any text.
func nullable(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpBeginLine, syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpCapture, syntax.OpPlus:
		return nullable(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || nullable(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !nullable(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if nullable(s) {
				return true
			}
		}
	}
	return false
}

// spanGroup is the number of the group that takes exactly the characters of
// the text up to the first white space: a group at the start of the text made
// of a greedy run of characters that are not white space, followed by something
// that may be empty. It is -1 when there is none.
func spanGroup(re *syntax.Regexp) int {
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpBeginText {
		return -1
	}
	g := re.Sub[1]
	if g.Op != syntax.OpCapture || g.Sub[0].Op != syntax.OpStar || g.Sub[0].Flags&syntax.NonGreedy != 0 {
		return -1
	}
	c := g.Sub[0].Sub[0]
	if c.Op != syntax.OpCharClass {
		return -1
	}
	want, err := syntax.Parse("[^\\s]", syntax.Perl)
	if err != nil || len(want.Rune) != len(c.Rune) {
		return -1
	}
	for i, r := range want.Rune {
		if c.Rune[i] != r {
			return -1
		}
	}
	for _, s := range re.Sub[2:] {
		if !nullable(s) || s.Op == syntax.OpBeginText || s.Op == syntax.OpBeginLine {
			return -1
		}
	}
	return g.Cap
}

func init() {
	// the groups of the first match; their number is read off the expression
	externs["(*regexp.Regexp).FindStringSubmatch"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		re := ex.termOf(st, a[0])
		s := ex.termOf(st, a[1])
		rt := sig.Results().At(0).Type()
		r := mkApp("submatch", ex.w.sortOf(rt), re, s)
		if re.Kind == KCtor && len(re.Args) == 1 && re.Args[0].Kind == KApp && re.Args[0].Name == "regexp" && re.Args[0].Args[0].Kind == KStr {
			pat := re.Args[0].Args[0]
			r = mkApp("submatch", ex.w.sortOf(rt), pat, s)
			if p, err := syntax.Parse(pat.Name, syntax.Perl); err == nil {
				n := mkInt(int64(p.MaxCap() + 1))
				f := mkEq(mkLen(r), n)
				if !nullable(p) {
					f = mkOr(f, mkEq(mkLen(r), mkInt(0)))
				}
				st.assume(f)
				if q, err := syntax.Parse(diePattern, syntax.Perl); err == nil && p.Simplify().String() == q.Simplify().String() {
					// the shape of one die
					ok := mkApp("dieForm", sBool, s)
					st.assume(mkEq(ok, mkEq(mkLen(r), mkInt(3))))
					st.assume(mkOr(mkNot(ok), mkAnd(mkEq(mkNth(r, mkInt(1)), mkApp("dieV", sStr, s)), mkEq(mkNth(r, mkInt(2)), mkApp("dieS", sStr, s)))))
				}
				if i := spanGroup(p); i >= 0 {
					st.assume(mkEq(mkNth(r, mkInt(int64(i))), mkApp("firstPart", sStr, s)))
				}
			}
		}
		v := ex.toVal(st, r, rt).(Slice)
		st.locs[v.loc].fresh = true
		v.isNil = 3
		return []Val{v}
	}
	// the parser: a tree of one of the documented shapes, or an error, decided
	// by the text alone (its engine is out of reach; see DESIGN.md)
	externs[modPath+"/pkg/core/parser.Parse"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		w := ex.w
		var cl *Class
		for _, c := range w.classes {
			if c.Name == "Node" {
				cl = c
			}
		}
		text := ex.termOf(st, a[1])
		n := mkApp("parseN", cl.Data.Sort, text)
		ok := mkApp("parseOK", sBool, text)
		st.assume(mkOr(mkNot(ok), w.expand(w.specs.Fns["isTop"], []*Term{n})))
		any := mkIte(ok, mkCtor(w.box(cl.Named), n), mkCtor(w.anyD.Ctors[0]))
		if has(st.unique, n) {
			// two trees of the same text cannot be told apart
			st.taken = append(st.taken[:len(st.taken):len(st.taken)], n)
		}
		st.unique = append(st.unique[:len(st.unique):len(st.unique)], n)
		return []Val{any, mkIte(ok, mkCtor(w.errD.Ctors[0]), mkErr(w, mkApp("parseErr", sStr, text)))}
	}
}

func init() {
	// sorting leaves a list of at most one element as it is
	externs["sort.Sort"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		t := st.simp(ex.termOf(st, a[0]))
		for t.Kind == KCtor && len(t.Args) == 1 {
			t = t.Args[0]
		}
		if t.Sort.Elem != nil && st.simp(mkLe(mkLen(t), mkInt(1))) == tTrue {
			return nil
		}
		ex.unsup("sort of a list that may have several elements")
		return nil
	}
}

func init() {
	for _, f := range []string{"sort.Slice", "sort.SliceStable", "sort.Stable", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc"} {
		externs[f] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			return externs["sort.Sort"](ex, st, sig, a)
		}
	}
}
