package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Prover decides ground goals: rewriting, unfolding of specification functions,
// ground instances of the sequence laws, then an SMT solver.
type Prover struct {
	at       string
	proving  *Lemma // theorem under proof
	w        *World
	noted    map[*Term]types.Type
	z3       *solver
	Queries  int
	Rewrites int
	ByZ3     int
	ByCvc5   int
	ByZ3New  int
	Secs     float64
	hard     map[string]bool
	infMemo  map[[32]byte]bool
	deadline time.Time
	dump     string
	cheap    bool
	scale    float64         // factor on the time limits of queries
	opaque   map[string]bool // functions that stay folded
	Slow     time.Duration
}

func newProver(w *World) *Prover {
	return &Prover{w: w, scale: 1, noted: map[*Term]types.Type{}, infMemo: map[[32]byte]bool{}, hard: map[string]bool{}}
}

func (p *Prover) noteType(t *Term, gt types.Type) {
	if gt != nil && t.Sort == sInt {
		if b, ok := gt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			p.noted[t] = gt
		}
	}
}

// goRange gives the machine range known for an integer term, if any.
func (p *Prover) goRange(t *Term) (lo, hi *big.Int) {
	rng := func(gt types.Type) (*big.Int, *big.Int) {
		if gt == nil {
			return nil, nil
		}
		b, ok := gt.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return nil, nil
		}
		bits, uns := intKind(gt)
		if uns {
			return bZero, new(big.Int).Sub(new(big.Int).Lsh(bOne, uint(bits)), bOne)
		}
		h := new(big.Int).Lsh(bOne, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bOne)
	}
	if gt, ok := p.noted[t]; ok {
		return rng(gt)
	}
	switch t.Kind {
	case KWrap:
		return minI64, maxI64
	case KSel:
		return rng(p.w.selGo[t.Ctor.Fields[t.Sel].Sel])
	case KNth:
		b := t.Args[0]
		for b.Kind == KDrop || b.Kind == KTake {
			b = b.Args[0]
		}
		if b.Kind == KConst || b.Kind == KSel {
			return minI64, maxI64
		}
	case KLen:
		if b := t.Args[0]; b.Kind == KConst || b.Kind == KSel {
			return bZero, new(big.Int).Lsh(bOne, 62)
		}
		return nil, nil
	case KStrLen:
		return bZero, new(big.Int).Lsh(bOne, 62)
	case KApp:
		if f := p.w.specs.Fns[t.Name]; f != nil && f.Wrap64 {
			return minI64, maxI64
		}
		if t.Name == "byteat" {
			return bZero, big.NewInt(255)
		}
		switch t.Name {
		case "wrap_u8":
			return bZero, big.NewInt(255)
		case "wrap_s32":
			return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
		case "wrap_u32":
			return bZero, big.NewInt(1<<32 - 1)
		case "wrap_u64":
			return bZero, new(big.Int).Sub(two64, bOne)
		}
	}
	return nil, nil
}

func (p *Prover) inRange64(t *Term) bool {
	switch t.Kind {
	case KInt:
		return t.Int.Cmp(minI64) >= 0 && t.Int.Cmp(maxI64) <= 0
	case KIte:
		return p.inRange64(t.Args[1]) && p.inRange64(t.Args[2])
	}
	lo, hi := p.goRange(t)
	return lo != nil && lo.Cmp(minI64) >= 0 && hi.Cmp(maxI64) <= 0
}

// ---------------------------------------------------------------- saturation

// walk visits every subterm once.
func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		walkTerm(a, seen, f)
	}
	f(t)
}

// below2 simplifies a known fact without erasing it.
func (s *State) below2(f *Term) *Term {
	if f.Kind == KNot {
		a := f.Args[0]
		if len(a.Args) == 0 {
			return f
		}
		return mkNot(s.below(a))
	}
	return s.below(f)
}

// resimp re-simplifies all facts with the current rewriting map.
func (s *State) resimp() bool {
	for round := 0; round < 30; round++ {
		ch := false
		for i := 0; i < len(s.facts); i++ {
			f := s.facts[i]
			g := s.below2(f)
			if g == f {
				continue
			}
			if g == tTrue {
				continue // captured by the rewriting map
			}
			ch = true
			nf := append([]*Term(nil), s.facts[:i]...)
			nf = append(nf, s.facts[i+1:]...)
			s.facts = nf
			if s.m[f] == tTrue {
				delete(s.m, f)
			}
			if f.Kind == KNot && s.m[f.Args[0]] == tFalse {
				delete(s.m, f.Args[0])
			}
			s.sub = nil
			i--
			if g == tFalse || !s.assume1(g) {
				s.dead = true
				return false
			}
		}
		if !ch {
			return true
		}
	}
	return true
}

func (p *Prover) isSpec(t *Term) *SpecFn {
	if t.Kind != KApp {
		return nil
	}
	f := p.w.specs.Fns[t.Name]
	if f == nil || f.Body == nil {
		return nil
	}
	if m := mapFns[t.Name]; m != nil && t.Args[0].Kind != KDrop {
		return nil
	}
	return f
}

// isOpen: t may be unfolded before its case is known.
func (p *Prover) isOpen(t *Term) *SpecFn {
	if f := p.isSpec(t); f != nil && !p.opaque[f.Name] {
		return f
	}
	return nil
}

// descends: t is applied to a tree whose constructor is known, and body applies
// the same function to parts of that tree only.
func (s *State) descends(t, body *Term) bool {
	t = s.below(t)
	for i, a := range t.Args {
		if a.Sort.Data == nil || len(a.Sort.Data.Ctors) < 2 {
			continue
		}
		known := false
		for _, c := range a.Sort.Data.Ctors {
			known = known || s.simp(mkIs(c, a)) == tTrue
		}
		if !known {
			continue
		}
		ok := true
		walkTerm(body, map[*Term]bool{}, func(x *Term) {
			if x.Kind == KApp && x.Name == t.Name {
				if _, sub := subterm(x.Args[i], a); !sub {
					ok = false
				}
			}
		})
		if ok {
			return true
		}
	}
	return false
}

func containsApp(t *Term, name string) bool {
	found := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.Kind == KApp && x.Name == name {
			found = true
		}
	})
	return found
}

// unfoldResolved rewrites applications whose case is decided.
func (p *Prover) unfoldResolved(s *State, budget *int) bool {
	any := false
	for round := 0; round < 40; round++ {
		ch := false
		// facts that are applications themselves
		for i := 0; i < len(s.facts) && *budget > 0; i++ {
			f := s.facts[i]
			t := f
			if f.Kind == KNot {
				t = f.Args[0]
			}
			fn := p.isSpec(t)
			if fn == nil {
				continue
			}
			body := s.simp(p.w.expand(fn, s.below(t).Args))
			if fn.Rec && body != tTrue && body != tFalse && (fn.RSort != sBool || containsApp(body, fn.Name) && !s.descends(t, body)) || body == t {
				continue
			}
			*budget--
			nf := append([]*Term(nil), s.facts[:i]...)
			s.facts = append(nf, s.facts[i+1:]...)
			delete(s.m, t)
			s.sub = nil
			i--
			ch, any = true, true
			if f.Kind == KNot {
				body = mkNot(body)
			}
			if !s.assume1(body) {
				return true
			}
			if s.m[t] == nil {
				s.m[t] = mkBool(f.Kind != KNot)
				s.sub = nil
			}
		}
		seen := map[*Term]bool{}
		var apps []*Term
		for _, f := range s.facts {
			walkTerm(f, seen, func(t *Term) {
				if p.isSpec(t) != nil && s.m[t] == nil {
					apps = append(apps, t)
				}
			})
		}
		var try func(t *Term, deep int)
		try = func(t *Term, deep int) {
			if *budget <= 0 || s.m[t] != nil {
				return
			}
			if u := s.simp(t); u != t {
				return
			}
			f := p.isSpec(t)
			for k := 0; k < 6; k++ {
				body := s.simp(p.w.expand(f, t.Args))
				ok := !f.Rec
				if f.Rec {
					if f.RSort == sBool {
						ok = body == tTrue || body == tFalse || !containsApp(body, f.Name)
					} else {
						ok = body.Kind != KIte
					}
				}
				if ok && body != t {
					*budget--
					s.m[t] = body
					s.sub = nil
					ch = true
					any = true
					return
				}
				if body.Kind != KIte || deep == 0 {
					return
				}
				// the case may hang on applications that occur only here
				n := *budget
				walkTerm(body.Args[0], map[*Term]bool{}, func(x *Term) {
					if p.isSpec(x) != nil && x != t {
						try(x, deep-1)
					}
				})
				if n == *budget {
					return
				}
			}
		}
		for _, t := range apps {
			if *budget <= 0 {
				return any
			}
			try(t, 2)
		}
		if !ch {
			return any
		}
		if !s.resimp() {
			return any
		}
	}
	return any
}

// saturate simplifies the state for a query. False: contradiction found.
func (p *Prover) saturate(s *State) bool {
	budget := 600
	if s.dead || !s.resimp() {
		return false
	}
	p.unfoldResolved(s, &budget)
	if s.dead || !s.propagate() {
		return false
	}
	if p.unfoldResolved(s, &budget); s.dead {
		return false
	}
	if p.instAll(s) && !s.dead {
		p.unfoldResolved(s, &budget)
	}
	if *fTrace && budget < 100 {
		fmt.Fprintln(os.Stderr, "   budget left", budget)
	}
	return !s.dead
}

// instAll adds what is known of elements of sequences all of whose elements
// satisfy a predicate.
func (p *Prover) instAll(s *State) bool {
	any := false
	for round := 0; round < 3; round++ {
		var alls []*Term
		for _, f := range s.facts {
			if f.Kind == KAll {
				alls = append(alls, f)
			}
		}
		if len(alls) == 0 {
			return any
		}
		nths := map[*Term][]*Term{}
		seen := map[*Term]bool{}
		for _, f := range s.facts {
			walkTerm(f, seen, func(t *Term) {
				if t.Kind == KNth {
					nths[t.Args[0]] = append(nths[t.Args[0]], t)
				}
			})
		}
		ch := false
		for _, a := range alls {
			b := a.Args[0]
			for _, t := range nths[b] {
				k := [2]*Term{a, t}
				if s.insted[k] {
					continue
				}
				i := t.Args[1]
				if s.simp(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(b)))) != tTrue {
					continue
				}
				if s.insted == nil {
					s.insted = map[[2]*Term]bool{}
				} else {
					m := make(map[[2]*Term]bool, len(s.insted)+1)
					for k := range s.insted {
						m[k] = true
					}
					s.insted = m
				}
				s.insted[k] = true
				ch, any = true, true
				if !s.assume(p.pred(s, a, t)) {
					return true
				}
			}
		}
		if !ch {
			break
		}
	}
	return any
}

// query is the set of assertions sent to a solver.
type query struct {
	rounds int // of sequence lemmas
	apps   int // unfoldings per level
	as     []*Term
	have   map[*Term]bool
}

func (q *query) add(t *Term) bool {
	if t == tTrue || q.have[t] {
		return false
	}
	q.have[t] = true
	q.as = append(q.as, t)
	return true
}

// build adds unfoldings and ground lemma instances.
func (p *Prover) build(s *State, depth int) *query { return p.buildQ(s, depth, 4, 60) }

func (p *Prover) buildQ(s *State, depth, rounds, apps int) *query {
	var bs [][2]*Term
	q := &query{have: map[*Term]bool{}, rounds: rounds, apps: apps}
	for _, f := range s.facts {
		q.add(f)
	}
	for k, v := range s.m {
		if k.Kind == KApp && len(k.Name) == 3 && (k.Name == "$lo" || k.Name == "$hi") {
			bs = append(bs, [2]*Term{k, v})
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i][0].ID < bs[j][0].ID })
	for _, x := range bs {
		if x[0].Name == "$lo" {
			q.add(mkLe(x[1], x[0].Args[0]))
		} else {
			q.add(mkLe(x[0].Args[0], x[1]))
		}
	}
	// definitional equations of undecided applications
	done := map[*Term]bool{}
	inst := map[string]bool{}
	for d := 0; d < depth; d++ {
		seen := map[*Term]bool{}
		var apps, all []*Term
		for _, f := range q.as {
			walkTerm(f, seen, func(t *Term) {
				all = append(all, t)
				if p.isOpen(t) != nil && !done[t] {
					apps = append(apps, t)
				}
			})
		}
		if len(q.as) > 400 {
			break
		}
		n := 0
		for _, t := range apps {
			done[t] = true
			f := p.isSpec(t)
			body := s.simp(p.w.expand(f, t.Args))
			if body == t {
				continue
			}
			q.add(mkEq(t, body))
			if n++; n > q.apps {
				break
			}
		}
		for _, l := range p.w.specs.Lemmas {
			if l == p.proving {
				break // a theorem may use what is stated before it
			}
			p.instantiate(s, q, l, all, inst)
		}
	}
	p.seqLemmas(s, q)
	p.ranges(s, q)
	return q
}

func (p *Prover) instantiate(s *State, q *query, l *Lemma, all []*Term, inst map[string]bool) {
	p.w.elabLemma(l)
	vars := map[*Term]bool{}
	for _, v := range l.vars {
		vars[v] = true
	}
	cnt := 0
	var rec func(i int, b map[*Term]*Term)
	rec = func(i int, b map[*Term]*Term) {
		if cnt > 60 {
			return
		}
		if i == len(l.trigT) {
			key := l.Name
			for _, v := range l.vars {
				if b[v] == nil {
					return
				}
				key += fmt.Sprintf(",%d", b[v].ID)
			}
			if inst[key] {
				return
			}
			inst[key] = true
			cnt++
			q.add(s.simp(newSubst(b).app(l.bodyT)))
			return
		}
		for _, t := range all {
			nb := map[*Term]*Term{}
			for k, v := range b {
				nb[k] = v
			}
			if matchTerm(l.trigT[i], t, vars, nb) {
				rec(i+1, nb)
			}
		}
	}
	rec(0, map[*Term]*Term{})
}

func matchTerm(pat, t *Term, vars map[*Term]bool, b map[*Term]*Term) bool {
	if vars[pat] {
		if pat.Sort != t.Sort {
			return false
		}
		if o := b[pat]; o != nil {
			return o == t
		}
		b[pat] = t
		return true
	}
	if pat == t {
		return true
	}
	if pat.Kind != t.Kind || pat.Name != t.Name || pat.Sort != t.Sort || pat.Ctor != t.Ctor || pat.Sel != t.Sel || len(pat.Args) != len(t.Args) || len(pat.Args) == 0 {
		return false
	}
	if pat.Kind == KAdd {
		return false
	}
	for i := range pat.Args {
		if !matchTerm(pat.Args[i], t.Args[i], vars, b) {
			return false
		}
	}
	return true
}

func (w *World) elabLemma(l *Lemma) {
	if l.bodyT != nil {
		return
	}
	en := &Env{w: w, names: map[string]func(bool) (TV, bool){}}
	for _, pr := range l.Params {
		s, gt := w.specType(pr.Type)
		v := mkConst(l.Name+"$"+pr.Name, s)
		l.vars = append(l.vars, v)
		en = en.bind(pr.Name, TV{v, gt})
	}
	en.heap = func(bool) *Term { panic(elabErr{"heap in axiom"}) }
	for _, t := range l.Trig {
		l.trigT = append(l.trigT, en.term(t))
	}
	l.bodyT = en.boolT(l.Body)
}

func (p *Prover) seqLemmas(s *State, q *query) {
	zero := mkInt(0)
	seen := map[*Term]bool{}
	type nthT struct{ s, i *Term }
	nths := map[*Term][]*Term{} // by base sequence: index terms
	nthSeen := map[nthT]bool{}
	var alls, cats, drops []*Term
	for round := 0; round < q.rounds; round++ {
		var terms []*Term
		for i := 0; i < len(q.as); i++ {
			walkTerm(q.as[i], seen, func(t *Term) { terms = append(terms, t) })
		}
		if len(terms) == 0 {
			break
		}
		for _, t := range terms {
			if t.Sort.Elem != nil && t.Kind != KEmpty && t.Kind != KUnit && t.Kind != KCat {
				n := mkLen(t)
				q.add(mkLe0(n))
				q.add(mkImp(mkEq(n, zero), mkEq(t, mkEmpty(t.Sort))))
			}
			if t.Sort.Elem != nil && t.Kind == KIte {
				q.add(mkEq(mkLen(t), mkIte(t.Args[0], mkLen(t.Args[1]), mkLen(t.Args[2]))))
			}
			switch t.Kind {
			case KCat:
				q.add(mkNot(rawEqLen0(t)))
				if len(t.Args) == 2 && t.Args[0].Kind == KUnit {
					cats = append(cats, t)
				}
				for i, a := range t.Args {
					if a.Kind != KUnit {
						rest := append(append([]*Term{}, t.Args[:i]...), t.Args[i+1:]...)
						q.add(mkImp(mkEq(a, mkEmpty(t.Sort)), rawEq(t, mkCat(t.Sort, rest...))))
					}
				}
			case KTake:
				b, k := t.Args[0], t.Args[1]
				in := mkAnd(mkLe(zero, k), mkLe(k, mkLen(b)))
				q.add(mkImp(in, mkEq(mkLen(t), k)))
				q.add(mkImp(mkEq(k, mkLen(b)), mkEq(t, b)))
				q.add(mkImp(mkEq(k, zero), mkEq(t, mkEmpty(t.Sort))))
				// take(b, k+1) = take(b, k) + b[k]
				if k.Kind == KAdd || k.Kind == KInt {
					k1 := mkSub(k, mkInt(1))
					q.add(mkImp(mkAnd(mkLe(zero, k1), mkLt(k1, mkLen(b))), rawEq(t, mkCat(t.Sort, mkTake(b, k1), mkUnit(mkNth(b, k1))))))
				}
			case KDrop:
				b, k := t.Args[0], t.Args[1]
				if k.Kind == KInt && k.Int.Sign() > 0 {
					drops = append(drops, t)
				}
				in := mkAnd(mkLe(zero, k), mkLe(k, mkLen(b)))
				q.add(mkImp(in, mkEq(mkLen(t), mkSub(mkLen(b), k))))
				q.add(mkImp(mkEq(k, mkLen(b)), mkEq(t, mkEmpty(t.Sort))))
				q.add(mkImp(mkEq(k, zero), mkEq(t, b)))
				if round < 2 {
					q.add(mkImp(mkAnd(mkLe(zero, k), mkLt(k, mkLen(b))), rawEq(t, mkCat(t.Sort, mkUnit(mkNth(b, k)), mkDrop(b, mkAdd(k, mkInt(1)))))))
				}
			case KUpd:
				q.add(mkEq(mkLen(t), mkLen(t.Args[0])))
			case KNth:
				b, i := t.Args[0], t.Args[1]
				if !nthSeen[nthT{b, i}] {
					nthSeen[nthT{b, i}] = true
					nths[b] = append(nths[b], i)
				}
				switch b.Kind {
				case KCat:
					l := mkLen(b.Args[0])
					rest := mkCat(b.Sort, b.Args[1:]...)
					q.add(mkImp(mkAnd(mkLe(zero, i), mkLt(i, l)), rawEq(t, mkNth(b.Args[0], i))))
					q.add(mkImp(mkLe(l, i), rawEq(t, mkNth(rest, mkSub(i, l)))))
				case KUnit:
					q.add(mkImp(mkEq(i, zero), rawEq(t, b.Args[0])))
				case KUpd:
					in := mkAnd(mkLe(zero, b.Args[1]), mkLt(b.Args[1], mkLen(b)))
					q.add(mkImp(mkAnd(in, mkEq(i, b.Args[1])), rawEq(t, b.Args[2])))
					q.add(mkImp(mkNot(mkEq(i, b.Args[1])), rawEq(t, mkNth(b.Args[0], i))))
				case KTake:
					q.add(mkImp(mkAnd(mkLe(zero, i), mkLt(i, b.Args[1])), rawEq(t, mkNth(b.Args[0], i))))
				case KIte:
					q.add(mkImp(b.Args[0], rawEq(t, mkNth(b.Args[1], i))))
					q.add(mkImp(mkNot(b.Args[0]), rawEq(t, mkNth(b.Args[2], i))))
				}
			case KAll:
				alls = append(alls, t)
				sk := mkConst(fmt.Sprintf("sk_all_%d", t.ID), sInt)
				el := mkNth(t.Args[0], sk)
				pr := p.pred(s, t, el)
				q.add(mkOr(t, mkAnd(mkLe(zero, sk), mkLt(sk, mkLen(t.Args[0])), mkNot(pr))))
			case KTDiv, KTRem:
				a, b := t.Args[0], t.Args[1]
				d := mkTDiv(a, b)
				r := mkTRem(a, b)
				nz := mkNot(mkEq(b, zero))
				q.add(mkImp(nz, mkEq(a, mkAdd(mkMul(b, d), r))))
				q.add(mkImp(mkAnd(nz, mkLe(zero, a)), mkLe(zero, r)))
				q.add(mkImp(mkAnd(nz, mkLe(a, zero)), mkLe(r, zero)))
				q.add(mkImp(mkLt(zero, b), mkAnd(mkLt(mkNeg(b), r), mkLt(r, b))))
				q.add(mkImp(mkLt(b, zero), mkAnd(mkLt(b, r), mkLt(r, mkNeg(b)))))
			}
		}
		// an element and what follows it
		if round == 0 {
			for _, t := range cats {
				n := 0
				for _, d := range drops {
					if d.Sort == t.Sort && n < 8 {
						n++
						b, k1 := d.Args[0], mkSub(d.Args[1], mkInt(1))
						q.add(mkImp(mkAnd(mkEq(t.Args[1], d), mkLt(k1, mkLen(b)), mkEq(t.Args[0].Args[0], mkNth(b, k1))), rawEq(t, mkDrop(b, k1))))
					}
				}
			}
		}
		for _, a := range alls {
			b := a.Args[0]
			off := zero
			lim := mkLen(b)
			base := b
			if b.Kind == KDrop {
				base, off = b.Args[0], b.Args[1]
			}
			for bs, is := range nths {
				if bs != b && bs != base {
					continue
				}
				for _, i := range is {
					j := i
					if bs == base && base != b {
						j = mkSub(i, off)
					}
					q.add(mkImp(mkAnd(a, mkLe(zero, j), mkLt(j, lim)), p.pred(s, a, mkNth(bs, i))))
				}
			}
		}
		if len(q.as) > 4000 {
			break
		}
	}
}

func mkLe0(n *Term) *Term {
	if n.Kind == KInt {
		return mkBool(n.Int.Sign() >= 0)
	}
	return intern(&Term{Kind: KLe, Sort: sBool, Args: []*Term{n}})
}

// rawEq is an equality that is not normalised away.
func rawEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return intern(&Term{Kind: KEq, Sort: sBool, Args: []*Term{a, b}})
}

// a concatenation with a unit part is not empty
func rawEqLen0(t *Term) *Term {
	for _, a := range t.Args {
		if a.Kind == KUnit {
			return rawEq(t, mkEmpty(t.Sort))
		}
	}
	return tFalse
}

func (p *Prover) pred(s *State, all, el *Term) *Term {
	f := p.w.specs.Fns[all.Name]
	as := append([]*Term{el}, all.Args[1:]...)
	if f != nil && f.Body != nil && !f.Rec {
		return s.simp(p.w.expand(f, as))
	}
	return mkApp(all.Name, sBool, as...)
}

func (p *Prover) ranges(s *State, q *query) {
	seen := map[*Term]bool{}
	var ts []*Term
	for _, f := range q.as {
		walkTerm(f, seen, func(t *Term) {
			if t.Sort == sInt && t.Kind != KInt && t.Kind != KWrap && t.Kind != KAdd {
				ts = append(ts, t)
			}
		})
	}
	for _, t := range ts {
		if lo, hi := p.goRange(t); lo != nil {
			q.add(intern(&Term{Kind: KLe, Sort: sBool, Args: []*Term{mkSub(t, mkBig(lo))}}))
			q.add(intern(&Term{Kind: KLe, Sort: sBool, Args: []*Term{mkSub(mkBig(hi), t)}}))
		}
	}
}

// ---------------------------------------------------------------- SMT text

type smtOut struct {
	b     strings.Builder
	sorts map[*Sort]bool
	datas []*Sort
	seqs  []*Sort
	opq   []*Sort
	decl  map[string]string
	decls strings.Builder
	name  map[*Term]string
	cnt   int
	wraps bool
}

func sortName(s *Sort) string {
	switch s {
	case sInt, sBool, sStr:
		return s.Name
	}
	if e := heapElem[s]; e != nil {
		if k := arrayKey[s]; k != nil {
			return "(Array " + sortName(k) + " " + sortName(e) + ")"
		}
		return "(Array Int " + sortName(e) + ")"
	}
	return "S_" + sanitize(s.Name)
}

func (o *smtOut) sort(s *Sort) {
	if o.sorts[s] {
		return
	}
	o.sorts[s] = true
	switch {
	case s == sInt || s == sBool || s == sStr:
	case heapElem[s] != nil:
		o.sort(heapElem[s])
	case s.Elem != nil:
		o.sort(s.Elem)
		o.seqs = append(o.seqs, s)
	case s.Data != nil:
		o.datas = append(o.datas, s)
		for _, c := range s.Data.Ctors {
			for _, f := range c.Fields {
				o.sort(f.Sort)
			}
		}
	default:
		o.opq = append(o.opq, s)
	}
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (o *smtOut) declare(name string, args []*Term, s *Sort) {
	sig := "("
	for i, a := range args {
		if i > 0 {
			sig += " "
		}
		sig += sortName(a.Sort)
	}
	sig += ") " + sortName(s)
	if old, ok := o.decl[name]; ok {
		if old != sig {
			panic("function " + name + " used with two signatures: " + old + " and " + sig)
		}
		return
	}
	o.decl[name] = sig
	fmt.Fprintf(&o.decls, "(declare-fun %s %s)\n", name, sig)
}

func (o *smtOut) term(t *Term) string {
	if n, ok := o.name[t]; ok {
		return n
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = o.term(a)
	}
	o.sort(t.Sort)
	ap := func(f string) string {
		if len(as) == 0 {
			return f
		}
		return "(" + f + " " + strings.Join(as, " ") + ")"
	}
	var r string
	leaf := false
	seqf := func(op string, s *Sort) string {
		n := op + "_" + sanitize(s.Name)
		return n
	}
	switch t.Kind {
	case KInt:
		r, leaf = smtInt(t.Int), true
	case KStr:
		r, leaf = smtStr(t.Name), true
	case KConst:
		r, leaf = "|k_"+t.Name+"|", true
		o.declare(r, nil, t.Sort)
	case KTrue:
		r, leaf = "true", true
	case KFalse:
		r, leaf = "false", true
	case KApp:
		switch t.Name {
		case "select", "store":
			r = ap(t.Name)
		case "empty_map":
			r = "((as const " + sortName(t.Sort) + ") " + as[0] + ")"
		default:
			n := "|f_" + t.Name + "|"
			o.declare(n, t.Args, t.Sort)
			r = ap(n)
		}
	case KCtor:
		r = ap(sym("c_" + t.Ctor.Name))
		leaf = len(as) == 0
	case KSel:
		r = ap("|s_" + t.Ctor.Fields[t.Sel].Sel + "|")
	case KIs:
		r = ap("(_ is " + sym("c_"+t.Ctor.Name) + ")")
	case KIte:
		r = ap("ite")
	case KEq:
		r = ap("=")
	case KNot:
		r = ap("not")
	case KAnd:
		r = ap("and")
	case KOr:
		r = ap("or")
	case KLe:
		r = "(<= 0 " + as[0] + ")"
	case KAdd:
		var ps []string
		for i := range as {
			if t.Coef[i].Cmp(bOne) == 0 {
				ps = append(ps, as[i])
			} else {
				ps = append(ps, "(* "+smtInt(t.Coef[i])+" "+as[i]+")")
			}
		}
		if t.Int.Sign() != 0 {
			ps = append(ps, smtInt(t.Int))
		}
		if len(ps) == 1 {
			r = ps[0]
		} else {
			r = "(+ " + strings.Join(ps, " ") + ")"
		}
	case KMul:
		r = ap("*")
	case KWrap:
		x := as[0]
		r = fmt.Sprintf("(ite (and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807)) %s (- (mod (+ %s 9223372036854775808) 18446744073709551616) 9223372036854775808))", x, x, x, x)
	case KConc:
		r = ap("str.++")
	case KStrLen:
		r = ap("str.len")
	case KEmpty:
		n := seqf("empty", t.Sort)
		o.declare(n, nil, t.Sort)
		r, leaf = n, true
	case KUnit:
		n := seqf("unit", t.Sort)
		o.declare(n, t.Args, t.Sort)
		r = ap(n)
	case KCat:
		n := seqf("cat", t.Sort)
		o.declare(n, t.Args[:2], t.Sort)
		r = as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			r = "(" + n + " " + as[i] + " " + r + ")"
		}
	case KLen, KNth, KUpd, KTake, KDrop:
		n := seqf(map[Kind]string{KLen: "len", KNth: "nth", KUpd: "upd", KTake: "take", KDrop: "drop"}[t.Kind], t.Args[0].Sort)
		o.declare(n, t.Args, t.Sort)
		r = ap(n)
	case KAll:
		n := "|all_" + t.Name + "|"
		o.declare(n, t.Args, t.Sort)
		r = ap(n)
	case KTDiv:
		o.declare("tdiv", t.Args, sInt)
		r = ap("tdiv")
	case KTRem:
		o.declare("trem", t.Args, sInt)
		r = ap("trem")
	default:
		panic("smt: kind")
	}
	if !leaf {
		o.cnt++
		n := fmt.Sprintf("t%d", o.cnt)
		fmt.Fprintf(&o.b, "(define-fun %s () %s %s)\n", n, sortName(t.Sort), r)
		r = n
	}
	o.name[t] = r
	return r
}

func (p *Prover) smt(q *query) (string, []*Term) {
	o := &smtOut{sorts: map[*Sort]bool{}, decl: map[string]string{}, name: map[*Term]string{}}
	var asserts []string
	for _, a := range q.as {
		asserts = append(asserts, "(assert "+o.term(a)+")\n")
	}
	var h strings.Builder
	for _, s := range o.opq {
		fmt.Fprintf(&h, "(declare-sort %s 0)\n", sortName(s))
	}
	for _, s := range o.seqs {
		fmt.Fprintf(&h, "(declare-sort %s 0)\n", sortName(s))
	}
	if len(o.datas) > 0 {
		h.WriteString("(declare-datatypes (")
		for _, s := range o.datas {
			fmt.Fprintf(&h, "(%s 0)", sortName(s))
		}
		h.WriteString(") (\n")
		for _, s := range o.datas {
			h.WriteString("(")
			for _, c := range s.Data.Ctors {
				fmt.Fprintf(&h, "(|c_%s|", c.Name)
				for _, f := range c.Fields {
					fmt.Fprintf(&h, " (|s_%s| %s)", f.Sel, sortName(f.Sort))
				}
				h.WriteString(")")
			}
			h.WriteString(")\n")
		}
		h.WriteString("))\n")
	}
	h.WriteString(o.decls.String())
	h.WriteString(o.b.String())
	for _, a := range asserts {
		h.WriteString(a)
	}
	var cs []*Term
	for t := range o.name {
		if t.Kind == KConst && (t.Sort == sInt || t.Sort == sBool || t.Sort == sStr) {
			cs = append(cs, t)
		}
	}
	return h.String(), cs
}

// ---------------------------------------------------------------- solvers

type solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func startZ3() *solver {
	c := exec.Command("z3-new", "-in", "-smt2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &solver{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
}

func (s *solver) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (p *Prover) askZ3(text string, ms int, vals string) (string, string) {
	t0 := time.Now()
	r, m := p.askZ3x(text, ms, vals)
	p.note(r, t0)
	if d := time.Since(t0).Seconds(); *fTrace && d > 0.2 {
		if d > 2.5 || (d > 0.45 && ms <= 150 && r == "unknown") {
			os.WriteFile("/tmp/slow.smt2", []byte(text+"(check-sat)\n"), 0644)
		}
		fmt.Fprintf(os.Stderr, "   z3 %.1fs limit %d size %d: %s %s\n", d, ms, len(text), r, p.at)
	}
	return r, m
}

func (p *Prover) askZ3x(text string, ms int, vals string) (string, string) {
	ms = int(float64(ms) * p.scale)
	if p.z3 != nil && p.z3.n > 400 {
		p.z3.stop()
		p.z3 = nil
	}
	if p.z3 == nil {
		p.z3 = startZ3()
	}
	s := p.z3
	s.n++
	p.Queries++
	t0 := time.Now()
	defer func() { p.Secs += time.Since(t0).Seconds() }()
	return s.ask(p, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"==\")\n", ms, text), ms, vals)
}

// moreZ3 asks again in the session of the last question.
func (p *Prover) moreZ3(cmd string, ms int, vals string) (string, string) {
	ms = int(float64(ms) * p.scale)
	if p.z3 == nil {
		return "unknown", ""
	}
	p.Queries++
	t0 := time.Now()
	defer func() { p.Secs += time.Since(t0).Seconds() }()
	r, m := p.z3.ask(p, fmt.Sprintf("(set-option :timeout %d)\n%s\n(echo \"==\")\n", ms, cmd), ms, vals)
	p.note(r, t0)
	return r, m
}

var stats = map[string][2]float64{}
var statsMu sync.Mutex

// note accounts the time of a query to its caller.
func (p *Prover) note(r string, t0 time.Time) {
	if !*fTrace {
		return
	}
	_, file, line, _ := runtime.Caller(2)
	k := fmt.Sprintf("%s:%d %s", filepath.Base(file), line, r)
	statsMu.Lock()
	v := stats[k]
	stats[k] = [2]float64{v[0] + 1, v[1] + time.Since(t0).Seconds()}
	statsMu.Unlock()
}

func (s *solver) ask(p *Prover, full string, ms int, vals string) (string, string) {
	type ans struct{ r string }
	ch := make(chan []string, 1)
	rd := func() {
		var ls []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ls = append(ls, "eof")
				break
			}
			l = strings.TrimSpace(l)
			if l == "==" {
				break
			}
			ls = append(ls, l)
		}
		ch <- ls
	}
	go rd()
	if _, err := io.WriteString(s.in, full); err != nil {
		p.z3.stop()
		p.z3 = nil
		return "unknown", ""
	}
	var ls []string
	select {
	case ls = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond + 1500*time.Millisecond):
		p.z3.stop()
		p.z3 = nil
		return "unknown", ""
	}
	r := "unknown"
	for _, l := range ls {
		if strings.HasPrefix(l, "(error") {
			os.WriteFile("/tmp/gocv_bad.smt2", []byte(full), 0644)
			panic("z3: " + l)
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			r = l
		}
		if l == "eof" {
			p.z3 = nil
		}
	}
	model := ""
	if r == "sat" && vals != "" && p.z3 != nil {
		go rd()
		io.WriteString(s.in, vals+"\n(echo \"==\")\n")
		select {
		case ls = <-ch:
			model = strings.Join(ls, "\n")
		case <-time.After(3 * time.Second):
			p.z3.stop()
			p.z3 = nil
		}
	}
	return r, model
}

func (p *Prover) askOther(bin, text string, ms int) string {
	ms = int(float64(ms) * p.scale)
	p.Queries++
	t0 := time.Now()
	defer func() { p.Secs += time.Since(t0).Seconds() }()
	var c *exec.Cmd
	switch bin {
	case "cvc5":
		c = exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
		text = "(set-logic ALL)\n" + text
	default:
		c = exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	}
	c.Stdin = strings.NewReader(text + "(check-sat)\n")
	done := time.AfterFunc(time.Duration(ms)*time.Millisecond+2*time.Second, func() { c.Process.Kill() })
	out, _ := c.Output()
	done.Stop()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat", "sat":
			return strings.TrimSpace(l)
		}
	}
	return "unknown"
}

// ---------------------------------------------------------------- goals

func (p *Prover) valsCmd(cs []*Term) string {
	if len(cs) == 0 {
		return ""
	}
	s := "(get-value ("
	for i, c := range cs {
		if i > 60 {
			break
		}
		s += "|k_" + c.Name + "| "
	}
	return s + "))"
}

// prove decides whether goal follows on the path st.
func (p *Prover) prove(st *State, goal *Term) (ok, bySolver bool, why, model string) {
	if goal == tTrue || st.dead {
		p.Rewrites++
		return true, false, "", ""
	}
	if goal.Kind == KAnd {
		cur := st
		by := false
		for i, g := range goal.Args {
			if i > 0 {
				cur = cur.clone()
				if !cur.assume(goal.Args[i-1]) {
					return true, by, "", ""
				}
			}
			ok, b, why, model := p.prove(cur, cur.simp(g))
			by = by || b
			if !ok {
				return false, by, why, model
			}
		}
		return true, by, "", ""
	}
	ps := st.clone()
	if !ps.assume(mkNot(goal)) {
		p.Rewrites++
		return true, false, "", ""
	}
	if goal == tFalse {
		return p.infeasible(ps), true, "does not hold here", ""
	}
	return p.refute(ps, mkNot(goal), 0, 3)
}

// refute shows that the state is contradictory.
func (p *Prover) refute(ps *State, neg *Term, level, splits int) (ok, bySolver bool, why, model string) {
	if !p.saturate(ps) {
		p.Rewrites++
		return true, level > 0, "", ""
	}
	if level == 0 && p.coneRefute(ps, neg) {
		p.ByZ3++
		return true, true, "", ""
	}
	text, cs := p.smt(p.build(ps, 0))
	if r, _ := p.askZ3(text, 500, ""); r == "unsat" {
		p.ByZ3++
		return true, true, "", ""
	}
	q := p.build(ps, 1)
	text, cs = p.smt(q)
	ms := 1500
	r, m := p.askZ3(text, ms, p.valsCmd(cs))
	if r == "unsat" {
		p.ByZ3++
		return true, true, "", ""
	}
	if p.cheap {
		return false, true, "solver answered " + r, m
	}
	if p.dump != "" && level == 0 {
		os.WriteFile(p.dump+".1", []byte(text+"(check-sat)\n"), 0644)
	}
	if level == 0 {
		// decide open cases of applications one by one
		ch := p.decide(ps, false)
		if ch && !p.saturate(ps) {
			return true, true, "", ""
		}
		for k := 0; k < 2; k++ {
			q = p.build(ps, 1)
			text, cs = p.smt(q)
			if r, m = p.askZ3(text, 1500, p.valsCmd(cs)); r == "unsat" {
				p.ByZ3++
				return true, true, "", ""
			}
			if k > 0 || !p.decide(ps, true) {
				break
			}
			if !p.saturate(ps) {
				return true, true, "", ""
			}
		}
		q = p.build(ps, 3)
		text, cs = p.smt(q)
		r, m = p.askZ3(text, 4000, p.valsCmd(cs))
		if r == "unsat" {
			p.ByZ3++
			return true, true, "", ""
		}
	}
	if splits > 0 {
		if c := p.splitCond(ps); c != nil {
			a := ps.clone()
			okA := true
			if a.assume(c) {
				okA, _, why, m = p.refute(a, nil, level+1, splits-1)
			}
			if okA {
				b := ps.clone()
				okB := true
				if b.assume(mkNot(c)) {
					okB, _, why, m = p.refute(b, nil, level+1, splits-1)
				}
				if okB {
					return true, true, "", ""
				}
			}
			if level > 0 {
				return false, true, why, m
			}
		}
	}
	if level == 0 {
		if p.askOther("cvc5", text, 8000) == "unsat" {
			p.ByCvc5++
			return true, true, "", ""
		}
		if p.askOther("z3", text, 8000) == "unsat" {
			p.ByZ3New++
			return true, true, "", ""
		}
	}
	if p.dump != "" {
		os.WriteFile(p.dump, []byte(text+"(check-sat)\n"), 0644)
	}
	return false, true, "solver answered " + r, m
}

// coneRefute tries with the facts that speak of nothing but what the negated
// goal speaks of.
func (p *Prover) coneRefute(ps *State, neg *Term) bool {
	if neg == nil {
		return false
	}
	vars := map[*Term]bool{}
	consts := func(t *Term, f func(*Term)) {
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if x.Kind == KConst {
				f(x)
			}
		})
	}
	neg = ps.simp(neg)
	consts(neg, func(x *Term) { vars[x] = true })
	t := newState()
	n := 0
	for _, f := range ps.facts {
		in, any := true, false
		consts(f, func(x *Term) {
			any = true
			if !vars[x] {
				in = false
			}
		})
		if in && any {
			n++
			if !t.assume(f) {
				return true
			}
		}
	}
	if n == len(ps.facts) {
		return false
	}
	if !p.saturate(t) {
		return true
	}
	text, _ := p.smt(p.build(t, 1))
	r, _ := p.askZ3(text, 500, "")
	return r == "unsat"
}

// settle simplifies a state for good with what follows from its facts.
func (p *Prover) settle(st *State) {
	if st.dead || !p.saturate(st) {
		return
	}
	if os.Getenv("GOCV_FACTS") != "" {
		fmt.Fprintln(os.Stderr, "=== settle")
		for _, f := range st.facts {
			fmt.Fprintln(os.Stderr, "   fact", f.str(9))
		}
	}
	if p.decide(st, false) && !st.dead {
		p.saturate(st)
	}
}

// decide settles the outermost case of undecided applications.
func (p *Prover) decide(ps *State, full bool) bool {
	any := false
	for round := 0; round < 3; round++ {
		seen := map[*Term]bool{}
		var conds []*Term
		cs := map[*Term]bool{}
		for _, f := range ps.facts {
			walkTerm(f, seen, func(t *Term) {
				if f := p.isOpen(t); f != nil {
					b := ps.simp(p.w.expand(f, t.Args))
					if c := b.Args; b.Kind == KIte && c[0].Kind == KIs && len(c[0].Ctor.Data.Ctors) > 6 {
						// the kind of a tree: not for the solver to find out
						return
					}
					if b.Kind == KIte && !cs[b.Args[0]] {
						cs[b.Args[0]] = true
						conds = append(conds, b.Args[0])
					}
				}
				if t.Kind == KIte && !cs[t.Args[0]] {
					cs[t.Args[0]] = true
					conds = append(conds, t.Args[0])
				}
			})
		}
		if len(conds) > 14 {
			conds = conds[:14]
		}
		ch := false
		var open []*Term
		for _, c := range conds {
			c = ps.simp(c)
			if c == tTrue || c == tFalse {
				continue
			}
			found := false
			for _, v := range []*Term{c, mkNot(c)} {
				t := ps.clone()
				if !t.assume(mkNot(v)) {
					if !ps.assume(v) {
						return true
					}
					ch, any, found = true, true, true
					break
				}
			}
			if !found {
				open = append(open, c)
			}
		}
		if len(open) > 0 {
			vals, dead := p.implied(ps, open, full)
			if dead {
				ps.dead = true
				return true
			}
			for i, c := range open {
				if vals[i] == nil {
					continue
				}
				if *fTrace {
					fmt.Fprintln(os.Stderr, "   decided", vals[i] == tTrue, c.str(6))
				}
				ch, any = true, true
				if vals[i] == tFalse {
					c = mkNot(c)
				}
				if !ps.assume(c) {
					return true
				}
			}
		}
		if !ch {
			break
		}
		if !p.saturate(ps) {
			return true
		}
	}
	return any
}

// implied asks the solver, in one session, which conditions follow.
func (p *Prover) implied(ps *State, conds []*Term, full bool) (vals []*Term, dead bool) {
	vals = make([]*Term, len(conds))
	var q *query
	if full {
		q = p.build(ps, 1)
	} else {
		q = p.buildQ(ps, 1, 1, 15)
	}
	var marks []*Term
	for i, c := range conds {
		m := mkConst(fmt.Sprintf("mark!%d", i), sBool)
		marks = append(marks, m)
		q.as = append(q.as, intern(&Term{Kind: KEq, Sort: sBool, Args: []*Term{m, c}}))
	}
	text, _ := p.smt(q)
	if !full && len(text) > 150000 {
		return vals, false
	}
	r, m := p.askZ3(text, 150, p.valsCmd(marks))
	if r == "unsat" {
		return nil, true
	}
	// a value seen in a model needs no test
	seenT, seenF := make([]bool, len(conds)), make([]bool, len(conds))
	note := func(m string) {
		m = strings.ReplaceAll(m, "|", "")
		for i := range conds {
			if strings.Contains(m, fmt.Sprintf("(k_mark!%d true)", i)) {
				seenT[i] = true
			}
			if strings.Contains(m, fmt.Sprintf("(k_mark!%d false)", i)) {
				seenF[i] = true
			}
		}
	}
	note(m)
	for i := range conds {
		for _, v := range []bool{true, false} {
			if v && seenT[i] || !v && seenF[i] || vals[i] != nil {
				continue
			}
			a := fmt.Sprintf("|k_mark!%d|", i)
			if !v {
				a = "(not " + a + ")"
			}
			r, m := p.moreZ3("(check-sat-assuming ("+a+"))", 60, p.valsCmd(marks))
			if r == "unsat" {
				vals[i] = mkBool(!v)
			} else if r == "sat" {
				note(m)
			}
		}
	}
	return vals, false
}

// splitCond picks a condition to split on.
func (p *Prover) splitCond(ps *State) *Term {
	var best *Term
	bestN := 1 << 30
	seen := map[*Term]bool{}
	size := func(t *Term) int {
		n := 0
		walkTerm(t, map[*Term]bool{}, func(*Term) { n++ })
		return n
	}
	for i := len(ps.facts) - 1; i >= 0; i-- {
		walkTerm(ps.facts[i], seen, func(t *Term) {
			var c *Term
			if t.Kind == KIte {
				c = t.Args[0]
			} else if f := p.isOpen(t); f != nil {
				if b := ps.simp(p.w.expand(f, t.Args)); b.Kind == KIte {
					c = b.Args[0]
				}
			}
			if c != nil {
				if n := size(c); n < bestN {
					best, bestN = c, n
				}
			}
		})
	}
	if best == nil {
		for i := len(ps.facts) - 1; i >= 0; i-- {
			if f := ps.facts[i]; f.Kind == KOr {
				if n := size(f.Args[0]); n < bestN {
					best, bestN = f.Args[0], n
				}
			}
		}
	}
	return best
}

// infeasible is a quick test for paths that cannot happen.
func (p *Prover) infeasible(st *State) bool {
	s := st.clone()
	if !p.saturate(s) {
		return true
	}
	q := p.buildQ(s, 1, 2, 20)
	text, _ := p.smt(q)
	if len(text) > 120000 {
		text, _ = p.smt(p.buildQ(s, 0, 1, 0))
	}
	h := sha256.Sum256([]byte(text))
	if r, ok := p.infMemo[h]; ok {
		return r
	}
	r, _ := p.askZ3(text, 80, "")
	p.infMemo[h] = r == "unsat"
	return r == "unsat"
}

func (p *Prover) quickTrue(st *State, t *Term) bool {
	t = st.simp(t)
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	s := st.clone()
	if !s.assume(mkNot(t)) {
		return true
	}
	if s.dead || !s.resimp() {
		return true
	}
	text, _ := p.smt(p.build(s, 0))
	if r, _ := p.askZ3(text, 80, ""); r == "unsat" {
		return true
	}
	return p.infeasible(s)
}

func (p *Prover) quickFalse(st *State, t *Term) bool { return p.quickTrue(st, mkNot(t)) }

// sym quotes a name only when it needs it (cvc5 rejects quoted testers).
func sym(n string) string {
	for _, c := range n {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return "|" + n + "|"
		}
	}
	return n
}
