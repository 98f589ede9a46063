package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Val interface{}

// Ref is the value of a class interface: the object at loc.
type Ref struct{ loc int }

// Ptr points to the location loc. The parent of loc is usually an object
// location (step variant or optval), which decides whether the pointer is nil.
type Ptr struct{ loc int }

// Slice is a window of the array object at loc.
type Slice struct {
	loc   int
	off   *Term
	n     *Term
	isNil int  // 0 unknown, 1 nil, 2 not nil
	cut   bool // the window ends before the visible end of the array
}

type Tuple []Val

type Closure struct {
	fn   *ssa.Function
	bind []Val
	blt  *ssa.Builtin
	recv Val // bound method (interface invoke thunk)
}

// MapV is a map with known constant contents.
type MapV struct{ d *mapData }

type mapData struct {
	keys, vals []*Term
	isNil      bool
}

// OpaqueV is a value the verifier does not look into.
type OpaqueV struct{ t *Term }

// ---- locations

type stepKind uint8

const (
	stField stepKind = iota
	stObj
	stVariant
	stOpt
	stIndex
	stHeap
)

type Step struct {
	k    stepKind
	ctor *Ctor
	i    int
	t    *Term
}

type Loc struct {
	parent   int // -1 for roots
	step     Step
	content  *Term // roots
	frozen   bool
	constant bool // a package variable that is never written
	fresh    bool // allocated by the function under verification (not reachable from its inputs)
	param    bool
	alias    bool // slice arrays: may share memory with another live array
	eaten    bool // slice arrays: spare capacity already used by an append
	cap0     bool // slice arrays: no spare capacity
	sort     *Sort
	gt       types.Type
	detached bool
	born     int   // creation sequence number
	freshIf  *Term // when this is true the object is fresh (a callee's conditional promise)
	home     int   // root param location whose array this is derived from by append (owned chain), -1
}

type loopCtx struct {
	frame  int
	header *ssa.BasicBlock
	back   func(st *State, from *ssa.BasicBlock)
	blocks map[*ssa.BasicBlock]bool
	log    *wlog // log to restore when the loop is left
}

type frameSt struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []*ssa.Defer
	dvals  [][]Val
	names  map[string]ssa.Value // source name -> latest SSA value
	parent int
}

type State struct {
	locs   []Loc
	facts  []*Term
	m      map[*Term]*Term
	sub    *subster
	frames []*frameSt
	loops  []loopCtx
	heapL  int
	alloc  int // heap refs allocated so far
	log    *wlog
	dead   bool
	globs  map[*ssa.Global]int
	trace  []string
	insted map[[2]*Term]bool // instances of all() added
	ghostN []*Term           // innermost loop counters
	unique []*Term           // values made by a call, each reachable from its result only
	taken  []*Term           // those that have been taken out of the result
}

func newState() *State {
	return &State{m: map[*Term]*Term{}, globs: map[*ssa.Global]int{}, heapL: -1}
}

func (s *State) clone() *State {
	n := *s
	n.locs = append([]Loc(nil), s.locs...)
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.m = make(map[*Term]*Term, len(s.m)+8)
	for k, v := range s.m {
		n.m[k] = v
	}
	n.sub = nil
	n.frames = make([]*frameSt, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+8)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.names = make(map[string]ssa.Value, len(f.names)+2)
		for k, v := range f.names {
			g.names[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.dvals = f.dvals[:len(f.dvals):len(f.dvals)]
		n.frames[i] = &g
	}
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.globs = make(map[*ssa.Global]int, len(s.globs))
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.ghostN = s.ghostN[:len(s.ghostN):len(s.ghostN)]
	return &n
}

// simp rewrites a term with what is known on this path.
func (s *State) simp(t *Term) *Term {
	if len(s.m) == 0 || len(t.Args) == 0 && t.Kind != KConst {
		if r, ok := s.m[t]; ok {
			return r
		}
		return t
	}
	if s.sub == nil {
		s.sub = newSubst(s.m)
	}
	return s.sub.app(t)
}

// assume adds a fact to the path. It reports false when the path becomes
// syntactically contradictory.
func (s *State) assume(f *Term) bool {
	f = s.simp(f)
	switch f.Kind {
	case KTrue:
		return true
	case KFalse:
		s.dead = true
		s.facts = append(s.facts, tFalse)
		return false
	case KAnd:
		for _, a := range f.Args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	s.facts = append(s.facts, f)
	learn(s.m, f)
	s.sub = nil
	return s.propagate()
}

// below simplifies the arguments of a known fact (the fact itself maps to true).
func (s *State) below(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if s.sub == nil {
		s.sub = newSubst(s.m)
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		if a.Kind == KNot && t.Kind != KNot {
			as[i] = s.sub.app(a)
		} else {
			as[i] = s.sub.app(a)
		}
	}
	return rebuild(t, as)
}

// propagate re-simplifies disjunctions until nothing changes.
func (s *State) propagate() bool {
	for round := 0; round < 20; round++ {
		ch := false
		for i := 0; i < len(s.facts); i++ {
			f := s.facts[i]
			if f.Kind != KOr && !(f.Kind == KIte && f.Sort == sBool) && !(f.Kind == KEq && f.Args[0].Sort == sBool) {
				continue
			}
			g := s.below(f)
			if g == f {
				continue
			}
			ch = true
			nf := append([]*Term(nil), s.facts[:i]...)
			nf = append(nf, s.facts[i+1:]...)
			s.facts = nf
			delete(s.m, f)
			s.sub = nil
			i--
			if g == tFalse {
				s.dead = true
				s.facts = append(s.facts, tFalse)
				return false
			}
			if !s.assume1(g) {
				return false
			}
		}
		if !ch {
			return true
		}
	}
	return true
}

func (s *State) assume1(f *Term) bool {
	f = s.simp(f)
	switch f.Kind {
	case KTrue:
		return true
	case KFalse:
		s.dead = true
		s.facts = append(s.facts, tFalse)
		return false
	case KAnd:
		for _, a := range f.Args {
			if !s.assume1(a) {
				return false
			}
		}
		return true
	}
	s.facts = append(s.facts, f)
	learn(s.m, f)
	s.sub = nil
	return true
}

// learn records the rewriting consequences of a fact.
func learn(m map[*Term]*Term, f *Term) bool {
	set := func(a, b *Term) { m[a] = b }
	learnBound(m, f)
	switch f.Kind {
	case KNot:
		a := f.Args[0]
		set(a, tFalse)
		if a.Kind == KIs {
			// exactly one variant left?
			d := a.Ctor.Data
			var left *Ctor
			cnt := 0
			for _, c := range d.Ctors {
				if m[mkIs(c, a.Args[0])] != tFalse {
					left = c
					cnt++
				}
			}
			if cnt == 1 && m[mkIs(left, a.Args[0])] == nil {
				learnIs(m, left, a.Args[0])
			}
		}
		return true
	case KIs:
		learnIs(m, f.Ctor, f.Args[0])
		return true
	case KEq:
		a, b := f.Args[0], f.Args[1]
		set(f, tTrue)
		if a.Sort == sBool {
			for k := 0; k < 2; k++ {
				if a.Kind == KIs && a.Args[0].Kind == KConst && a.Args[0].Fresh && !b.contains(a.Args[0], map[*Term]bool{}) {
					set(a, b)
					if len(a.Ctor.Data.Ctors) == 2 {
						for _, d := range a.Ctor.Data.Ctors {
							if d != a.Ctor {
								set(mkIs(d, a.Args[0]), mkNot(b))
							}
						}
					}
					return true
				}
				a, b = b, a
			}
		}
		if isStruct(a) && !isStruct(b) {
			a, b = b, a
		}
		if b.Kind == KLen && a.Kind == KConst {
			a, b = b, a
		}
		if a.Kind == KLen && a.Args[0].Kind == KConst && a.Args[0].Fresh && b.Kind == KConst && b.Fresh {
			set(a, b)
			return true
		}
		if a.Kind == KConst && a.Fresh && !b.contains(a, map[*Term]bool{}) {
			set(a, b)
			return true
		}
		if b.Kind == KConst && b.Fresh && !a.contains(b, map[*Term]bool{}) {
			set(b, a)
			return true
		}
		if isStruct(b) && !isStruct(a) && !b.contains(a, map[*Term]bool{}) {
			set(a, b)
		}
		return true
	case KLe:
		set(f, tTrue)
		return true
	}
	set(f, tTrue)
	return true
}

func isStruct(t *Term) bool {
	switch t.Kind {
	case KInt, KStr, KTrue, KFalse, KCtor, KCat, KUnit, KEmpty:
		return true
	}
	return false
}

func learnIs(m map[*Term]*Term, c *Ctor, x *Term) {
	for _, d := range c.Data.Ctors {
		if d != c {
			m[mkIs(d, x)] = tFalse
		} else {
			m[mkIs(d, x)] = tTrue
		}
	}
	if len(c.Fields) == 0 && x.Kind != KCtor {
		m[x] = mkCtor(c)
	}
}

// ---- locations

var bornCnt int

func (s *State) newRoot(content *Term, gt types.Type) int {
	bornCnt++
	s.locs = append(s.locs, Loc{parent: -1, content: content, sort: content.Sort, gt: gt, born: bornCnt, home: -1})
	return len(s.locs) - 1
}

func (s *State) child(p int, st Step, sort *Sort, gt types.Type) int {
	for i := range s.locs {
		l := &s.locs[i]
		if l.parent == p && l.step.k == st.k && l.step.ctor == st.ctor && l.step.i == st.i && (l.step.t == st.t || l.step.t != nil && st.t != nil && s.simp(l.step.t) == s.simp(st.t)) {
			return i
		}
	}
	bornCnt++
	s.locs = append(s.locs, Loc{parent: p, step: st, sort: sort, gt: gt, born: bornCnt, home: -1})
	return len(s.locs) - 1
}

func (s *State) obj(l int) int { return s.child(l, Step{k: stObj}, s.locs[l].sort, s.locs[l].gt) }

func (s *State) content(l int) *Term {
	r := &s.locs[l]
	if r.parent < 0 {
		return s.simp(r.content)
	}
	p := s.content(r.parent)
	switch r.step.k {
	case stObj:
		return p
	case stField:
		return s.simp(mkSel(r.step.ctor, r.step.i, p))
	case stVariant, stOpt:
		return s.simp(mkSel(r.step.ctor, 0, p))
	case stIndex:
		return s.simp(mkNth(p, s.simp(r.step.t)))
	case stHeap:
		return s.simp(mkSelect(p, s.simp(r.step.t)))
	}
	panic("content")
}

type frozenErr struct{ loc int }

// write replaces the content of a location (through its parents).
func (s *State) write(l int, t *Term) {
	r := &s.locs[l]
	if t.Sort != r.sort {
		panic(fmt.Sprintf("write of sort %s to location of sort %s", t.Sort.Name, r.sort.Name))
	}
	s.settleFresh(l)
	if r.frozen {
		panic(frozenErr{l})
	}
	s.logWrite(l)
	if r.parent < 0 {
		r.content = t
		return
	}
	p := s.content(r.parent)
	var np *Term
	switch r.step.k {
	case stObj:
		np = t
	case stField:
		c := r.step.ctor
		as := make([]*Term, len(c.Fields))
		for i := range as {
			if i == r.step.i {
				as[i] = t
			} else {
				as[i] = mkSel(c, i, p)
			}
		}
		np = mkCtor(c, as...)
	case stVariant, stOpt:
		np = mkCtor(r.step.ctor, t)
	case stIndex:
		np = mkUpd(p, s.simp(r.step.t), t)
	case stHeap:
		np = mkStore(p, s.simp(r.step.t), t)
	}
	s.writeUp(r.parent, np)
}

// wlog records the writes made inside a loop.
type wlog struct {
	ents map[string]wEnt
	max  int
	mark int // fresh constants above this number are loop-local
	up   *wlog
}

// wEnt is a written location: an ancestor that existed before the loop and the
// loop-invariant steps that lead to it.
type wEnt struct {
	anc   int
	steps []Step
	sorts []*Sort
	gts   []types.Type
	elem  bool // an element of this array is written
}

func freshNo(t *Term) int {
	i := strings.LastIndexByte(t.Name, '!')
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(t.Name[i+1:])
	return n
}

// newer reports whether t mentions constants created after mark.
func newer(t *Term, mark int) bool {
	r := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.Kind == KConst && x.Fresh && freshNo(x) > mark {
			r = true
		}
	})
	return r
}

func (s *State) logWrite(l int) {
	for g := s.log; g != nil; g = g.up {
		var e wEnt
		x := l
		for x >= g.max && x >= 0 {
			r := s.locs[x]
			e.steps = append([]Step{r.step}, e.steps...)
			e.sorts = append([]*Sort{r.sort}, e.sorts...)
			e.gts = append([]types.Type{r.gt}, e.gts...)
			x = r.parent
		}
		if x < 0 {
			continue // allocated inside the loop
		}
		e.anc = x
		key := fmt.Sprint(x)
		for i := range e.steps {
			if t := e.steps[i].t; t != nil {
				t = s.simp(t)
				e.steps[i].t = t
				if newer(t, g.mark) {
					e.elem = e.steps[i].k == stIndex
					e.steps = e.steps[:i]
					break
				}
			}
			st := e.steps[i]
			n := ""
			if st.ctor != nil {
				n = st.ctor.Name
			}
			if st.t != nil {
				n += fmt.Sprint("#", st.t.ID)
			}
			key += fmt.Sprintf("/%d.%s.%d", st.k, n, st.i)
		}
		if e.elem {
			key += "/elem"
		}
		g.ents[key] = e
	}
}

// writeUp is write for ancestors: the log only names the written location.
func (s *State) writeUp(l int, t *Term) {
	lg := s.log
	s.log = nil
	s.write(l, t)
	s.log = lg
}

// under reports whether l is root or below it through non-object steps only.
func (s *State) directlyUnder(l, root int) bool {
	for l >= 0 {
		if l == root {
			return true
		}
		if s.locs[l].step.k == stObj && s.locs[l].parent >= 0 {
			return false
		}
		l = s.locs[l].parent
	}
	return false
}

func (s *State) isUnder(l, root int) bool {
	for l >= 0 {
		if l == root {
			return true
		}
		l = s.locs[l].parent
	}
	return false
}

func (s *State) rootOf(l int) int {
	for s.locs[l].parent >= 0 {
		l = s.locs[l].parent
	}
	return l
}

// detach cuts the objects held in location l (about to be overwritten) loose.
func (s *State) detach(l int) {
	for i := range s.locs {
		r := &s.locs[i]
		if r.parent >= 0 && r.step.k == stObj && s.directlyUnder(r.parent, l) {
			c := s.content(i)
			r = &s.locs[i]
			r.parent = -1
			r.content = c
			r.detached = true
			r.step = Step{}
		}
	}
}

// freeze forbids writes to the object o (it is reachable from two places).
func (s *State) freeze(o int) {
	s.locs[o].frozen = true
	s.locs[o].freshIf = nil
}

// provers for the conditions of promised freshness
func (ex *Exec) settleUp(st *State, l int) {
	for ; l >= 0; l = st.locs[l].parent {
		r := &st.locs[l]
		if f := r.freshIf; f != nil && r.frozen {
			st.settleFresh(l)
			if st.locs[l].freshIf != nil && ex.pv.quickTrue(st, f) {
				st.assume(f)
				st.settleFresh(l)
			}
		}
	}
}

// settleFresh makes o fresh if a callee promised it and the condition of the
// promise is known to hold by now.
func (s *State) settleFresh(o int) {
	if f := s.locs[o].freshIf; f != nil && s.simp(f) == tTrue {
		l := &s.locs[o]
		l.fresh, l.frozen, l.alias, l.freshIf = true, false, false, nil
	}
}
