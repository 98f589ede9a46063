package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type phiKind uint8

const (
	phUnchanged phiKind = iota
	phStride
	phFresh
)

type phiInfo struct {
	p      *ssa.Phi
	kind   phiKind
	hkind  phiKind // kind when the header was abstracted
	stride *big.Int
	// slices
	fresh, param, alias, eaten, frozen, cut bool
	lenStride                               *big.Int
	lenTried                                bool
	notNil                                  bool
	first                                   bool
}

type loopInfo struct {
	h      *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	phis   []*phiInfo
	entry  []Val
	ents   map[string]wEnt
	flags  map[int]uint8
	no     int
	nlocs  int
	spec   *LoopSpec
	specOf *Contract
	alias  map[string]string
}

// loopOrdinal numbers the loops of a function by position.
func loopOrdinal(h *ssa.BasicBlock) int {
	n := 0
	for _, b := range h.Parent().Blocks {
		if loopBlocks(b) != nil {
			n++
		}
		if b == h {
			return n
		}
	}
	return n
}

func (ex *Exec) enterLoop(st *State, fi int, h, from *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, k cont) {
	L := &loopInfo{h: h, blocks: blocks, ents: map[string]wEnt{}, flags: map[int]uint8{}, no: loopOrdinal(h)}
	pi := predIndex(h, from)
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.val(st, fi, p.Edges[pi])
		L.entry = append(L.entry, v)
		info := &phiInfo{p: p, first: true}
		L.phis = append(L.phis, info)
	}
	ex.findSpec(st, fi, L)
	// explore until the abstraction of the loop state is stable
	for round := 0; ; round++ {
		if round > 12 {
			ex.unsup("loop in %s: no stable abstraction", h.Parent())
		}
		L.children(st)
		L.nlocs = len(st.locs)
		hs := st.clone()
		n := ex.header(hs, fi, L)
		changed := false
		wl := &wlog{ents: map[string]wEnt{}, max: len(hs.locs), mark: freshNo(n) - 1, up: hs.log}
		wl.mark = L.mark(st, n)
		outer := hs.log
		hs.log = wl
		ex.dry++
		dryLoops[h]++
		base := hs.clone()
		hs.loops = append(hs.loops, loopCtx{frame: fi, header: h, blocks: blocks, log: outer, back: func(bs *State, bf *ssa.BasicBlock) {
			if L.back(ex, base, bs, fi, bf, n) {
				changed = true
			}
		}})
		ex.headerBody(hs, fi, L, func(*State, []Val) {})
		ex.dry--
		dryLoops[h]--
		for key, e := range wl.ents {
			if _, ok := L.ents[key]; !ok {
				L.ents[key] = e
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	L.children(st)
	L.nlocs = len(st.locs)
	// entry obligations
	if L.spec != nil {
		es := st.clone()
		es.ghostN = append(es.ghostN, mkInt(0))
		for i, ph := range L.phis {
			ex.setPhi(es, fi, ph.p, L.entry[i])
		}
		for _, c := range L.spec.Inv {
			if g, ok := ex.invTerm(es, fi, L, c, true); ok {
				ex.check(es, fmt.Sprintf("loop%d-entry", L.no), c.Label, c.Props, g)
			}
		}
	}
	n := ex.header(st, fi, L)
	outer := st.log
	wl := &wlog{ents: map[string]wEnt{}, max: len(st.locs), mark: L.mark(st, n), up: outer}
	st.log = wl
	base := st.clone()
	st.loops = append(st.loops, loopCtx{frame: fi, header: h, blocks: blocks, log: outer, back: func(bs *State, bf *ssa.BasicBlock) {
		for key := range wl.ents {
			if _, ok := L.ents[key]; !ok {
				ex.unsup("loop in %s writes an unexpected location", h.Parent())
			}
		}
		if L.back(ex, base, bs, fi, bf, n) {
			ex.unsup("loop in %s: abstraction not stable", h.Parent())
		}
		if L.spec == nil {
			return
		}
		pi := predIndex(h, bf)
		vals := make([]Val, len(L.phis))
		for i, ph := range L.phis {
			vals[i] = ex.val(bs, fi, ph.p.Edges[pi])
		}
		for i, ph := range L.phis {
			ex.setPhi(bs, fi, ph.p, vals[i])
		}
		bs.ghostN = append(bs.ghostN[:len(bs.ghostN)-1:len(bs.ghostN)-1], mkAdd(n, mkInt(1)))
		for _, c := range L.spec.Inv {
			if g, ok := ex.invTerm(bs, fi, L, c, true); ok {
				ex.check(bs, fmt.Sprintf("loop%d-preserve", L.no), c.Label, c.Props, g)
			}
		}
	}})
	ex.headerBody(st, fi, L, k)
}

// mark: constants up to this number existed before the loop.
func (L *loopInfo) mark(st *State, n *Term) int { return freshNo(n) - 1 }

// children makes sure the written locations exist in the entry state.
func (L *loopInfo) children(st *State) {
	var keys []string
	for k := range L.ents {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := L.ents[k]
		l := e.anc
		for i, s := range e.steps {
			l = st.child(l, s, e.sorts[i], e.gts[i])
		}
	}
}

// headerBody runs the header after its phis.
func (ex *Exec) headerBody(st *State, fi int, L *loopInfo, k cont) {
	i := 0
	for ; i < len(L.h.Instrs); i++ {
		if _, ok := L.h.Instrs[i].(*ssa.Phi); !ok {
			break
		}
	}
	ex.tick(st)
	ex.instrs(st, fi, L.h, i, k)
}

func (ex *Exec) setPhi(st *State, fi int, p *ssa.Phi, v Val) {
	ex.set(st, fi, p, v)
	if p.Comment != "" {
		ex.fr(st, fi).names[p.Comment] = p
	}
}

// header turns st into the state at an arbitrary iteration of the loop.
func (ex *Exec) header(st *State, fi int, L *loopInfo) *Term {
	n := mkFresh("n", sInt)
	st.assume(mkLe(mkInt(0), n))
	st.ghostN = append(st.ghostN[:len(st.ghostN):len(st.ghostN)], n)
	for l, f := range L.flags {
		setFlags(st, l, f)
	}
	var keys []string
	for k := range L.ents {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	lens := map[*Term]*Term{}
	for _, k := range keys {
		e := L.ents[k]
		l := e.anc
		for i, s := range e.steps {
			l = st.child(l, s, e.sorts[i], e.gts[i])
		}
		old := st.content(l)
		ex.havocLoop(st, l)
		if e.elem {
			nl := mkLen(st.content(l))
			if nl.Kind == KLen {
				lens[nl] = mkLen(old)
			}
			st.assume(mkEq(nl, mkLen(old)))
		}
	}
	for i, ph := range L.phis {
		v := L.entry[i]
		ph.hkind = ph.kind
		switch ph.kind {
		case phUnchanged:
		case phStride:
			t := mkAdd(v.(*Term), mkMul(mkBig(ph.stride), n))
			st.assume(mkLe(mkBig(minI64), t))
			st.assume(mkLe(t, mkBig(maxI64)))
			v = t
		case phFresh:
			gt := ph.p.Type()
			if s, ok := v.(Slice); ok {
				c := mkFresh(hint(ph.p), ex.w.sortOf(gt))
				l := st.newRoot(c, gt)
				st.locs[l].fresh = ph.fresh
				st.locs[l].param = ph.param
				st.locs[l].alias = ph.alias
				st.locs[l].eaten = ph.eaten
				st.locs[l].frozen = ph.frozen
				st.assume(ex.w.typeFact(c, gt))
				ns := Slice{loc: l, off: mkInt(0), n: mkLen(c), cut: ph.cut}
				if ph.notNil {
					ns.isNil = 2
				}
				if ph.lenStride != nil {
					st.assume(mkEq(mkLen(c), mkAdd(s.n, mkMul(mkBig(ph.lenStride), n))))
				}
				v = ns
			} else {
				v = ex.freshVal(st, gt, hint(ph.p))
				if o := st.objOf(v); o >= 0 {
					st.locs[o].frozen = true
				}
				if ph.notNil {
					st.assume(mkNot(ex.isNil(st, v)))
				}
				// typed nils do not appear in loop variables unless stored there
			}
		}
		ex.setPhi(st, fi, ph.p, v)
	}
	ex.condFact(st, fi, L, n, lens)
	if L.spec != nil {
		for _, c := range L.spec.Inv {
			if g, ok := ex.invTerm(st, fi, L, c, false); ok {
				if !st.assume(g) {
					break
				}
			}
		}
	}
	return n
}

func hint(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// havocLoop forgets a location that the loop may write.
func (ex *Exec) havocLoop(st *State, l int) {
	for i := range st.locs {
		r := st.locs[i]
		if r.parent >= 0 && r.step.k == stObj && i != l && st.isUnder(i, l) {
			c := mkFresh("lost", r.sort)
			st.locs[i].parent = -1
			st.locs[i].content = c
			st.locs[i].step = Step{}
			st.locs[i].frozen = true
			st.locs[i].freshIf = nil
			st.locs[i].detached = true
			if f := ex.w.typeFact(c, r.gt); f != tTrue {
				st.assume(f)
			}
		}
	}
	gt := st.locs[l].gt
	c := mkFresh("loop", st.locs[l].sort)
	ex.pv.noteType(c, gt)
	fz := st.locs[l].frozen
	st.locs[l].frozen = false
	up := []int{}
	for p := l; p >= 0; p = st.locs[p].parent {
		if st.locs[p].frozen {
			st.locs[p].frozen = false
			up = append(up, p)
		}
	}
	st.write(l, c)
	for _, p := range up {
		st.locs[p].frozen = true
	}
	st.locs[l].frozen = fz
	if gt != nil {
		if f := ex.w.typeFact(c, gt); f != tTrue {
			st.assume(f)
		}
		if ex.heapClass(gt) != nil {
			ex.loadRef(st, c, gt)
		}
	}
	if st.locs[l].step.k == stObj || st.locs[l].parent == -1 {
		if pt := ptrElem(gt); pt != nil {
			if _, cc := ex.w.classCtor(pt); cc != nil {
				st.assume(mkIs(cc, c))
			}
		}
	}
}

func getFlags(l *Loc) uint8 {
	f := uint8(0)
	for i, b := range []bool{l.alias, l.eaten, l.frozen, l.param} {
		if b {
			f |= 1 << uint(i)
		}
	}
	if !l.fresh {
		f |= 16
	}
	return f
}

func setFlags(st *State, l int, f uint8) {
	r := &st.locs[l]
	r.alias = r.alias || f&1 != 0
	r.eaten = r.eaten || f&2 != 0
	r.frozen = r.frozen || f&4 != 0
	r.param = r.param || f&8 != 0
	if f&16 != 0 {
		r.fresh = false
	}
}

// back compares the state at a back edge with the abstraction; it reports
// whether the abstraction had to be weakened.
func (L *loopInfo) back(ex *Exec, base, bs *State, fi int, from *ssa.BasicBlock, n *Term) bool {
	ch := false
	for l := 0; l < L.nlocs && l < len(bs.locs); l++ {
		f := getFlags(&bs.locs[l]) &^ getFlags(&base.locs[l])
		if f != 0 && L.flags[l]|f != L.flags[l] {
			L.flags[l] |= f
			ch = true
		}
	}
	pi := predIndex(L.h, from)
	for i, ph := range L.phis {
		nv := ex.val(bs, fi, ph.p.Edges[pi])
		hv := ex.val(base, fi, ph.p)
		switch ph.hkind {
		case phUnchanged:
			if sameVal(ex, bs, hv, nv) {
				if ph.kind == phStride { // another way round steps
					ph.kind = phFresh
				}
				continue
			}
			ch = true
			if ph.kind == phStride {
				if nt, ok := nv.(*Term); ok && ex.pv.quickTrue(bs, mkEq(nt, mkAdd(hv.(*Term), mkBig(ph.stride)))) {
					continue
				}
			}
			if ph.kind == phFresh {
				L.joinSlice(ex, bs, ph, hv, nv)
				continue
			}
			if nt, ok := nv.(*Term); ok && nt.Sort == sInt {
				ht := hv.(*Term)
				d := bs.simp(mkSub(stripWrap(bs.simp(nt)), bs.simp(ht)))
				if d.Kind == KInt && d.Int.Sign() != 0 && ex.pv.quickTrue(bs, mkEq(nt, mkAdd(ht, d))) {
					ph.kind = phStride
					ph.stride = d.Int
					continue
				}
			}
			ph.kind = phFresh
			ph.notNil = nilable(L.entry[i]) && ex.pv.quickTrue(bs, mkNot(ex.isNil(bs, L.entry[i]))) &&
				ex.pv.quickTrue(bs, mkNot(ex.isNil(bs, nv)))
			if s, ok := L.entry[i].(Slice); ok {
				ph.notNil = s.isNil == 2
				sl := base.locs[s.loc]
				ph.fresh = sl.fresh || sl.cap0
				ph.param = sl.param && !sl.cap0
				ph.alias = sl.alias && !sl.cap0
				ph.eaten = sl.eaten && !sl.cap0
				ph.frozen = sl.frozen && !sl.cap0
				ph.cut = s.cut
			}
			L.joinSlice(ex, bs, ph, hv, nv)
		case phStride:
			want := mkAdd(L.entry[i].(*Term), mkMul(mkBig(ph.stride), mkAdd(n, mkInt(1))))
			if ph.kind == phStride && !ex.pv.quickTrue(bs, mkEq(nv.(*Term), want)) {
				ph.kind = phFresh
				ch = true
			}
		case phFresh:
			if L.joinSlice(ex, bs, ph, hv, nv) {
				ch = true
			}
		}
	}
	return ch
}

func stripWrap(t *Term) *Term {
	if t.Kind == KWrap {
		return t.Args[0]
	}
	return t
}

func (L *loopInfo) joinSlice(ex *Exec, bs *State, ph *phiInfo, hv, nv Val) bool {
	s, ok := nv.(Slice)
	if !ok {
		if ph.notNil && !ex.pv.quickTrue(bs, mkNot(ex.isNil(bs, nv))) {
			ph.notNil = false
			return true
		}
		return false
	}
	ch := false
	l := bs.locs[s.loc]
	or := func(dst *bool, v bool) {
		if v && !*dst {
			*dst = true
			ch = true
		}
	}
	nf := l.fresh || l.cap0
	if ph.fresh && !nf {
		ph.fresh = false
		ch = true
	}
	or(&ph.param, l.param && !l.cap0)
	or(&ph.alias, l.alias && !l.cap0)
	or(&ph.eaten, l.eaten && !l.cap0)
	or(&ph.frozen, l.frozen && !l.cap0)
	or(&ph.cut, s.cut)
	if ph.notNil && s.isNil != 2 {
		ph.notNil = false
		ch = true
	}
	// length stride
	hs, ok := hv.(Slice)
	if !ok {
		return ch
	}
	d := bs.simp(mkSub(s.n, hs.n))
	switch {
	case !ph.lenTried:
		ph.lenTried = true
		if d.Kind == KInt {
			ph.lenStride = d.Int
		}
		ch = true
	case ph.lenStride != nil:
		if !(d.Kind == KInt && d.Int.Cmp(ph.lenStride) == 0) && !ex.pv.quickTrue(bs, mkEq(d, mkBig(ph.lenStride))) {
			ph.lenStride = nil
			ch = true
		}
	}
	return ch
}

// nilable: a pointer or interface value.
func nilable(v Val) bool {
	switch v.(type) {
	case Ref, Ptr:
		return true
	}
	return false
}

func sameVal(ex *Exec, st *State, a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.Sort == y.Sort && (st.simp(mkEq(x, y)) == tTrue || ex.pv.quickTrue(st, mkEq(x, y)))
	case Ref:
		y, ok := b.(Ref)
		return ok && x.loc == y.loc
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.loc == y.loc
	case Slice:
		y, ok := b.(Slice)
		return ok && x.loc == y.loc && st.simp(mkEq(x.off, y.off)) == tTrue && st.simp(mkEq(x.n, y.n)) == tTrue
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ok && x.t == y.t
	case Closure:
		y, ok := b.(Closure)
		return ok && x.fn == y.fn && len(x.bind) == 0
	case MapV:
		y, ok := b.(MapV)
		return ok && x.d == y.d
	}
	return false
}

// condFact: unless this is the first arrival, the loop condition held in the
// previous iteration. Only for conditions over loop-invariant terms and $n.
func (ex *Exec) condFact(st *State, fi int, L *loopInfo, n *Term, lens map[*Term]*Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported:
				return
			}
			panic(r)
		}
	}()
	s := st.clone()
	var cond *Term
	ex.dry++
	defer func() { ex.dry-- }()
	for _, in := range L.h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return
			}
			ex.callVals(s, fi, &x.Call, ex.callArgs(s, fi, &x.Call), x, func(s2 *State, res []Val) { ex.set(s2, fi, x, res[0]) })
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr:
			ex.set(s, fi, x.(ssa.Value), ex.simple(s, fi, x.(ssa.Value)))
		case *ssa.If:
			t, ok := ex.val(s, fi, x.Cond).(*Term)
			if !ok {
				return
			}
			in0, in1 := L.blocks[L.h.Succs[0]], L.blocks[L.h.Succs[1]]
			if in0 == in1 {
				return
			}
			cond = t
			if in1 {
				cond = mkNot(t)
			}
		default:
			return
		}
	}
	if cond == nil {
		return
	}
	if len(lens) > 0 {
		cond = newSubst(lens).app(cond)
	}
	ok := true
	mark := freshNo(n)
	walkTerm(cond, map[*Term]bool{}, func(x *Term) {
		if x.Kind == KConst && x.Fresh && freshNo(x) >= mark && x != n {
			ok = false
		}
	})
	if os.Getenv("GOCV_COND") != "" {
		fmt.Fprintln(os.Stderr, "COND", ok, cond.str(8), st.simp(cond).str(8))
	}
	if !ok || cond.Sort != sBool {
		return
	}
	prev := newSubst(map[*Term]*Term{n: mkConst("n$prev", sInt)}).app(cond)
	prev = newSubst(map[*Term]*Term{mkConst("n$prev", sInt): mkSub(n, mkInt(1))}).app(prev)
	st.assume(mkOr(mkEq(n, mkInt(0)), prev))
	// the counter is far from overflowing
	if b := mkLe(n, mkBig(new(big.Int).Sub(maxI64, big.NewInt(1)))); ex.pv.quickTrue(st, b) {
		st.assume(b)
		for _, t := range []*Term{n, mkAdd(n, mkInt(1))} {
			st.m[mkWrap(t)] = t
			st.sub = nil
		}
	}
}

// findSpec attaches the loop invariants of the contract.
func (ex *Exec) findSpec(st *State, fi int, L *loopInfo) {
	fn := L.h.Parent()
	key := funcKey(fn)
	if c := ex.w.specs.Contracts[key]; c != nil {
		if ls := c.Loops[L.no]; ls != nil {
			L.spec, L.specOf = ls, c
			return
		}
	}
	if fn == ex.fn || ex.con == nil {
		return
	}
	// a loop of an inlined function without its own invariants: a loop of the
	// function under verification may have moved here
	var nos []int
	for n := range ex.con.Loops {
		nos = append(nos, n)
	}
	sort.Ints(nos)
	for _, n := range nos {
		ls := ex.con.Loops[n]
		es := st.clone()
		es.ghostN = append(es.ghostN, mkInt(0))
		for i, ph := range L.phis {
			ex.setPhi(es, fi, ph.p, L.entry[i])
		}
		L.spec, L.specOf = ls, ex.con
		all := true
		for _, c := range ls.Inv {
			g, ok := ex.invTerm(es, fi, L, c, true)
			if !ok || !ex.pv.quickTrue(es, g) {
				all = false
				break
			}
		}
		if all {
			return
		}
		L.spec, L.specOf = nil, nil
	}
}

// invTerm elaborates a loop invariant in a state.
func (ex *Exec) invTerm(st *State, fi int, L *loopInfo, c Clause, report bool) (t *Term, ok bool) {
	en := ex.loopEnv(st, fi, L)
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(elabErr); is {
				ex.note("loop invariant " + c.Label + " dropped: " + e.msg)
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return en.boolT(c.E), true
}

func (ex *Exec) loopEnv(st *State, fi int, L *loopInfo) *Env {
	names := map[string]named{}
	for n, x := range ex.preNamed {
		names[n] = x
	}
	en := ex.env(st, ex.pre, names, false)
	filled := map[int]bool{}
	for _, e := range L.ents {
		if e.elem {
			l := e.anc
			for i, s := range e.steps {
				l = st.child(l, s, e.sorts[i], e.gts[i])
			}
			filled[l] = true
		}
	}
	add := func(n string, v ssa.Value) {
		// the current value of the source variable
		en.names[n] = func(old bool) (TV, bool) {
			if old {
				if x, ok := ex.preNamed[n]; ok {
					r := ex.tv(ex.pre, x.v, x.t)
					r.t = st.simp(r.t)
					return r, true
				}
				return TV{}, false
			}
			val, ok := ex.fr(st, fi).regs[v]
			if !ok {
				return TV{}, false
			}
			if a, ok := v.(*ssa.Alloc); ok {
				p, ok := val.(Ptr)
				if !ok {
					return TV{}, false
				}
				el := a.Type().Underlying().(*types.Pointer).Elem()
				return TV{st.content(p.loc), el}, true
			}
			r := ex.tv(st, val, v.Type())
			// a slice made before the loop and filled in place: what is built
			// so far are its first $n elements
			if x, ok := val.(Slice); ok && filled[x.loc] && len(st.ghostN) > 0 && r.t.Sort.Elem != nil {
				whole := r.t
				if c := st.content(x.loc); x.off == mkInt(0) && c.Sort == whole.Sort {
					whole = c
				}
				r.t = st.simp(mkTake(whole, st.ghostN[len(st.ghostN)-1]))
			}
			return r, true
		}
	}
	f := ex.fr(st, fi)
	var ns []string
	for n := range f.names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		add(n, f.names[n])
	}
	for _, ph := range L.phis {
		if ph.p.Comment != "" {
			add(ph.p.Comment, ph.p)
		}
	}
	for i := range st.ghostN {
		i := i
		t := st.ghostN[i]
		en.names[fmt.Sprintf("$n%d", i)] = func(bool) (TV, bool) { return TV{t: t}, true }
	}
	if k := len(st.ghostN); k > 0 {
		en.names["$n"] = func(bool) (TV, bool) { return TV{t: st.ghostN[k-1]}, true }
		if k > 1 {
			en.names["$outer"] = func(bool) (TV, bool) { return TV{t: st.ghostN[k-2]}, true }
		}
	}
	return en
}
