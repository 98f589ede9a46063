package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

// Obl is one proof obligation (all its instances over the paths).
type Obl struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Props   []string `json:"props,omitempty"`
	Count   int      `json:"instances"`
	Solver  int      `json:"by_solver"`
	Failed  int      `json:"failed"`
	Reason  string   `json:"reason,omitempty"`
	Model   string   `json:"model,omitempty"`
	Path    string   `json:"path,omitempty"`
	Seconds float64  `json:"seconds"`
}

type Exec struct {
	w            *World
	pv           *Prover
	con          *Contract
	fn           *ssa.Function
	key          string
	only         int // the case under verification, or -1
	dropped      map[string]bool
	used         map[string]bool
	obls         map[string]*Obl
	order        []string
	dry          int
	paths        int
	exits        int
	stopAt       time.Time
	pre          *State
	preNamed     map[string]named
	names        map[string]Val
	depth        int
	stack        []*ssa.Function
	notes        map[string]bool
	inlined      map[string]bool
	verbose      bool
	heapHavocked bool
}

func (ex *Exec) unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (ex *Exec) note(s string) { ex.notes[s] = true }

// check proves goal on the path and then assumes it.
func (ex *Exec) check(st *State, kind, label string, props []string, goal *Term) bool {
	goal = st.simp(goal)
	if ex.dry > 0 || kind == "ensures" && *fProp == safeProp && !contains(props, safeProp) {
		st.assume(goal)
		return true
	}
	name := ex.key + "/" + kind
	if label != "" {
		name += "#" + label
	}
	o := ex.obls[name]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Props: props}
		ex.obls[name] = o
		ex.order = append(ex.order, name)
	}
	o.Count++
	t0 := time.Now()
	ex.pv.at = name
	ok, bySolver, why, model := ex.pv.prove(st, goal)
	ex.pv.at = ""
	o.Seconds += time.Since(t0).Seconds()
	if bySolver {
		o.Solver++
	}
	if !ok {
		o.Failed++
		if o.Reason == "" {
			o.Reason = why
			o.Model = model
			o.Path = strings.Join(st.trace, " ")
		}
		if ex.verbose {
			fmt.Fprintf(os.Stderr, "FAIL %s: %s\n  goal %s\n  path %s\n%s\n", name, why, goal.str(12), strings.Join(st.trace, " "), model)
			if *fTrace {
				ps := st.clone()
				ps.assume(mkNot(goal))
				ex.pv.saturate(ps)
				for _, f := range ps.facts {
					fmt.Fprintf(os.Stderr, "  fact %s\n", f.str(9))
				}
			}
		}
	}
	st.assume(goal)
	return ok
}

// failed records an obligation that failed without a solver query.
func (ex *Exec) failed(st *State, kind, label string, props []string, why string) {
	if ex.dry > 0 {
		return
	}
	name := ex.key + "/" + kind
	if label != "" {
		name += "#" + label
	}
	o := ex.obls[name]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Props: props}
		ex.obls[name] = o
		ex.order = append(ex.order, name)
	}
	o.Count++
	o.Failed++
	if o.Reason == "" {
		o.Reason = why
		o.Path = strings.Join(st.trace, " ")
	}
	if ex.verbose {
		fmt.Fprintf(os.Stderr, "FAIL %s: %s\n  path %s\n", name, why, strings.Join(st.trace, " "))
	}
}

// ---------------------------------------------------------------- values

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 && b.Info()&types.IsString == 0 {
			return mkApp("const_"+sanitize(v.ExactString()), mkSort("O_"+sanitize(t.Underlying().String())))
		}
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(i)
		}
		b := new(big.Int)
		b.SetString(v.ExactString(), 10)
		return mkBig(b)
	}
	return mkApp("const_"+sanitize(v.ExactString()), mkSort("O_"+sanitize(t.Underlying().String())))
}

func (w *World) zero(t types.Type) *Term { return w.zeroSort(w.sortOf(t), t) }

func (w *World) zeroSort(s *Sort, t types.Type) *Term {
	if t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			var us []*Term
			z := w.zero(a.Elem())
			for i := int64(0); i < a.Len(); i++ {
				us = append(us, mkUnit(z))
			}
			return mkCat(s, us...)
		}
	}
	switch {
	case s == sInt:
		return mkInt(0)
	case s == sBool:
		return tFalse
	case s == sStr:
		return mkStr("")
	case s.Elem != nil:
		return mkEmpty(s)
	case s.Data != nil:
		if cl := w.classBySort(s); cl != nil && !cl.Heap {
			return mkCtor(cl.Null)
		}
		c := s.Data.Ctors[0]
		if len(c.Fields) == 0 {
			return mkCtor(c)
		}
		var as []*Term
		for _, f := range c.Fields {
			as = append(as, w.zeroSort(f.Sort, w.selGo[f.Sel]))
		}
		return mkCtor(c, as...)
	}
	return mkApp("zero_"+s.Name, s)
}

// typeFact is what the static Go type says about a term of its sort.
func (w *World) typeFact(t *Term, gt types.Type) *Term {
	if gt == nil {
		return tTrue
	}
	switch u := gt.Underlying().(type) {
	case *types.Pointer:
		if cl, c := w.classCtor(u.Elem()); cl != nil {
			if cl.Heap {
				return tTrue
			}
			return mkOr(mkIs(c, t), mkIs(cl.Null, t))
		}
	case *types.Interface:
		if cl, impl := w.implementers(gt); cl != nil && !cl.Heap {
			if len(impl) == len(cl.Impl) {
				return mkNot(mkIs(cl.TNil, t))
			}
			ds := []*Term{mkIs(cl.Null, t)}
			for _, n := range impl {
				ds = append(ds, mkIs(cl.ctors[n], t))
			}
			return mkOr(ds...)
		}
	case *types.Slice:
		if t.Sort.Elem != nil {
			return mkLe(mkLen(t), mkBig(new(big.Int).Lsh(bOne, 62)))
		}
	}
	return tTrue
}

// toVal makes a value of Go type gt whose content is the term t.
func (ex *Exec) toVal(st *State, t *Term, gt types.Type) Val {
	w := ex.w
	switch u := gt.Underlying().(type) {
	case *types.Pointer:
		if cl, c := w.classCtor(u.Elem()); cl != nil {
			if cl.Heap {
				return t
			}
			o := st.newRoot(t, gt)
			return Ptr{st.child(o, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, u.Elem())}
		}
		o := st.newRoot(t, gt)
		c := t.Sort.Data.Ctors[1]
		return Ptr{st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, u.Elem())}
	case *types.Interface:
		if cl := w.classOfIface(gt); cl != nil && !cl.Heap {
			return Ref{st.newRoot(t, gt)}
		}
	case *types.Slice:
		if t.Sort.Elem != nil {
			return Slice{loc: st.newRoot(t, gt), off: mkInt(0), n: mkLen(t)}
		}
	case *types.Map:
		if isMapSort(t.Sort) {
			o := st.newRoot(t, gt)
			c := t.Sort.Data.Ctors[1]
			return Ptr{st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, nil)}
		}
		return OpaqueV{t}
	case *types.Signature, *types.Chan:
		return OpaqueV{t}
	}
	return t
}

// freshVal is an arbitrary value of type gt.
func (ex *Exec) freshVal(st *State, gt types.Type, hint string) Val {
	if tu, ok := gt.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, ex.freshVal(st, tu.At(i).Type(), fmt.Sprintf("%s%d", hint, i)))
		}
		return r
	}
	c := mkFresh(hint, ex.w.sortOf(gt))
	ex.pv.noteType(c, gt)
	v := ex.toVal(st, c, gt)
	if f := ex.w.typeFact(c, gt); f != tTrue {
		st.assume(f)
	}
	if cl := ex.heapClass(gt); cl != nil {
		ex.refFacts(st, c, gt)
	}
	return v
}

func (ex *Exec) heapClass(gt types.Type) *Class {
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		if cl := ex.w.classOfStruct(p.Elem()); cl != nil && cl.Heap {
			return cl
		}
		return nil
	}
	if cl := ex.w.classOfIface(gt); cl != nil && cl.Heap {
		return cl
	}
	return nil
}

var alloc0 = mkConst("ALLOC0", sInt)

func (ex *Exec) refFacts(st *State, r *Term, gt types.Type) {
	st.assume(mkLe(mkInt(0), r))
	st.assume(mkLe(r, alloc0))
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		_, c := ex.w.classCtor(p.Elem())
		st.assume(mkOr(mkEq(r, mkInt(0)), mkIs(c, mkSelect(st.content(ex.heap(st)), r))))
	}
}

func (ex *Exec) heap(st *State) int {
	if st.heapL < 0 {
		for _, cl := range ex.w.classes {
			if cl.Heap {
				st.heapL = st.newRoot(mkConst("H0", heapSort(cl.Data.Sort)), nil)
				st.assume(mkLe(mkInt(0), alloc0))
			}
		}
	}
	return st.heapL
}

// objOf is the object location a pointer leads into (-1 for interior pointers).
func (st *State) objOf(v Val) int {
	switch x := v.(type) {
	case Ref:
		return x.loc
	case Ptr:
		l := st.locs[x.loc]
		if l.parent >= 0 && (l.step.k == stVariant || l.step.k == stOpt) {
			return l.parent
		}
	case Slice:
		return x.loc
	}
	return -1
}

// termOf is the content of a value.
func (ex *Exec) termOf(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return st.simp(x)
	case Ref:
		return st.content(x.loc)
	case Ptr:
		o := st.objOf(x)
		if o < 0 {
			ex.unsup("interior pointer used as a value")
		}
		return st.content(o)
	case Slice:
		t := st.content(x.loc)
		return st.simp(mkTake(mkDrop(t, st.simp(x.off)), st.simp(x.n)))
	case OpaqueV:
		return x.t
	case Closure:
		return mkApp("closure", mkSort("O_func"))
	}
	ex.unsup("value %T has no term", v)
	return nil
}

// seqOf is the visible content of a slice.
func (ex *Exec) seqOf(st *State, x Slice) *Term {
	t := st.content(x.loc)
	off, n := st.simp(x.off), st.simp(x.n)
	d := mkDrop(t, off)
	if st.simp(mkEq(mkSub(mkLen(t), off), n)) == tTrue {
		return st.simp(d)
	}
	return st.simp(mkTake(d, n))
}

func (ex *Exec) isNil(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if r := ex.w.nilTest(x); r != nil {
			return st.simp(r)
		}
	case Ref:
		return st.simp(ex.w.nilTest(st.content(x.loc)))
	case Ptr:
		o := st.objOf(x)
		if o < 0 {
			return tFalse
		}
		return st.simp(ex.w.nilTest(st.content(o)))
	case Slice:
		switch x.isNil {
		case 1:
			return tTrue
		case 2:
			return tFalse
		case 3: // nil exactly when it is empty
			return st.simp(mkEq(x.n, mkInt(0)))
		}
		b := mkFresh("isnil", sBool)
		st.assume(mkOr(mkNot(b), mkEq(x.n, mkInt(0))))
		return b
	case Closure:
		return tFalse
	case OpaqueV:
		return mkFresh("isnil", sBool)
	case MapV:
		return mkBool(x.d.isNil)
	}
	ex.unsup("nil test of %T", v)
	return nil
}

// loadFrom reads the value stored at a location.
func (ex *Exec) loadFrom(st *State, l int, gt types.Type) Val {
	w := ex.w
	if r := &st.locs[l]; r.parent >= 0 && r.step.k == stField && w.nonnil[r.step.ctor.Fields[r.step.i].Sel] {
		if n := w.nilTest(st.content(l)); n != nil && st.simp(n) != tFalse {
			st.assume(mkNot(n))
		}
	}
	switch u := gt.Underlying().(type) {
	case *types.Pointer:
		if cl, c := w.classCtor(u.Elem()); cl != nil {
			if cl.Heap {
				t := st.content(l)
				if st.simp(mkLe(t, alloc0)) != tTrue {
					ex.loadRef(st, t, gt)
				}
				return t
			}
			o := st.obj(l)
			ex.assumeType(st, o, gt)
			return Ptr{st.child(o, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, u.Elem())}
		}
		o := st.obj(l)
		c := st.locs[l].sort.Data.Ctors[1]
		return Ptr{st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, u.Elem())}
	case *types.Interface:
		if cl := w.classOfIface(gt); cl != nil {
			if cl.Heap {
				t := st.content(l)
				ex.loadRef(st, t, gt)
				return t
			}
			o := st.obj(l)
			ex.assumeType(st, o, gt)
			return Ref{o}
		}
	case *types.Slice:
		if st.locs[l].sort.Elem != nil {
			o := st.obj(l)
			ex.assumeType(st, o, gt)
			nl := 0
			if st.locs[o].cap0 {
				nl = 0
			}
			return Slice{loc: o, off: mkInt(0), n: st.simp(mkLen(st.content(o))), isNil: nl}
		}
	case *types.Map:
		if isMapSort(st.locs[l].sort) {
			o := st.obj(l)
			c := st.locs[l].sort.Data.Ctors[1]
			return Ptr{st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, nil)}
		}
		return OpaqueV{st.content(l)}
	case *types.Signature, *types.Chan:
		return OpaqueV{st.content(l)}
	}
	return st.content(l)
}

// loadRef: refs read from memory were allocated before.
func (ex *Exec) loadRef(st *State, t *Term, gt types.Type) {
	if t.Kind == KInt {
		return
	}
	if st.simp(mkLe(t, mkAdd(alloc0, mkInt(int64(st.alloc))))) != tTrue {
		st.assume(mkLe(t, mkAdd(alloc0, mkInt(int64(st.alloc)))))
	}
	if st.simp(mkLe(mkInt(0), t)) != tTrue {
		st.assume(mkLe(mkInt(0), t))
	}
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		_, c := ex.w.classCtor(p.Elem())
		f := st.simp(mkOr(mkEq(t, mkInt(0)), mkIs(c, mkSelect(st.content(ex.heap(st)), t))))
		if f != tTrue {
			st.assume(f)
		}
	}
}

func (ex *Exec) assumeType(st *State, o int, gt types.Type) {
	t := st.content(o)
	f := st.simp(ex.w.typeFact(t, gt))
	if f != tTrue {
		st.assume(f)
	}
}

// storeTo writes value v of type gt to location l.
func (ex *Exec) storeTo(st *State, l int, v Val, gt types.Type) {
	ex.settleUp(st, l)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(frozenErr); ok {
				ex.failed(st, "frame", "write-to-shared", nil, "a value reachable from two places is modified")
				return
			}
			panic(r)
		}
	}()
	o := -1
	if r := &st.locs[l]; r.parent >= 0 && r.step.k == stField && ex.w.nonnil[r.step.ctor.Fields[r.step.i].Sel] {
		if _, ok := v.(Slice); !ok {
			if n := ex.isNil(st, v); n != tFalse {
				ex.check(st, "safe", "nil-stored:"+r.step.ctor.Fields[r.step.i].Name, nil, mkNot(n))
			}
		}
	}
	switch x := v.(type) {
	case Ref:
		o = x.loc
	case Ptr:
		o = st.objOf(x)
		if o < 0 {
			// the address of a package variable that is never written: as good
			// as a copy of it
			if r := &st.locs[x.loc]; !r.constant || isOpt(r.sort) {
				ex.unsup("interior pointer stored")
			}
			os := ex.w.optSort(st.locs[x.loc].sort)
			o = st.newRoot(mkCtor(os.Data.Ctors[1], st.content(x.loc)), gt)
			st.locs[o].frozen = true
		}
	case Slice:
		t := ex.seqOf(st, x)
		whole := st.simp(mkEq(x.off, mkInt(0))) == tTrue && st.simp(mkEq(x.n, mkLen(st.content(x.loc)))) == tTrue
		st.detach(l)
		st.settleFresh(x.loc)
		if st.locs[x.loc].parent == -1 && !st.locs[x.loc].frozen && whole && !st.isUnder(l, x.loc) {
			st.write(l, t)
			ex.move(st, x.loc, l)
			return
		}
		st.write(l, t)
		c := st.obj(l)
		st.settleFresh(x.loc)
		src := st.locs[x.loc]
		n := &st.locs[c]
		n.alias = true
		n.home = src.home
		n.fresh = src.fresh
		n.param = src.param
		n.eaten = src.eaten || x.cut
		n.frozen = t != mkEmpty(t.Sort) && !(src.detached || src.parent == -1)
		if !src.detached && t.Kind != KEmpty {
			// the same array is visible from two live places
			st.locs[x.loc].frozen = true
			st.locs[x.loc].freshIf = nil
			st.locs[c].frozen = true
			st.locs[c].alias = true
		} else if src.detached {
			st.locs[c].alias = src.alias
			st.locs[c].frozen = src.frozen
		}
		return
	}
	if o < 0 {
		t := ex.termOf(st, v)
		st.detach(l)
		st.write(l, t)
		return
	}
	t := st.content(o)
	if cl := ex.w.classBySort(t.Sort); cl != nil && st.simp(mkIs(cl.TNil, t)) != tFalse {
		ex.check(st, "safe", "typed-nil-stored", nil, mkNot(mkIs(cl.TNil, t)))
	}
	if st.locs[o].parent == l {
		return // storing back what is there
	}
	st.detach(l)
	t = st.content(o)
	st.write(l, t)
	if st.simp(ex.w.nilTest(t)) == tTrue {
		return
	}
	st.settleFresh(o)
	if st.locs[o].parent == -1 && !st.locs[o].frozen && !st.isUnder(l, o) {
		ex.move(st, o, l)
		return
	}
	st.freeze(o)
	c := st.obj(l)
	st.freeze(c)
}

// move makes root object o the object held in location l.
func (ex *Exec) move(st *State, o, l int) {
	// a lazily created object child of l would be a second identity
	for i := range st.locs {
		if i != o && st.locs[i].parent == l && st.locs[i].step.k == stObj {
			c := st.content(i)
			st.locs[i].parent = -1
			st.locs[i].content = c
			st.locs[i].step = Step{}
			st.locs[i].detached = true
		}
	}
	r := &st.locs[o]
	r.parent = l
	r.step = Step{k: stObj}
	r.content = nil
	r.detached = false
}

// newObject allocates storage for a Go type and returns the pointer to it.
func (ex *Exec) newObject(st *State, t types.Type) Val {
	w := ex.w
	if cl, c := w.classCtor(t); cl != nil {
		z := mkCtor(c, w.zero(t))
		if cl.Heap {
			st.alloc++
			ref := mkAdd(alloc0, mkInt(int64(st.alloc)))
			h := ex.heap(st)
			cell := st.child(h, Step{k: stHeap, t: ref}, cl.Data.Sort, nil)
			st.write(cell, z)
			return ref
		}
		o := st.newRoot(z, types.NewPointer(t))
		st.locs[o].fresh = true
		return Ptr{st.child(o, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, t)}
	}
	s := w.sortOf(types.NewPointer(t))
	var c *Ctor
	if isOpt(s) {
		c = s.Data.Ctors[1]
	} else {
		s = w.optSort(w.sortOf(t))
		c = s.Data.Ctors[1]
	}
	o := st.newRoot(mkCtor(c, w.zeroSort(c.Fields[0].Sort, t)), types.NewPointer(t))
	st.locs[o].fresh = true
	return Ptr{st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, t)}
}

// pointee resolves a pointer value to the location it points to, with the
// nil-dereference obligation.
func (ex *Exec) pointee(st *State, v Val, gt types.Type, what string) int {
	switch x := v.(type) {
	case Ptr:
		o := st.objOf(x)
		if o >= 0 {
			l := st.locs[x.loc]
			ok := mkIs(l.step.ctor, st.content(o))
			if st.simp(ok) != tTrue {
				ex.check(st, "safe", "nil-deref:"+what, nil, ok)
			}
		}
		return x.loc
	case *Term: // heap reference
		el := gt.Underlying().(*types.Pointer).Elem()
		cl, c := ex.w.classCtor(el)
		if cl == nil || !cl.Heap {
			ex.unsup("dereference of %s", gt)
		}
		h := ex.heap(st)
		ok := mkIs(c, mkSelect(st.content(h), x))
		nz := mkNot(mkEq(x, mkInt(0)))
		if st.simp(nz) != tTrue {
			ex.check(st, "safe", "nil-deref:"+what, nil, nz)
		}
		if st.simp(ok) != tTrue {
			ex.check(st, "safe", "nil-deref:"+what, nil, ok)
		}
		cell := st.child(h, Step{k: stHeap, t: x}, cl.Data.Sort, nil)
		return st.child(cell, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, el)
	}
	ex.unsup("dereference of %T (%s)", v, what)
	return -1
}

// ---------------------------------------------------------------- execution

type cont func(st *State, res []Val)

func (ex *Exec) fr(st *State, fi int) *frameSt { return st.frames[fi] }

func (ex *Exec) val(st *State, fi int, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.Function:
		return Closure{fn: x}
	case *ssa.Builtin:
		return Closure{blt: x}
	case *ssa.Global:
		return Ptr{ex.global(st, x)}
	}
	r, ok := ex.fr(st, fi).regs[v]
	if !ok {
		ex.unsup("no value for %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (ex *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		z := ex.w.zero(t)
		switch t.Underlying().(type) {
		case *types.Map:
			if isMapSort(z.Sort) {
				break
			}
			return MapV{&mapData{isNil: true}}
		case *types.Signature, *types.Chan:
			return OpaqueV{z}
		}
		v := ex.toVal(st, z, t)
		if s, ok := v.(Slice); ok {
			s.isNil = 1
			st.locs[s.loc].cap0 = true
			st.locs[s.loc].fresh = true
			return s
		}
		return v
	}
	return constTerm(c.Value, t)
}

func (ex *Exec) set(st *State, fi int, v ssa.Value, x Val) { ex.fr(st, fi).regs[v] = x }

func (ex *Exec) tick(st *State) {
	if time.Now().After(ex.stopAt) {
		ex.unsup("time limit for the function reached")
	}
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, parent int) int {
	st.frames = append(st.frames, &frameSt{fn: fn, regs: map[ssa.Value]Val{}, names: map[string]ssa.Value{}, parent: parent})
	return len(st.frames) - 1
}

// inline runs the body of fn on args.
func (ex *Exec) inline(st *State, parent int, fn *ssa.Function, args []Val, bind []Val, k cont) {
	if len(fn.Blocks) == 0 {
		ex.unsup("function without body: %s", fn)
	}
	n := 0
	for _, f := range ex.stack {
		if f == fn {
			n++
		}
	}
	if n > 0 {
		ex.unsup("recursive call without contract: %s", fn)
	}
	if len(ex.stack) > 40 {
		ex.unsup("call depth")
	}
	if fn != ex.fn {
		ex.inlined[fn.String()] = true
	}
	fi := ex.pushFrame(st, fn, parent)
	for i, p := range fn.Params {
		ex.set(st, fi, p, args[i])
		ex.fr(st, fi).names[p.Name()] = p
	}
	for i, p := range fn.FreeVars {
		ex.set(st, fi, p, bind[i])
	}
	saved := ex.stack
	ex.stack = append(ex.stack[:len(ex.stack):len(ex.stack)], fn)
	ex.block(st, fi, fn.Blocks[0], nil, func(st *State, res []Val) {
		s := ex.stack
		ex.stack = saved
		k(st, res)
		ex.stack = s
	})
	ex.stack = saved
}

// jump transfers control from block to a successor.
func (ex *Exec) jump(st *State, fi int, from, to *ssa.BasicBlock, k cont) {
	// loops of this frame
	for i := len(st.loops) - 1; i >= 0; i-- {
		lc := st.loops[i]
		if lc.frame != fi {
			break
		}
		if lc.header == to {
			st.loops = st.loops[:i+1]
			lc.back(st, from)
			return
		}
		if !lc.blocks[to] {
			if lc.blocks != nil && ex.dryExit(lc) {
				return
			}
			st.loops = st.loops[:i]
			st.log = lc.log
			if len(st.ghostN) > 0 {
				st.ghostN = st.ghostN[:len(st.ghostN)-1]
			}
			continue
		}
		break
	}
	if bl := loopBlocks(to); bl != nil && from != nil && !ex.emptyRange(st, fi, to) && !ex.counted(st, fi, from, to) {
		ex.enterLoop(st, fi, to, from, bl, k)
		return
	}
	ex.block(st, fi, to, from, k)
}

// counted: a short loop that counts between constants and has no invariant of
// its own is run as it is.
func (ex *Exec) counted(st *State, fi int, from, h *ssa.BasicBlock) (ok bool) {
	if c := ex.w.specs.Contracts[funcKey(h.Parent())]; c != nil && c.Loops[loopOrdinal(h)] != nil {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			ok = false
		}
	}()
	s := st.clone()
	ex.dry++
	defer func() { ex.dry-- }()
	pi := predIndex(h, from)
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range h.Instrs {
		if p, is := in.(*ssa.Phi); is {
			ps = append(ps, p)
			vs = append(vs, ex.val(s, fi, p.Edges[pi]))
		}
	}
	for i, p := range ps {
		ex.set(s, fi, p, vs[i])
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			b, is := x.Call.Value.(*ssa.Builtin)
			if !is || b.Name() != "len" {
				return false
			}
			ex.callVals(s, fi, &x.Call, ex.callArgs(s, fi, &x.Call), x, func(s2 *State, res []Val) { ex.set(s2, fi, x, res[0]) })
		case *ssa.BinOp:
			ex.set(s, fi, x, ex.simple(s, fi, x))
		case *ssa.If:
			b, is := x.Cond.(*ssa.BinOp)
			if !is {
				return false
			}
			l, ok1 := ex.val(s, fi, b.X).(*Term)
			r, ok2 := ex.val(s, fi, b.Y).(*Term)
			if !ok1 || !ok2 {
				return false
			}
			l, r = s.simp(l), s.simp(r)
			if l.Kind != KInt || r.Kind != KInt {
				return false
			}
			d := new(big.Int).Sub(r.Int, l.Int)
			return d.IsInt64() && d.Int64() <= 8 && d.Int64() >= -8
		default:
			return false
		}
	}
	return false
}

// emptyRange: the loop runs over a map known to be empty.
func (ex *Exec) emptyRange(st *State, fi int, h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Next:
			it, ok := ex.val(st, fi, x.Iter).(MapV)
			return ok && len(it.d.keys) == 0
		}
		return false
	}
	return false
}

var dryLoops = map[*ssa.BasicBlock]int{}

func (ex *Exec) dryExit(lc loopCtx) bool { return dryLoops[lc.header] > 0 }

// loopBlocks returns the natural loop of header h, or nil.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := loopMemo[h]; ok {
		return r
	}
	var bl map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if h.Dominates(p) {
			if bl == nil {
				bl = map[*ssa.BasicBlock]bool{h: true}
			}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if bl[b] {
					return
				}
				bl[b] = true
				for _, q := range b.Preds {
					walk(q)
				}
			}
			walk(p)
		}
	}
	loopMemo[h] = bl
	return bl
}

var loopMemo = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

func (ex *Exec) block(st *State, fi int, b, prev *ssa.BasicBlock, k cont) {
	ex.tick(st)
	// phis
	i := 0
	if prev != nil {
		pi := predIndex(b, prev)
		type pv struct {
			p *ssa.Phi
			v Val
		}
		var ps []pv
		for ; i < len(b.Instrs); i++ {
			p, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, pv{p, ex.val(st, fi, p.Edges[pi])})
		}
		for _, x := range ps {
			ex.set(st, fi, x.p, x.v)
			if x.p.Comment != "" {
				ex.fr(st, fi).names[x.p.Comment] = x.p
			}
		}
	}
	ex.instrs(st, fi, b, i, k)
}

// branch continues on both outcomes of cond.
func (ex *Exec) branch(st *State, cond *Term, label string, yes, no func(st *State)) {
	cond = st.simp(cond)
	if cond == tTrue {
		yes(st)
		return
	}
	if cond == tFalse {
		no(st)
		return
	}
	a := st.clone()
	if a.assume(cond) && ex.feasible(a) {
		if label != "" {
			a.trace = append(a.trace, label)
		}
		yes(a)
	}
	b := st.clone()
	if b.assume(mkNot(cond)) && ex.feasible(b) {
		if label != "" {
			b.trace = append(b.trace, "!"+label)
		}
		no(b)
	}
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return !ex.pv.infeasible(st)
}

func (ex *Exec) instrs(st *State, fi int, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
			if id := identName(in); id != "" && !in.IsAddr {
				if _, ok := ex.fr(st, fi).regs[in.X]; ok {
					ex.fr(st, fi).names[id] = in.X
				}
			}
		case *ssa.If:
			c := ex.termOf(st, ex.val(st, fi, in.Cond))
			pos := ex.w.prog.Fset.Position(condPos(in))
			ex.branch(st, c, fmt.Sprintf("L%d", pos.Line), func(s *State) { ex.jump(s, fi, b, b.Succs[0], k) },
				func(s *State) { ex.jump(s, fi, b, b.Succs[1], k) })
			return
		case *ssa.Jump:
			ex.jump(st, fi, b, b.Succs[0], k)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, ex.val(st, fi, r))
			}
			ex.paths++
			k(st, rs)
			return
		case *ssa.Panic:
			ex.failed(st, "safe", "panic", nil, "explicit panic reachable")
			if ex.dry == 0 {
				// reachable only if the path is feasible
			}
			return
		case *ssa.RunDefers:
			f := ex.fr(st, fi)
			ds, dv := f.defers, f.dvals
			f.defers, f.dvals = nil, nil
			next := i + 1
			var run func(st *State, j int)
			run = func(st *State, j int) {
				if j < 0 {
					ex.instrs(st, fi, b, next, k)
					return
				}
				ex.callVals(st, fi, &ds[j].Call, dv[j], ds[j], func(st *State, _ []Val) { run(st, j-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Defer:
			f := ex.fr(st, fi)
			f.defers = append(f.defers[:len(f.defers):len(f.defers)], in)
			f.dvals = append(f.dvals[:len(f.dvals):len(f.dvals)], ex.callArgs(st, fi, &in.Call))
		case *ssa.Call:
			next := i + 1
			args := ex.callArgs(st, fi, &in.Call)
			ex.callVals(st, fi, &in.Call, args, in, func(st *State, res []Val) {
				if st.dead {
					return
				}
				switch len(res) {
				case 0:
				case 1:
					ex.set(st, fi, in, res[0])
				default:
					ex.set(st, fi, in, Tuple(res))
				}
				ex.instrs(st, fi, b, next, k)
			})
			return
		case *ssa.Range:
			it, ok := ex.val(st, fi, in.X).(MapV)
			if !ok || len(it.d.keys) > 0 {
				ex.unsup("range over a map that is not known to be empty")
			}
			ex.set(st, fi, in, it)
		case *ssa.Next:
			tt := in.Type().(*types.Tuple)
			tup := Tuple{tFalse}
			for j := 1; j < 3; j++ {
				if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					tup = append(tup, tFalse)
					continue
				}
				tup = append(tup, OpaqueV{})
			}
			ex.set(st, fi, in, tup)
		case *ssa.TypeAssert:
			next := i + 1
			ex.typeAssert(st, fi, in, func(st *State, v Val) {
				ex.set(st, fi, in, v)
				ex.instrs(st, fi, b, next, k)
			})
			return
		case *ssa.Lookup:
			next := i + 1
			ex.lookup(st, fi, in, func(st *State, v Val) {
				ex.set(st, fi, in, v)
				ex.instrs(st, fi, b, next, k)
			})
			return
		case *ssa.Store:
			l := ex.pointee(st, ex.val(st, fi, in.Addr), in.Addr.Type(), "store")
			ex.storeTo(st, l, ex.val(st, fi, in.Val), in.Val.Type())
		case *ssa.Go, *ssa.Send, *ssa.Select:
			ex.unsup("concurrency instruction %s", in)
		case *ssa.MapUpdate:
			m, ok := ex.val(st, fi, in.Map).(Ptr)
			if !ok {
				ex.unsup("map update")
			}
			l := ex.pointee(st, m, in.Map.Type(), "map")
			a := st.content(l)
			el := heapElem[a.Sort].Data.Ctors[1]
			key := ex.termOf(st, ex.val(st, fi, in.Key))
			v := ex.val(st, fi, in.Value)
			ex.storeTo(st, l, st.simp(mkStore(a, key, mkCtor(el, ex.termOf(st, v)))), nil)
		case ssa.Value:
			ex.set(st, fi, in, ex.simple(st, fi, in))
		default:
			ex.unsup("instruction %T", in)
		}
	}
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	return in.Pos()
}

// simple evaluates instructions without control flow.
func (ex *Exec) simple(st *State, fi int, v ssa.Value) Val {
	w := ex.w
	switch in := v.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		p := ex.newObject(st, t)
		if in.Comment != "" {
			ex.fr(st, fi).names[in.Comment] = in
		}
		return p
	case *ssa.FieldAddr:
		x := ex.val(st, fi, in.X)
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		f := st0.Underlying().(*types.Struct).Field(in.Field)
		l := ex.pointee(st, x, in.X.Type(), f.Name())
		if !(st.locs[l].sort.Data != nil && w.ctorGo[st.locs[l].sort.Data.Ctors[0]] != nil) {
			// field of an opaque struct
			ex.unsup("field %s of opaque struct %s", f.Name(), st0)
		}
		c := st.locs[l].sort.Data.Ctors[0]
		return Ptr{st.child(l, Step{k: stField, ctor: c, i: in.Field}, c.Fields[in.Field].Sort, f.Type())}
	case *ssa.Field:
		t := ex.termOf(st, ex.val(st, fi, in.X))
		if t.Sort.Data == nil {
			ex.unsup("field of opaque struct value")
		}
		c := t.Sort.Data.Ctors[0]
		return ex.toVal(st, st.simp(mkSel(c, in.Field, t)), in.Type())
	case *ssa.IndexAddr:
		i := ex.termOf(st, ex.val(st, fi, in.Index))
		switch x := ex.val(st, fi, in.X).(type) {
		case Slice:
			ex.bounds(st, i, st.simp(x.n), "index")
			el := in.X.Type().Underlying().(*types.Slice).Elem()
			return Ptr{st.child(x.loc, Step{k: stIndex, t: st.simp(mkAdd(x.off, i))}, w.sortOf(el), el)}
		case Ptr: // pointer to array
			l := ex.pointee(st, x, in.X.Type(), "array")
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			ex.bounds(st, i, mkInt(at.Len()), "index")
			return Ptr{st.child(st.obj(l), Step{k: stIndex, t: st.simp(i)}, w.sortOf(at.Elem()), at.Elem())}
		case *Term:
			if x.Sort == sStr {
				ex.unsup("address of byte in byte slice")
			}
		}
		ex.unsup("IndexAddr of %s", in.X.Type())
	case *ssa.Index:
		i := ex.termOf(st, ex.val(st, fi, in.Index))
		x := ex.termOf(st, ex.val(st, fi, in.X))
		if x.Sort == sStr {
			ex.bounds(st, i, mkStrLen(x), "index")
			r := mkApp("byteat", sInt, x, i)
			return r
		}
		ex.bounds(st, i, mkLen(x), "index")
		return ex.toVal(st, st.simp(mkNth(x, i)), in.Type())
	case *ssa.UnOp:
		x := ex.val(st, fi, in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if m, ok := ex.w.globalMap(g); ok {
					return m
				}
			}
			l := ex.pointee(st, x, in.X.Type(), "load")
			return ex.loadFrom(st, l, in.Type())
		case token.SUB:
			t := ex.termOf(st, x)
			if t.Sort != sInt {
				ex.unsup("negation of %s", in.X.Type())
			}
			return st.simp(ex.wrapTo(mkNeg(t), in.Type()))
		case token.NOT:
			return mkNot(ex.termOf(st, x))
		}
		return ex.opaqueOp(st, in.Op.String(), in.Type(), ex.termOf(st, x))
	case *ssa.BinOp:
		return ex.binop(st, in, ex.val(st, fi, in.X), ex.val(st, fi, in.Y))
	case *ssa.Convert:
		return ex.convert(st, ex.val(st, fi, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return ex.val(st, fi, in.X)
	case *ssa.ChangeInterface:
		return ex.changeIface(st, ex.val(st, fi, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		return ex.makeIface(st, ex.val(st, fi, in.X), in.X.Type(), in.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, fi, b))
		}
		return Closure{fn: in.Fn.(*ssa.Function), bind: bs}
	case *ssa.MakeSlice:
		n := ex.termOf(st, ex.val(st, fi, in.Len))
		c := ex.termOf(st, ex.val(st, fi, in.Cap))
		ex.check(st, "safe", "makeslice", nil, mkAnd(mkLe(mkInt(0), n), mkLe(n, c)))
		s := w.sortOf(in.Type())
		if s.Elem == nil {
			if st.simp(n) == mkInt(0) {
				return mkStr("")
			}
			ex.unsup("make of byte slice")
		}
		var t *Term
		n = st.simp(n)
		if n.Kind == KInt && n.Int.IsInt64() && n.Int.Int64() < 16 {
			var us []*Term
			z := w.zero(in.Type().Underlying().(*types.Slice).Elem())
			for i := int64(0); i < n.Int.Int64(); i++ {
				us = append(us, mkUnit(z))
			}
			t = mkCat(s, us...)
		} else {
			t = mkFresh("made", s)
			st.assume(mkEq(mkLen(t), n))
		}
		l := st.newRoot(t, in.Type())
		st.locs[l].fresh = true
		if st.simp(c) == mkInt(0) {
			st.locs[l].cap0 = true
		}
		return Slice{loc: l, off: mkInt(0), n: n, isNil: 2}
	case *ssa.Slice:
		return ex.slice(st, fi, in)
	case *ssa.Extract:
		return ex.val(st, fi, in.Tuple).(Tuple)[in.Index]
	case *ssa.MakeMap:
		if s := w.sortOf(in.Type()); isMapSort(s) {
			c := s.Data.Ctors[1]
			a := c.Fields[0].Sort
			o := st.newRoot(mkCtor(c, mkApp("empty_map", a, mkCtor(heapElem[a].Data.Ctors[0]))), in.Type())
			st.locs[o].fresh = true
			return Ptr{st.child(o, Step{k: stOpt, ctor: c}, a, nil)}
		}
		return MapV{&mapData{}}
	case *ssa.Phi:
		ex.unsup("phi without predecessor")
	}
	ex.unsup("instruction %T", v)
	return nil
}

func (ex *Exec) opaqueOp(st *State, op string, t types.Type, as ...*Term) Val {
	s := ex.w.sortOf(t)
	name := "op_" + sanitize(fmt.Sprintf("%x", op)) + "_" + sanitize(s.Name)
	for _, a := range as {
		name += "_" + sanitize(a.Sort.Name)
	}
	r := mkApp(name, s, as...)
	return r
}

func (ex *Exec) bounds(st *State, i, n *Term, what string) {
	ex.check(st, "safe", what+"-in-range", nil, mkAnd(mkLe(mkInt(0), i), mkLt(i, n)))
}

func intKind(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

// wrapTo reduces a mathematical result to the range of machine type t.
func (ex *Exec) wrapTo(x *Term, t types.Type) *Term {
	bits, uns := intKind(t)
	if bits == 64 && !uns {
		if ex.pv.inRange64(x) {
			return x
		}
		return mkWrap(x)
	}
	if x.Kind == KInt {
		m := new(big.Int).Lsh(bOne, uint(bits))
		v := new(big.Int).Mod(x.Int, m)
		if !uns && v.Cmp(new(big.Int).Lsh(bOne, uint(bits-1))) >= 0 {
			v.Sub(v, m)
		}
		return mkBig(v)
	}
	u := "s"
	if uns {
		u = "u"
	}
	return mkApp(fmt.Sprintf("wrap_%s%d", u, bits), sInt, x)
}

func (ex *Exec) binop(st *State, in *ssa.BinOp, x, y Val) Val {
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		r := ex.equal(st, x, y, in.X, in.Y)
		if in.Op == token.NEQ {
			r = mkNot(r)
		}
		return st.simp(r)
	}
	a, b := ex.termOf(st, x), ex.termOf(st, y)
	if a.Sort == sStr {
		switch in.Op {
		case token.ADD:
			return st.simp(mkConc(a, b))
		case token.LSS:
			return mkApp("strlt", sBool, a, b)
		case token.GTR:
			return mkApp("strlt", sBool, b, a)
		case token.LEQ:
			return mkNot(mkApp("strlt", sBool, b, a))
		case token.GEQ:
			return mkNot(mkApp("strlt", sBool, a, b))
		}
	}
	if a.Sort == sInt && b.Sort == sInt {
		switch in.Op {
		case token.ADD:
			return st.simp(ex.wrapTo(mkAdd(a, b), t))
		case token.SUB:
			return st.simp(ex.wrapTo(mkSub(a, b), t))
		case token.MUL:
			return st.simp(ex.wrapTo(mkMul(a, b), t))
		case token.QUO:
			nz := mkNot(mkEq(b, mkInt(0)))
			if st.simp(nz) != tTrue {
				ex.check(st, "safe", "division-by-zero", nil, nz)
			}
			return st.simp(ex.wrapTo(mkTDiv(a, b), t))
		case token.REM:
			nz := mkNot(mkEq(b, mkInt(0)))
			if st.simp(nz) != tTrue {
				ex.check(st, "safe", "division-by-zero", nil, nz)
			}
			return st.simp(mkTRem(a, b))
		case token.LSS:
			return st.simp(mkLt(a, b))
		case token.LEQ:
			return st.simp(mkLe(a, b))
		case token.GTR:
			return st.simp(mkLt(b, a))
		case token.GEQ:
			return st.simp(mkLe(b, a))
		}
	}
	if a.Sort == sBool && b.Sort == sBool {
		switch in.Op {
		case token.AND:
			return mkAnd(a, b)
		case token.OR:
			return mkOr(a, b)
		}
	}
	return ex.opaqueOp(st, in.Op.String(), in.Type(), a, b)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ex *Exec) equal(st *State, x, y Val, sx, sy ssa.Value) *Term {
	if isNilConst(sy) {
		if _, ok := sx.Type().Underlying().(*types.Basic); !ok {
			return ex.isNil(st, x)
		}
	}
	if isNilConst(sx) {
		if _, ok := sx.Type().Underlying().(*types.Basic); !ok {
			return ex.isNil(st, y)
		}
	}
	switch a := x.(type) {
	case *Term:
		b := ex.termOf(st, y)
		if a.Sort == ex.w.errD.Sort || a.Sort == ex.w.anyD.Sort {
			// identity of interface values is finer than content equality
			if st.simp(mkEq(a, b)) == tFalse {
				return tFalse
			}
			r := mkFresh("same", sBool)
			st.assume(mkOr(mkNot(r), mkEq(a, b)))
			return r
		}
		if a.Sort == b.Sort {
			return mkEq(a, b)
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			if a.loc == b.loc {
				return tTrue
			}
		}
		return mkFresh("sameptr", sBool)
	case Ref:
		if b, ok := y.(Ref); ok && a.loc == b.loc {
			return tTrue
		}
		return mkFresh("sameobj", sBool)
	}
	ex.unsup("comparison of %s", sx.Type())
	return nil
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := ex.termOf(st, v)
		fbits, funs := intKind(from)
		tbits, tuns := intKind(to)
		if fbits == tbits && funs == tuns || fbits < tbits && (funs || !tuns) {
			return t
		}
		return st.simp(ex.wrapTo(t, to))
	case fb != nil && fb.Info()&types.IsString != 0 && isBytes(to), isBytes(from) && tb != nil && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0 && isRunes(from):
		t := st.simp(ex.termOf(st, v))
		if t.Kind == KTake && ex.pv.quickTrue(st, mkEq(mkLen(t.Args[0]), t.Args[1])) {
			t = t.Args[0]
		}
		return st.simp(mkRuneString(t))
	case tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		return mkApp("runestr", sStr, ex.termOf(st, v))
	}
	if s := ex.w.sortOf(to); s.Elem == nil {
		return ex.opaqueOp(st, "conv", to, ex.termOf(st, v))
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		// []rune(s)
		x := ex.termOf(st, v)
		t := mkApp("runes", ex.w.sortOf(to), x)
		// a text that is not empty has a first character; it is an ASCII one
		// exactly when the first byte is
		st.assume(mkEq(mkEq(mkStrLen(x), mkInt(0)), mkEq(mkLen(t), mkInt(0))))
		st.assume(mkLe(mkLen(t), mkStrLen(x)))
		c, b := mkNth(t, mkInt(0)), mkApp("byteat", sInt, x, mkInt(0))
		st.assume(mkOr(mkEq(mkLen(t), mkInt(0)), mkEq(c, b), mkAnd(mkLe(mkInt(128), c), mkLe(mkInt(128), b))))
		r := ex.toVal(st, t, to).(Slice)
		st.locs[r.loc].fresh = true
		return r
	}
	ex.unsup("conversion from %s to %s", from, to)
	return nil
}

func (ex *Exec) changeIface(st *State, v Val, from, to types.Type) Val {
	cf, ct := ex.w.classOfIface(from), ex.w.classOfIface(to)
	if isError(from) && !isError(to) && ct == nil {
		return ex.makeIface(st, v, from, to)
	}
	if cf == ct {
		return v
	}
	if cf != nil && !cf.Heap && ct == nil {
		return ex.makeIface(st, v, from, to)
	}
	if cf == nil && ct == nil {
		return v
	}
	ex.unsup("interface conversion from %s to %s", from, to)
	return nil
}

// makeIface converts a concrete value to an interface.
func (ex *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	w := ex.w
	if isError(to) {
		switch x := v.(type) {
		case *Term:
			if x.Sort == w.errD.Sort {
				return x
			}
			return mkCtor(w.errD.Ctors[1], mkApp("errstr_"+sanitize(x.Sort.Name), sStr, x))
		case Ptr:
			o := st.objOf(x)
			if o >= 0 {
				t := st.content(o)
				return mkCtor(w.errD.Ctors[1], mkApp("errstr_"+sanitize(t.Sort.Name), sStr, t))
			}
		}
		ex.unsup("error value from %s", from)
	}
	if cl := w.classOfIface(to); cl != nil {
		if cl.Heap {
			return v
		}
		switch x := v.(type) {
		case Ptr:
			o := st.objOf(x)
			t := st.content(o)
			nt := st.simp(w.nilTest(t))
			if nt == tFalse {
				return Ref{o}
			}
			if nt == tTrue {
				return Ref{st.newRoot(mkCtor(cl.TNil), to)}
			}
			if ex.pv.quickFalse(st, nt) {
				return Ref{o}
			}
			st.settleFresh(o)
			r := st.newRoot(mkIte(nt, mkCtor(cl.TNil), t), to)
			st.locs[r].frozen = true
			st.locs[r].fresh = st.locs[o].fresh && st.locs[o].parent == -1 && !st.locs[o].frozen && !st.locs[o].alias
			st.freeze(o)
			return Ref{r}
		case Ref:
			return x
		}
		ex.unsup("class interface from %T", v)
	}
	// interface{} and foreign interfaces: box the content
	switch x := v.(type) {
	case Closure, OpaqueV, MapV:
		_ = x
		return mkCtor(w.anyD.Ctors[1], mkFresh("boxed", sInt))
	}
	if p, ok := v.(Ptr); ok && st.objOf(p) < 0 {
		return mkCtor(w.anyD.Ctors[1], mkFresh("boxed", sInt))
	}
	t := ex.termOf(st, v)
	if t.Sort == w.anyD.Sort {
		return t
	}
	if pt, ok := from.(*types.Pointer); ok {
		// a pointer to an object of a class, if there is one: as the class boxes it
		if cl, c := w.classCtor(pt.Elem()); cl != nil && !cl.Heap && st.simp(mkIs(c, t)) == tTrue {
			return mkCtor(w.box(cl.Named), t)
		}
	}
	if _, ok := from.Underlying().(*types.Interface); ok {
		// interface to interface{}: nil stays nil
		if cl := w.classOfIface(from); cl != nil && !cl.Heap {
			return ex.boxClass(st, cl, t)
		}
		if isError(from) {
			return st.simp(mkIte(mkIs(w.errD.Ctors[0], t), mkCtor(w.anyD.Ctors[0]), mkCtor(w.box(from), t)))
		}
	}
	if o := st.objOf(v); o >= 0 {
		if n := ex.w.nilTest(t); n != nil && st.simp(n) != tTrue {
			if _, ok := v.(Slice); !ok {
				ex.boxes(st, t, o)
			}
		}
	}
	return mkCtor(w.box(from), t)
}

func (ex *Exec) boxes(st *State, t *Term, o int) {}

// boxClass boxes a class interface value by its dynamic type.
func (ex *Exec) boxClass(st *State, cl *Class, t *Term) Val {
	w := ex.w
	if t.Kind == KCtor && t.Ctor == cl.Null {
		return mkCtor(w.anyD.Ctors[0])
	}
	r := mkCtor(w.box(cl.Named), t)
	return st.simp(mkIte(mkIs(cl.Null, t), mkCtor(w.anyD.Ctors[0]), r))
}

func (ex *Exec) slice(st *State, fi int, in *ssa.Slice) Val {
	low, high := mkInt(0), (*Term)(nil)
	if in.Low != nil {
		low = ex.termOf(st, ex.val(st, fi, in.Low))
	}
	if in.High != nil {
		high = ex.termOf(st, ex.val(st, fi, in.High))
	}
	switch x := ex.val(st, fi, in.X).(type) {
	case Slice:
		n := st.simp(x.n)
		h := high
		if h == nil {
			h = n
		}
		// beyond len but within cap is never relied upon
		ex.check(st, "safe", "slice-in-range", nil, mkAnd(mkLe(mkInt(0), low), mkLe(low, h), mkLe(h, n)))
		r := Slice{loc: x.loc, off: st.simp(mkAdd(x.off, low)), n: st.simp(mkSub(h, low)), isNil: x.isNil, cut: x.cut}
		if st.simp(mkEq(h, n)) != tTrue {
			r.cut = true
		}
		if r.isNil == 3 {
			r.isNil = 0
		}
		if r.isNil == 0 && x.isNil == 2 {
			r.isNil = 2
		}
		return r
	case Ptr:
		l := ex.pointee(st, x, in.X.Type(), "array")
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		h := high
		if h == nil {
			h = n
		}
		ex.check(st, "safe", "slice-in-range", nil, mkAnd(mkLe(mkInt(0), low), mkLe(low, h), mkLe(h, n)))
		o := st.obj(l)
		st.locs[o].cap0 = true
		st.locs[o].fresh = st.locs[st.rootOf(l)].fresh
		r := Slice{loc: o, off: low, n: st.simp(mkSub(h, low)), isNil: 2, cut: st.simp(mkEq(h, n)) != tTrue}
		if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			ex.unsup("byte array slice")
		}
		return r
	case *Term:
		if x.Sort == sStr {
			n := mkStrLen(x)
			h := high
			if h == nil {
				h = n
			}
			ex.check(st, "safe", "slice-in-range", nil, mkAnd(mkLe(mkInt(0), low), mkLe(low, h), mkLe(h, n)))
			if st.simp(low) == mkInt(0) && st.simp(mkEq(h, n)) == tTrue {
				return x
			}
			return mkSubstr(x, low, h)
		}
	}
	ex.unsup("slice of %s", in.X.Type())
	return nil
}

func (ex *Exec) typeAssert(st *State, fi int, in *ssa.TypeAssert, k func(*State, Val)) {
	w := ex.w
	x := ex.val(st, fi, in.X)
	var cond *Term
	var yes func(st *State) Val
	what := types.TypeString(in.AssertedType, func(p *types.Package) string { return p.Name() })
	switch v := x.(type) {
	case Ref:
		t := st.content(v.loc)
		if pt, ok := in.AssertedType.(*types.Pointer); ok {
			cl, c := w.classCtor(pt.Elem())
			if cl == nil {
				ex.unsup("type assertion to %s", in.AssertedType)
			}
			cond = mkIs(c, t)
			yes = func(st *State) Val {
				return Ptr{st.child(v.loc, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, pt.Elem())}
			}
		} else if cl, impl := w.implementers(in.AssertedType); cl != nil {
			var ds []*Term
			for _, n := range impl {
				ds = append(ds, mkIs(cl.ctors[n], t))
			}
			cond = mkOr(ds...)
			yes = func(*State) Val { return v }
		} else {
			ex.unsup("type assertion to %s", in.AssertedType)
		}
	case *Term:
		if cl := ex.heapClass(in.X.Type()); cl != nil {
			if pt, ok := in.AssertedType.(*types.Pointer); ok {
				_, c := w.classCtor(pt.Elem())
				cond = mkAnd(mkNot(mkEq(v, mkInt(0))), mkIs(c, mkSelect(st.content(ex.heap(st)), v)))
				yes = func(*State) Val { return v }
			} else {
				ex.unsup("type assertion of die feeder")
			}
			break
		}
		if v.Sort == w.anyD.Sort {
			at := in.AssertedType
			if cl := w.classOfIface(at); cl != nil && !cl.Heap {
				// any boxed class value of a fitting dynamic type
				cond, yes = ex.anyToClass(st, v, cl, at)
				break
			}
			if pt, ok := at.(*types.Pointer); ok {
				if cl, c := w.classCtor(pt.Elem()); cl != nil && !cl.Heap {
					bc := w.box(cl.Named)
					bp := w.box(at)
					cond = mkOr(mkIs(bp, v), mkAnd(mkIs(bc, v), mkIs(c, mkSel(bc, 0, v))))
					yes = func(st *State) Val {
						u := st.simp(mkIte(mkIs(bp, v), mkSel(bp, 0, v), mkSel(bc, 0, v)))
						return ex.toVal(st, u, at)
					}
					break
				}
			}
			if _, ok := at.Underlying().(*types.Interface); ok && !isError(at) {
				if it := at.Underlying().(*types.Interface); it.NumMethods() == 0 {
					cond = mkNot(mkIs(w.anyD.Ctors[0], v))
					yes = func(*State) Val { return v }
					break
				}
				cond = mkFresh("implements", sBool)
				yes = func(*State) Val { return v }
				break
			}
			b := w.box(at)
			cond = mkIs(b, v)
			yes = func(st *State) Val { return ex.toVal(st, st.simp(mkSel(b, 0, v)), at) }
			break
		}
		if v.Sort == w.errD.Sort {
			cond = mkFresh("errtype", sBool)
			yes = func(st *State) Val { return ex.freshVal(st, in.AssertedType, "err") }
			break
		}
		ex.unsup("type assertion on %s", in.X.Type())
	default:
		ex.unsup("type assertion on %T", x)
	}
	if !in.CommaOk {
		if st.simp(cond) != tTrue {
			ex.check(st, "safe", "type-assert:"+what, nil, cond)
		}
		if !st.dead {
			k(st, yes(st))
		}
		return
	}
	ex.branch(st, cond, "is:"+what, func(st *State) {
		k(st, Tuple{yes(st), tTrue})
	}, func(st *State) {
		z := ex.w.zero(in.AssertedType)
		k(st, Tuple{ex.toVal(st, z, in.AssertedType), tFalse})
	})
}

func (ex *Exec) anyToClass(st *State, v *Term, cl *Class, at types.Type) (*Term, func(*State) Val) {
	w := ex.w
	bc := w.box(cl.Named)
	_, impl := w.implementers(at)
	in := func(t *Term) *Term {
		var ds []*Term
		for _, n := range impl {
			ds = append(ds, mkIs(cl.ctors[n], t))
		}
		return mkOr(ds...)
	}
	cond := mkAnd(mkIs(bc, v), in(mkSel(bc, 0, v)))
	val := mkSel(bc, 0, v)
	for _, n := range impl {
		b := w.box(types.NewPointer(n))
		cond = mkOr(cond, mkAnd(mkIs(b, v), mkIs(cl.ctors[n], mkSel(b, 0, v))))
		val = mkIte(mkIs(b, v), mkSel(b, 0, v), val)
	}
	return cond, func(st *State) Val {
		t := st.simp(val)
		v := ex.toVal(st, t, at)
		if r, ok := v.(Ref); ok && has(st.unique, t) && !has(st.taken, t) {
			st.taken = append(st.taken[:len(st.taken):len(st.taken)], t)
			l := &st.locs[r.loc]
			l.fresh, l.frozen = true, false
		}
		return v
	}
}

func has(ts []*Term, t *Term) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}

func (ex *Exec) lookup(st *State, fi int, in *ssa.Lookup, k func(*State, Val)) {
	x := ex.val(st, fi, in.X)
	if t, ok := x.(*Term); ok && t.Sort == sStr {
		i := ex.termOf(st, ex.val(st, fi, in.Index))
		ex.bounds(st, i, mkStrLen(t), "index")
		k(st, mkApp("byteat", sInt, st.simp(t), i))
		return
	}
	if p, ok := x.(Ptr); ok && isMapSort(ex.w.sortOf(in.X.Type())) {
		o := st.objOf(p)
		if o < 0 {
			ex.unsup("lookup in a map that is not an object")
		}
		el := in.X.Type().Underlying().(*types.Map).Elem()
		t := st.content(o)
		a := mkSel(t.Sort.Data.Ctors[1], 0, t)
		key := ex.termOf(st, ex.val(st, fi, in.Index))
		r := mkSelect(a, key)
		has := st.simp(mkAnd(mkIs(t.Sort.Data.Ctors[1], t), mkIs(r.Sort.Data.Ctors[1], r)))
		v := ex.toVal(st, st.simp(mkIte(has, mkSel(r.Sort.Data.Ctors[1], 0, r), ex.w.zero(el))), el)
		if in.CommaOk {
			v = Tuple{v, has}
		}
		k(st, v)
		return
	}
	m, ok := x.(MapV)
	if !ok {
		if u, is := in.X.(*ssa.UnOp); is {
			if _, is := u.X.(*ssa.Global); is {
				// a package variable: anything may be found, nothing of it may be written
				el := in.X.Type().Underlying().(*types.Map).Elem()
				v := ex.freshVal(st, el, "found")
				if o := st.objOf(v); o >= 0 {
					st.locs[o].frozen = true
				}
				if in.CommaOk {
					v = Tuple{v, mkFresh("has", sBool)}
				}
				k(st, v)
				return
			}
		}
		ex.unsup("lookup in map that is not constant")
	}
	key := ex.termOf(st, ex.val(st, fi, in.Index))
	el := in.X.Type().Underlying().(*types.Map).Elem()
	r := ex.w.zero(el)
	okT := tFalse
	for i, kt := range m.d.keys {
		c := st.simp(mkEq(key, kt))
		if m.d.vals[i] == nil {
			ex.unsup("map with non-term values")
		}
		r = mkIte(c, m.d.vals[i], r)
		okT = mkOr(okT, c)
	}
	v := ex.toVal(st, st.simp(r), el)
	if in.CommaOk {
		k(st, Tuple{v, st.simp(okT)})
		return
	}
	k(st, v)
}

// ---------------------------------------------------------------- globals

func (ex *Exec) global(st *State, g *ssa.Global) int {
	if l, ok := st.globs[g]; ok {
		return l
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	s := ex.w.sortOf(t)
	c := ex.w.globalInit(g)
	var l int
	if c != nil {
		l = st.newRoot(c, t)
	} else {
		l = st.newRoot(mkConst("G$"+sanitize(g.String()), s), t)
	}
	st.locs[l].frozen = true
	st.locs[l].constant = c != nil
	st.globs[g] = l
	return l
}

// sortedKeys is a helper for stable output.
func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
