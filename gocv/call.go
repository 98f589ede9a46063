package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func identName(d *ssa.DebugRef) string {
	if id, ok := d.Expr.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func (ex *Exec) callArgs(st *State, fi int, c *ssa.CallCommon) []Val {
	var as []Val
	as = append(as, ex.val(st, fi, c.Value))
	for _, a := range c.Args {
		as = append(as, ex.val(st, fi, a))
	}
	return as
}

// callVals performs a call; args[0] is the function value or the receiver.
func (ex *Exec) callVals(st *State, fi int, c *ssa.CallCommon, args []Val, site ssa.Instruction, k cont) {
	if c.IsInvoke() {
		ex.invoke(st, fi, c, args, site, k)
		return
	}
	cl, ok := args[0].(Closure)
	if !ok {
		ex.unsup("call of unknown function value in %s", site.Parent())
	}
	if cl.blt != nil {
		ex.builtin(st, fi, cl.blt, c, args[1:], site, k)
		return
	}
	ex.call(st, fi, cl.fn, args[1:], cl.bind, k)
}

func splitRes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (ex *Exec) call(st *State, fi int, fn *ssa.Function, args []Val, bind []Val, k cont) {
	key := ""
	if fn.Synthetic == "" {
		key = funcKey(fn)
	}
	if c := ex.w.specs.Contracts[key]; key != "" && c != nil && !c.Inline && !ex.dropped[key] && ex.w.contractFits(c, fn) {
		ex.used[key] = true
		ex.applyContract(st, c, fn.Signature, args, key, k)
		return
	}
	if m := externs[externName(fn)]; m != nil {
		res := m(ex, st, fn.Signature, args)
		if st.dead {
			return
		}
		k(st, res)
		return
	}
	if fn.Pkg != nil && !isOwn(fn.Pkg.Pkg) || fn.Pkg == nil && fn.Synthetic == "" {
		ex.externCall(st, fn, args, k)
		return
	}
	if fn.Synthetic != "" && (fn.Pkg == nil || !isOwn(fn.Pkg.Pkg)) && len(fn.Blocks) == 0 {
		ex.externCall(st, fn, args, k)
		return
	}
	ex.inline(st, fi, fn, args, bind, k)
}

func externName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (w *World) contractFits(c *Contract, fn *ssa.Function) bool {
	np := len(fn.Params)
	if fn.Blocks == nil {
		np = fn.Signature.Params().Len()
		if fn.Signature.Recv() != nil {
			np++
		}
	}
	if len(c.Params) != np {
		return false
	}
	return len(c.Results) == fn.Signature.Results().Len()
}

// tv is the spec view of a run-time value in a state.
func (ex *Exec) tv(st *State, v Val, gt types.Type) TV {
	switch x := v.(type) {
	case *Term:
		return TV{st.simp(x), gt}
	case Ref:
		return TV{st.content(x.loc), gt}
	case Ptr:
		if o := st.objOf(x); o >= 0 {
			return TV{st.content(o), gt}
		}
		return TV{st.content(x.loc), ptrElem(gt)}
	case Slice:
		return TV{ex.seqOf(st, x), gt}
	case OpaqueV:
		return TV{x.t, gt}
	case Closure:
		return TV{mkApp("closure", mkSort("O_func")), gt}
	}
	ex.unsup("no spec view of %T", v)
	return TV{}
}

type named struct {
	v    Val
	t    types.Type
	post bool // result: not available in the old state
}

// env builds the environment for a contract expression over st (and pre for old).
func (ex *Exec) env(st, pre *State, names map[string]named, assuming bool) *Env {
	en := &Env{w: ex.w, names: map[string]func(bool) (TV, bool){}}
	for n, x := range names {
		x := x
		en.names[n] = func(old bool) (TV, bool) {
			if old {
				if x.post || pre == nil {
					return TV{}, false
				}
				r := ex.tv(pre, x.v, x.t)
				r.t = st.simp(r.t)
				return r, true
			}
			return ex.tv(st, x.v, x.t), true
		}
	}
	en.heap = func(old bool) *Term {
		s := st
		if old && pre != nil {
			s = pre
		}
		return st.simp(s.content(ex.heap(s)))
	}
	en.goCall = func(name string, args []*Expr, old bool) (*Term, bool) {
		switch name {
		case "fresh":
			s, ok := ex.lval(st, names, args[0])
			if !ok {
				return tFalse, true
			}
			if assuming {
				if s < 0 {
					return tTrue, true
				}
				f := mkFresh("fresh", tTrue.Sort)
				if g := st.locs[s].freshIf; g != nil {
					st.locs[s].freshIf = mkOr(g, f)
				} else {
					st.locs[s].freshIf = f
				}
				return f, true
			}
			if s < 0 {
				return tTrue, true
			}
			st.settleFresh(s)
			l := st.locs[s]
			if n := ex.w.nilTest(st.content(s)); n != nil && st.simp(n) == tTrue {
				return tTrue, true
			}
			if l.freshIf != nil && !l.param && l.parent == -1 {
				return l.freshIf, true
			}
			return mkBool(l.fresh && !l.alias && !l.param && l.parent == -1 || l.cap0 && st.content(s).Kind == KEmpty), true
		case "owned":
			// the array in a location is its own: the original one, one grown
			// from it, or a fresh one
			if assuming {
				return tTrue, true
			}
			s, ok := ex.lval(st, names, args[0])
			if !ok {
				return tFalse, true
			}
			l := st.locs[s]
			return mkBool(!l.param && !l.alias), true
		case "at_old":
			return nil, false
		}
		return nil, false
	}
	return en
}

// lval finds the object location of a parameter/result path.
func (ex *Exec) lval(st *State, names map[string]named, e *Expr) (int, bool) {
	switch e.Op {
	case "id":
		n, ok := names[e.Name]
		if !ok {
			return 0, false
		}
		return st.objOf(n.v), true
	case "field", "as", "call":
		l, ok := ex.resolveLoc(st, names, e)
		if !ok {
			return 0, false
		}
		return st.obj(l), true
	}
	return 0, false
}

// resolveLoc finds the storage location named by a contract expression.
func (ex *Exec) resolveLoc(st *State, names map[string]named, e *Expr) (int, bool) {
	w := ex.w
	deref := func(l int) int { // location holding a pointer -> struct location
		s := st.locs[l].sort
		if r := &st.locs[l]; r.parent >= 0 && r.step.k == stField && w.nonnil[r.step.ctor.Fields[r.step.i].Sel] {
			if n := w.nilTest(st.content(l)); n != nil && st.simp(n) != tFalse {
				st.assume(mkNot(n))
			}
		}
		if isOpt(s) {
			c := s.Data.Ctors[1]
			o := st.obj(l)
			return st.child(o, Step{k: stOpt, ctor: c}, c.Fields[0].Sort, nil)
		}
		if cl := w.classBySort(s); cl != nil && !cl.Heap {
			if el := ptrElem(st.locs[l].gt); el != nil {
				_, c := w.classCtor(el)
				o := st.obj(l)
				return st.child(o, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, el)
			}
		}
		return l
	}
	switch e.Op {
	case "id":
		n, ok := names[e.Name]
		if !ok {
			return 0, false
		}
		switch x := n.v.(type) {
		case Ptr:
			return x.loc, true
		case Ref:
			return x.loc, true
		case Slice:
			return x.loc, true
		case *Term:
			if cl := ex.heapClass(n.t); cl != nil {
				cell := st.child(ex.heap(st), Step{k: stHeap, t: st.simp(x)}, cl.Data.Sort, nil)
				if el := ptrElem(n.t); el != nil {
					_, c := w.classCtor(el)
					return st.child(cell, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, el), true
				}
				return cell, true
			}
		}
		return 0, false
	case "call":
		if e.Name == "stream" && len(e.Args) == 1 {
			en := ex.env(st, nil, names, false)
			r := en.term(e.Args[0])
			for _, cl := range w.classes {
				if cl.Heap {
					return st.child(ex.heap(st), Step{k: stHeap, t: r}, cl.Data.Sort, nil), true
				}
			}
		}
		if e.Name == "heap" {
			return ex.heap(st), true
		}
	case "as":
		b, ok := ex.resolveLoc(st, names, e.Args[0])
		if !ok {
			return 0, false
		}
		s := st.locs[b].sort
		c := w.variant(s, e.Name)
		if c == nil {
			return 0, false
		}
		if st.locs[b].step.k != stObj && st.locs[b].parent >= 0 {
			b = st.obj(b)
		}
		return st.child(b, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, nil), true
	case "field":
		b, ok := ex.resolveLoc(st, names, e.Args[0])
		if !ok {
			return 0, false
		}
		b = deref(b)
		return ex.fieldLoc(st, b, e.Name)
	case "index":
		b, ok := ex.resolveLoc(st, names, e.Args[0])
		if !ok {
			return 0, false
		}
		en := ex.env(st, nil, names, false)
		i := en.term(e.Args[1])
		o := b
		if st.locs[b].parent >= 0 && st.locs[b].step.k != stObj {
			o = st.obj(b)
		}
		return st.child(o, Step{k: stIndex, t: i}, st.locs[b].sort.Elem, nil), true
	}
	return 0, false
}

func (ex *Exec) fieldLoc(st *State, b int, name string) (int, bool) {
	d := st.locs[b].sort.Data
	if d == nil || len(d.Ctors) != 1 {
		return 0, false
	}
	c := d.Ctors[0]
	if i := c.FieldIndex(name); i >= 0 {
		return st.child(b, Step{k: stField, ctor: c, i: i}, c.Fields[i].Sort, ex.w.selGo[c.Fields[i].Sel]), true
	}
	for i := range c.Fields {
		if ex.w.embed[c][i] {
			l := st.child(b, Step{k: stField, ctor: c, i: i}, c.Fields[i].Sort, ex.w.selGo[c.Fields[i].Sel])
			if isOpt(st.locs[l].sort) {
				oc := st.locs[l].sort.Data.Ctors[1]
				l = st.child(st.obj(l), Step{k: stOpt, ctor: oc}, oc.Fields[0].Sort, nil)
			}
			if r, ok := ex.fieldLoc(st, l, name); ok {
				return r, true
			}
		}
	}
	return 0, false
}

// havoc forgets the content of a location.
func (ex *Exec) havoc(st *State, l int, keep map[int]bool, hint string) {
	// objects below l lose their connection unless kept
	for i := range st.locs {
		r := st.locs[i]
		if r.parent >= 0 && r.step.k == stObj && i != l && st.isUnder(i, l) && !keep[i] {
			c := mkFresh(hint+"_lost", r.sort)
			st.locs[i].parent = -1
			st.locs[i].content = c
			st.locs[i].step = Step{}
			st.locs[i].frozen = true
			st.locs[i].freshIf = nil
			st.locs[i].detached = true
			if f := ex.w.typeFact(c, r.gt); f != tTrue {
				st.assume(f)
			}
		}
	}
	gt := st.locs[l].gt
	c := mkFresh(hint, st.locs[l].sort)
	ex.pv.noteType(c, gt)
	ex.settleUp(st, l)
	if st.locs[l].step.k == stHeap && c.Sort.Data != nil {
		// an object never changes its type
		was := st.content(l)
		for _, k := range c.Sort.Data.Ctors {
			st.assume(mkImp(mkIs(k, was), mkIs(k, c)))
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(frozenErr); ok {
					ex.failed(st, "frame", "write-to-shared", nil, "a value reachable from two places is modified")
					return
				}
				panic(r)
			}
		}()
		st.write(l, c)
	}()
	if gt != nil {
		if f := ex.w.typeFact(c, gt); f != tTrue {
			st.assume(f)
		}
		if ex.heapClass(gt) != nil {
			ex.loadRef(st, c, gt)
		}
	}
	// an object of known variant keeps it
	if st.locs[l].step.k == stObj || st.locs[l].parent == -1 {
		if pt := ptrElem(gt); pt != nil {
			if _, cc := ex.w.classCtor(pt); cc != nil {
				st.assume(mkIs(cc, c))
			}
		}
	}
}

func (ex *Exec) namesOf(c *Contract, sig *types.Signature, args []Val) map[string]named {
	names := map[string]named{}
	i := 0
	if sig.Recv() != nil {
		names[c.Params[0]] = named{v: args[0], t: sig.Recv().Type()}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		names[c.Params[i+j]] = named{v: args[i+j], t: sig.Params().At(j).Type()}
	}
	return names
}

// nonNil is the implicit precondition on pointer parameters.
func (ex *Exec) nonNil(st *State, c *Contract, name string, n named) *Term {
	if c.Nilable[name] {
		return tTrue
	}
	switch x := n.v.(type) {
	case Ptr:
		o := st.objOf(x)
		if o >= 0 {
			return mkIs(st.locs[x.loc].step.ctor, st.content(o))
		}
	case Ref:
		t := st.content(x.loc)
		cl := ex.w.classBySort(t.Sort)
		return mkAnd(mkNot(mkIs(cl.Null, t)), mkNot(mkIs(cl.TNil, t)))
	case *Term:
		if ex.heapClass(n.t) != nil {
			r := mkNot(mkEq(x, mkInt(0)))
			if el := ptrElem(n.t); el != nil {
				_, cc := ex.w.classCtor(el)
				r = mkAnd(r, mkIs(cc, mkSelect(st.content(ex.heap(st)), x)))
			}
			return r
		}
	}
	return tTrue
}

func (ex *Exec) applyContract(st *State, c *Contract, sig *types.Signature, args []Val, key string, k cont) {
	names := ex.namesOf(c, sig, args)
	short := key[strings.LastIndexByte(key, '/')+1:]
	for _, p := range c.Params {
		if f := st.simp(ex.nonNil(st, c, p, names[p])); f != tTrue {
			ex.check(st, "call", short+"/nonnil:"+p, nil, f)
		}
	}
	pre := st.clone()
	for _, r := range c.Requires {
		g := ex.env(st, pre, names, false).boolT(r.E)
		ex.check(st, "call", short+"/"+r.Label, r.Props, g)
	}
	if st.dead {
		return
	}
	pre = st.clone()
	keep := map[int]bool{}
	for _, e := range c.Keeps {
		l, ok := ex.resolveLoc(st, names, e)
		if !ok {
			continue
		}
		for l >= 0 {
			if st.locs[l].step.k == stObj {
				keep[l] = true
			}
			l = st.locs[l].parent
		}
		if l, ok := ex.resolveLoc(st, names, e); ok && st.locs[l].step.k != stObj && st.locs[l].parent >= 0 {
			keep[st.obj(l)] = true
		}
	}
	for _, e := range c.Modifies {
		l, ok := ex.resolveLoc(st, names, e)
		if !ok {
			ex.unsup("modifies clause %s of %s: no such location", e.pos(), key)
		}
		if e.Op == "id" {
			if n := names[e.Name]; n.v != nil {
				if p, ok := n.v.(Ptr); ok {
					if o := st.objOf(p); o >= 0 && st.locs[p.loc].step.k == stVariant {
						l = o
					}
				}
			}
		}
		ex.havoc(st, l, keep, "mod_"+shortName(key))
	}
	var res []Val
	for i, t := range splitRes(sig) {
		v := ex.freshVal(st, t, shortName(key)+"_"+c.Results[i])
		if o := st.objOf(v); o >= 0 {
			if _, ok := v.(Slice); !ok {
				st.locs[o].frozen = true
			} else {
				st.locs[o].alias = true
				st.locs[o].frozen = true
			}
		}
		names[c.Results[i]] = named{v: v, t: t, post: true}
		res = append(res, v)
	}
	for _, e := range c.Ensures {
		g := ex.env(st, pre, names, true).boolT(e.E)
		if !st.assume(g) {
			break
		}
	}
	if ex.dry == 0 {
		ex.pv.settle(st)
	}
	for i := range st.locs {
		st.settleFresh(i)
	}
	// results may contain the arguments
	for i, p := range c.Params {
		if i >= len(args) {
			break
		}
		o := st.objOf(args[i])
		if o < 0 {
			continue
		}
		for _, r := range splitRes(sig) {
			if ex.w.canContain(r, st.locs[o].sort, names[p].t) {
				st.freeze(o)
			}
		}
	}
	if st.dead {
		return
	}
	k(st, res)
}

// canContain: values of type t can hold references to class objects of sort s.
// gt is the Go type of the object.
func (w *World) canContain(t types.Type, s *Sort, gt types.Type) bool {
	if w.classBySort(s) == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && gt != nil {
		// a pointer to a struct of another type: only its fields count
		if q, ok := gt.Underlying().(*types.Pointer); ok {
			gt = q.Elem()
		}
		ss, ok1 := p.Elem().Underlying().(*types.Struct)
		_, ok2 := gt.Underlying().(*types.Struct)
		if ok1 && ok2 && !types.Identical(p.Elem(), gt) {
			for i := 0; i < ss.NumFields(); i++ {
				if w.sortReach(w.sortOf(ss.Field(i).Type()))[s] {
					return true
				}
			}
			return false
		}
	}
	return w.sortReach(w.sortOf(t))[s]
}

var reachMemo = map[*Sort]map[*Sort]bool{}

func (w *World) sortReach(s *Sort) map[*Sort]bool {
	if r, ok := reachMemo[s]; ok {
		return r
	}
	r := map[*Sort]bool{}
	var walk func(x *Sort)
	walk = func(x *Sort) {
		if r[x] {
			return
		}
		r[x] = true
		if x.Elem != nil {
			walk(x.Elem)
		}
		if x.Data != nil {
			for _, c := range x.Data.Ctors {
				for _, f := range c.Fields {
					walk(f.Sort)
				}
			}
		}
	}
	walk(s)
	reachMemo[s] = r
	return r
}

func shortName(key string) string {
	return sanitize(key[strings.LastIndexByte(key, '.')+1:])
}

func (ex *Exec) invoke(st *State, fi int, c *ssa.CallCommon, args []Val, site ssa.Instruction, k cont) {
	w := ex.w
	it := c.Value.Type()
	m := c.Method
	sig := m.Type().(*types.Signature)
	if isError(it) {
		t := ex.termOf(st, args[0])
		nn := mkNot(mkIs(w.errD.Ctors[0], t))
		if st.simp(nn) != tTrue {
			ex.check(st, "safe", "nil-deref:Error", nil, nn)
		}
		k(st, []Val{st.simp(mkSel(w.errD.Ctors[1], 0, t))})
		return
	}
	ikey := ""
	if n, ok := it.(*types.Named); ok && n.Obj().Pkg() != nil {
		ikey = relPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + m.Name()
	}
	if con := w.specs.Contracts[ikey]; con != nil && con.Iface {
		ex.used[ikey] = true
		names := map[string]named{con.Params[0]: {v: args[0], t: it}}
		_ = names
		nsig := types.NewSignatureType(types.NewParam(0, nil, "recv", it), nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		ex.applyContract(st, con, nsig, args, ikey, k)
		return
	}
	cl, impl := w.implementers(it)
	if cl == nil || cl.Heap {
		ex.externInvoke(st, it, m, sig, args, k)
		return
	}
	ref, ok := args[0].(Ref)
	if !ok {
		ex.unsup("invoke on %T", args[0])
	}
	t := st.content(ref.loc)
	var ds []*Term
	var cands []*types.Named
	for _, n := range impl {
		is := st.simp(mkIs(cl.ctors[n], t))
		if is == tFalse {
			continue
		}
		ds = append(ds, is)
		cands = append(cands, n)
	}
	okT := mkOr(ds...)
	if st.simp(okT) != tTrue {
		ex.check(st, "safe", "nil-deref:"+m.Name(), nil, okT)
	}
	if st.dead {
		return
	}
	fns := make([]*ssa.Function, len(cands))
	getters := true
	for i, n := range cands {
		sel := types.NewMethodSet(types.NewPointer(n)).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			ex.unsup("no method %s on %s", m.Name(), n)
		}
		fns[i] = w.prog.MethodValue(sel)
		if !ex.isGetter(fns[i], 0) {
			getters = false
		}
	}
	recv := func(st *State, n *types.Named) Val {
		c := cl.ctors[n]
		return Ptr{st.child(ref.loc, Step{k: stVariant, ctor: c}, c.Fields[0].Sort, n)}
	}
	if getters && len(cands) > 1 && sig.Results().Len() == 1 && isScalar(sig.Results().At(0).Type()) {
		var r *Term
		for i := len(cands) - 1; i >= 0; i-- {
			s2 := st.clone()
			is := mkIs(cl.ctors[cands[i]], t)
			if !s2.assume(is) {
				continue
			}
			var got *Term
			ex.dry++
			ex.call(s2, fi, fns[i], []Val{recv(s2, cands[i])}, nil, func(s3 *State, res []Val) { got = ex.termOf(s3, res[0]) })
			ex.dry--
			if got == nil {
				continue
			}
			if r == nil {
				r = got
			} else {
				r = mkIte(is, got, r)
			}
		}
		if r == nil {
			return
		}
		k(st, []Val{st.simp(r)})
		return
	}
	for i, n := range cands {
		s2 := st
		if len(cands) > 1 {
			s2 = st.clone()
			if !s2.assume(mkIs(cl.ctors[n], t)) || !ex.feasible(s2) {
				continue
			}
			s2.trace = append(s2.trace, n.Obj().Name())
		}
		as := append([]Val{recv(s2, n)}, args[1:]...)
		ex.call(s2, fi, fns[i], as, nil, k)
	}
}

func isScalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// isGetter: straight-line code that only reads.
func (ex *Exec) isGetter(fn *ssa.Function, d int) bool {
	if len(fn.Blocks) != 1 || d > 4 {
		return false
	}
	if fn.Synthetic == "" && ex.w.specs.Contracts[funcKey(fn)] != nil {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
		case *ssa.UnOp:
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || !ex.isGetter(f, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (ex *Exec) builtin(st *State, fi int, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.Instruction, k cont) {
	w := ex.w
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				r := mkFresh("cap", sInt)
				ex.pv.noteType(r, types.Typ[types.Int])
				st.assume(mkLe(st.simp(x.n), r))
				k(st, []Val{r})
				return
			}
			k(st, []Val{st.simp(x.n)})
			return
		case *Term:
			if x.Sort == sStr {
				k(st, []Val{mkStrLen(st.simp(x))})
				return
			}
		case MapV:
			k(st, []Val{mkInt(int64(len(x.d.keys)))})
			return
		}
		ex.unsup("len of %T", args[0])
	case "append":
		rt := site.(ssa.Value).Type()
		s := w.sortOf(rt)
		if s == sStr {
			k(st, []Val{mkConc(ex.termOf(st, args[0]), ex.termOf(st, args[1]))})
			return
		}
		x := args[0].(Slice)
		var add *Term
		y, isS := args[1].(Slice)
		if !isS {
			ex.unsup("append of %T", args[1])
		}
		add = ex.seqOf(st, y)
		// references in the appended elements become shared
		if w.sortReach(s)[nodeSort(w)] {
			// element objects are reached through the new slice as frozen copies
			for i := range st.locs {
				if st.locs[i].step.k == stObj && st.locs[i].parent >= 0 && st.locs[st.locs[i].parent].step.k == stIndex && st.isUnder(i, y.loc) {
					st.freeze(i)
				}
			}
		}
		st.settleFresh(x.loc)
		src := st.locs[x.loc]
		if x.cut && add.Kind != KEmpty {
			ex.failed(st, "frame", "append-overwrites", nil, "append to a slice that ends before its array overwrites later elements")
		}
		if src.eaten && !src.cap0 && add.Kind != KEmpty {
			ex.failed(st, "frame", "append-overwrites", nil, "second append to the same array")
		}
		t := st.simp(mkCat(s, ex.seqOf(st, x), add))
		l := st.newRoot(t, rt)
		n := &st.locs[l]
		n.fresh = src.fresh || src.cap0
		n.alias = src.alias && !src.cap0
		n.param = src.param && !src.cap0
		n.home = src.home
		if !src.cap0 {
			st.locs[x.loc].eaten = true
			// writing an element of the old array could show in the new one
			n.frozen = !(src.fresh && src.parent == -1) && src.parent == -1 && !src.detached
		}
		nn := 2
		if add.Kind == KEmpty {
			nn = x.isNil
		} else if x.isNil != 2 && st.simp(mkLen(add)).Kind != KInt {
			nn = 0
		}
		if f := st.simp(mkLe(mkLen(t), maxLen)); f != tTrue {
			st.assume(f) // memory is finite
		}
		k(st, []Val{Slice{loc: l, off: mkInt(0), n: st.simp(mkLen(t)), isNil: nn}})
		return
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			ex.unsup("copy into %T", args[0])
		}
		var src *Term
		switch y := args[1].(type) {
		case Slice:
			src = ex.seqOf(st, y)
		default:
			ex.unsup("copy from %T", args[1])
		}
		dn, sn := st.simp(d.n), st.simp(mkLen(src))
		full := st.simp(mkEq(d.off, mkInt(0))) == tTrue && st.simp(mkEq(dn, mkLen(st.content(d.loc)))) == tTrue
		write := func(st *State, t *Term) {
			st.settleFresh(d.loc)
			if st.locs[d.loc].frozen || st.locs[d.loc].param && st.locs[d.loc].parent == -1 {
				if !st.locs[d.loc].fresh {
					ex.failed(st, "frame", "copy-into-foreign-array", nil, "copy writes to an array that may be shared")
					return
				}
			}
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(frozenErr); ok {
						ex.failed(st, "frame", "write-to-shared", nil, "copy writes to an array that is shared")
						return
					}
					panic(r)
				}
			}()
			st.write(d.loc, t)
		}
		if full && (st.simp(mkEq(dn, sn)) == tTrue || ex.pv.quickTrue(st, mkEq(dn, sn))) {
			write(st, src)
			k(st, []Val{sn})
			return
		}
		if !full {
			ex.unsup("copy into part of an array")
		}
		ex.branch(st, mkLe(sn, dn), "copylen", func(st *State) {
			old := st.content(d.loc)
			write(st, st.simp(mkCat(src.Sort, src, mkDrop(old, sn))))
			k(st, []Val{sn})
		}, func(st *State) {
			write(st, st.simp(mkTake(src, dn)))
			k(st, []Val{dn})
		})
		return
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		r := ex.termOf(st, args[0])
		for _, a := range args[1:] {
			b2 := ex.termOf(st, a)
			if b.Name() == "min" {
				r = mkIte(mkLe(r, b2), r, b2)
			} else {
				r = mkIte(mkLe(r, b2), b2, r)
			}
		}
		k(st, []Val{r})
		return
	case "panic":
		ex.failed(st, "safe", "panic", nil, "explicit panic reachable")
		return
	}
	ex.unsup("builtin %s", b.Name())
}

func nodeSort(w *World) *Sort {
	if len(w.classes) > 0 {
		return w.classes[0].Data.Sort
	}
	return sInt
}

// externCall: a function outside the repository without a model. Its result is
// an uninterpreted function of its arguments when it is listed as pure, and
// arbitrary otherwise.
func (ex *Exec) externCall(st *State, fn *ssa.Function, args []Val, k cont) {
	name := externName(fn)
	rts := splitRes(fn.Signature)
	pure := pureExtern(name)
	if !pure && !harmlessExtern(name) {
		ex.unsup("external function without a model: %s", name)
	}
	var ts []*Term
	if pure {
		for _, a := range args {
			ts = append(ts, ex.termOf(st, a))
		}
	}
	var res []Val
	for i, t := range rts {
		if pure {
			r := mkApp(fmt.Sprintf("ext_%s_%d", sanitize(name), i), ex.w.sortOf(t), ts...)
			ex.pv.noteType(r, t)
			v := ex.toVal(st, r, t)
			if s, ok := v.(Slice); ok {
				st.locs[s.loc].fresh = true
			}
			res = append(res, v)
		} else {
			res = append(res, ex.freshVal(st, t, shortName(name)))
		}
	}
	ex.note("external " + name + map[bool]string{true: " (uninterpreted function of its arguments)", false: " (arbitrary result, no effect on modelled state)"}[pure])
	k(st, res)
}

func (ex *Exec) externInvoke(st *State, it types.Type, m *types.Func, sig *types.Signature, args []Val, k cont) {
	var res []Val
	name := types.TypeString(it, nil) + "." + m.Name()
	if !harmlessExtern(name) {
		ex.unsup("interface method without a model: %s", name)
	}
	for _, t := range splitRes(sig) {
		res = append(res, ex.freshVal(st, t, m.Name()))
	}
	ex.note("external interface method " + name + " (arbitrary result, no effect on modelled state)")
	k(st, res)
}
