package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// TV is a spec value: a term with the Go type it came from (if any).
type TV struct {
	t  *Term
	gt types.Type
}

// Env resolves names while elaborating an expression.
type Env struct {
	w      *World
	names  map[string]func(old bool) (TV, bool)
	heap   func(old bool) *Term
	goCall func(name string, args []*Expr, old bool) (*Term, bool) // fresh, same, ...
	old    bool
	narrow map[*Term]*Ctor
}

type elabErr struct{ msg string }

func (en *Env) fail(e *Expr, f string, a ...interface{}) {
	panic(elabErr{fmt.Sprintf("%s: %s", e.pos(), fmt.Sprintf(f, a...))})
}

func (en *Env) bind(name string, v TV) *Env {
	n := *en
	n.names = make(map[string]func(bool) (TV, bool), len(en.names)+1)
	for k, f := range en.names {
		n.names[k] = f
	}
	n.names[name] = func(bool) (TV, bool) { return v, true }
	return &n
}

func (en *Env) narrowTo(t *Term, c *Ctor) *Env {
	n := *en
	n.narrow = make(map[*Term]*Ctor, len(en.narrow)+1)
	for k, f := range en.narrow {
		n.narrow[k] = f
	}
	n.narrow[t] = c
	return &n
}

func (en *Env) term(e *Expr) *Term { return en.eval(e).t }

func (w *World) findCtor(name string) *Ctor {
	for _, s := range sortOrder {
		if s.Data != nil {
			if c := s.Data.ctor(name); c != nil {
				return c
			}
		}
	}
	return nil
}

// variant finds the constructor called name (or Class_name) of the sort.
func (w *World) variant(s *Sort, name string) *Ctor {
	if s.Data == nil {
		return nil
	}
	for _, c := range s.Data.Ctors {
		if c.Name == name || strings.HasSuffix(c.Name, "_"+name) && len(s.Data.Ctors) > 1 && c.Name == s.Name+"_"+name {
			return c
		}
	}
	if isOpt(s) {
		if name == "none" {
			return s.Data.Ctors[0]
		}
		if name == "some" {
			return s.Data.Ctors[1]
		}
	}
	for _, c := range s.Data.Ctors {
		if strings.HasSuffix(c.Name, "_"+name) {
			return c
		}
	}
	return nil
}

func (w *World) classBySort(s *Sort) *Class {
	for _, cl := range w.classes {
		if cl.Data.Sort == s {
			return cl
		}
	}
	return nil
}

// structField finds (possibly promoted) field name in struct term t.
func (w *World) structField(t *Term, name string) (TV, bool) {
	d := t.Sort.Data
	if d == nil {
		return TV{}, false
	}
	if isOpt(t.Sort) {
		return w.structField(mkSel(d.Ctors[1], 0, t), name)
	}
	for _, c := range d.Ctors {
		if i := c.FieldIndex(name); i >= 0 {
			return TV{mkSel(c, i, t), w.selGo[c.Fields[i].Sel]}, true
		}
	}
	if len(d.Ctors) == 1 {
		c := d.Ctors[0]
		for i := range c.Fields {
			if w.embed[c][i] {
				if r, ok := w.structField(mkSel(c, i, t), name); ok {
					return r, true
				}
			}
		}
	}
	return TV{}, false
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (en *Env) heapRef(v TV) (*Class, bool) {
	if v.gt == nil || v.t.Sort != sInt {
		return nil, false
	}
	if e := ptrElem(v.gt); e != nil {
		if cl := en.w.classOfStruct(e); cl != nil && cl.Heap {
			return cl, true
		}
		return nil, false
	}
	if cl := en.w.classOfIface(v.gt); cl != nil && cl.Heap {
		return cl, true
	}
	return nil, false
}

func (en *Env) field(e *Expr, x TV, name string) TV {
	w := en.w
	if cl, ok := en.heapRef(x); ok {
		obj := mkSelect(en.heap(en.old), x.t)
		if el := ptrElem(x.gt); el != nil {
			_, c := w.classCtor(el)
			obj = mkSel(c, 0, obj)
			r, ok := w.structField(obj, name)
			if !ok {
				en.fail(e, "no field %s", name)
			}
			return r
		}
		x = TV{obj, cl.Named}
	}
	if cl := w.classBySort(x.t.Sort); cl != nil {
		var c *Ctor
		if n := en.narrow[x.t]; n != nil {
			c = n
		} else if el := ptrElem(x.gt); el != nil {
			_, c = w.classCtor(el)
		} else if x.t.Kind == KCtor {
			c = x.t.Ctor
		}
		if c == nil {
			en.fail(e, "field %s of %s value without a known variant", name, cl.Name)
		}
		if len(c.Fields) == 0 {
			en.fail(e, "field %s of %s", name, c.Name)
		}
		if i := c.FieldIndex(name); i >= 0 && name != "v" {
			return TV{mkSel(c, i, x.t), nil}
		}
		r, ok := w.structField(mkSel(c, 0, x.t), name)
		if !ok {
			en.fail(e, "%s has no field %s", c.Name, name)
		}
		return r
	}
	if d := x.t.Sort.Data; d != nil && !isOpt(x.t.Sort) && len(d.Ctors) > 1 {
		var c *Ctor
		if n := en.narrow[x.t]; n != nil {
			c = n
		} else if x.t.Kind == KCtor {
			c = x.t.Ctor
		}
		if c != nil {
			if i := c.FieldIndex(name); i >= 0 {
				return TV{mkSel(c, i, x.t), w.selGo[c.Fields[i].Sel]}
			}
			en.fail(e, "%s has no field %s", c.Name, name)
		}
		n := 0
		for _, c := range d.Ctors {
			if c.FieldIndex(name) >= 0 {
				n++
			}
		}
		if n > 1 {
			en.fail(e, "field %s is in several variants of %s", name, d.Sort.Name)
		}
	}
	r, ok := w.structField(x.t, name)
	if !ok {
		en.fail(e, "no field %s in sort %s", name, x.t.Sort.Name)
	}
	return r
}

func (w *World) nilTest(t *Term) *Term {
	if cl := w.classBySort(t.Sort); cl != nil {
		return mkIs(cl.Null, t)
	}
	if t.Sort == w.errD.Sort {
		return mkIs(w.errD.Ctors[0], t)
	}
	if t.Sort == w.anyD.Sort {
		return mkIs(w.anyD.Ctors[0], t)
	}
	if isOpt(t.Sort) {
		return mkIs(t.Sort.Data.Ctors[0], t)
	}
	if t.Sort == sInt {
		return mkEq(t, mkInt(0))
	}
	return nil
}

func elemGo(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (en *Env) eval(e *Expr) TV {
	w := en.w
	switch e.Op {
	case "num":
		b, _ := new(big.Int).SetString(e.Name, 10)
		return TV{t: mkBig(b)}
	case "str":
		return TV{t: mkStr(e.Name)}
	case "id":
		if f, ok := en.names[e.Name]; ok {
			if v, ok := f(en.old); ok {
				return v
			}
			en.fail(e, "%s is not available here", e.Name)
		}
		switch e.Name {
		case "true":
			return TV{t: tTrue}
		case "false":
			return TV{t: tFalse}
		case "minint":
			return TV{t: mkBig(minI64)}
		case "maxint":
			return TV{t: mkBig(maxI64)}
		}
		if f := w.specs.Fns[e.Name]; f != nil && len(f.Params) == 0 {
			return en.call(e)
		}
		if c := w.findCtor(e.Name); c != nil && len(c.Fields) == 0 {
			return TV{t: mkCtor(c)}
		}
		if v, ok := w.goConst(e.Name); ok {
			return TV{t: v}
		}
		if e.Name == "nil" {
			return TV{t: tNilAny}
		}
		en.fail(e, "unknown name %s", e.Name)
	case "field":
		// package constant pkg.NAME is written as an identifier; here: struct field
		return en.field(e, en.eval(e.Args[0]), e.Name)
	case "index":
		x, i := en.eval(e.Args[0]), en.eval(e.Args[1])
		if x.t.Sort.Elem == nil {
			en.fail(e, "index of sort %s", x.t.Sort.Name)
		}
		return TV{mkNth(x.t, i.t), elemGo(x.gt)}
	case "as":
		x := en.eval(e.Args[0])
		return en.asVariant(e, x, e.Name)
	case "is":
		x := en.eval(e.Args[0])
		if cl, ok := en.heapRef(x); ok {
			x = TV{mkSelect(en.heap(en.old), x.t), cl.Named}
		}
		c := w.variant(x.t.Sort, e.Name)
		if c == nil {
			en.fail(e, "no variant %s in %s", e.Name, x.t.Sort.Name)
		}
		return TV{t: mkIs(c, x.t)}
	case "old":
		n := *en
		n.old = true
		return n.eval(e.Args[0])
	case "un":
		if e.Name == "!" {
			return TV{t: mkNot(en.boolT(e.Args[0]))}
		}
		return TV{t: mkNeg(en.term(e.Args[0]))}
	case "ite":
		c := en.boolT(e.Args[0])
		if c == tTrue {
			return en.eval(e.Args[1])
		}
		if c == tFalse {
			return en.eval(e.Args[2])
		}
		a, b := en.eval(e.Args[1]), en.eval(e.Args[2])
		a.t, b.t = coerceSeq(a.t, b.t.Sort), coerceSeq(b.t, a.t.Sort)
		if a.t.Sort != b.t.Sort {
			en.fail(e, "branches of sorts %s and %s", a.t.Sort.Name, b.t.Sort.Name)
		}
		g := a.gt
		if g == nil {
			g = b.gt
		}
		return TV{mkIte(c, a.t, b.t), g}
	case "let":
		v := en.eval(e.Args[0])
		return en.bind(e.Name, v).eval(e.Args[1])
	case "switch":
		x := en.eval(e.Args[0])
		if cl, ok := en.heapRef(x); ok {
			x = TV{mkSelect(en.heap(en.old), x.t), cl.Named}
		}
		if x.t.Sort.Data == nil {
			en.fail(e, "switch on sort %s", x.t.Sort.Name)
		}
		var res TV
		set := false
		for i := len(e.Arms) - 1; i >= 0; i-- {
			a := e.Arms[i]
			if len(a.Ctors) == 0 {
				res = en.eval(a.Body)
				set = true
				continue
			}
			for k := len(a.Ctors) - 1; k >= 0; k-- {
				c := w.variant(x.t.Sort, a.Ctors[k])
				if c == nil {
					en.fail(e, "no variant %s in %s", a.Ctors[k], x.t.Sort.Name)
				}
				b := en.narrowTo(x.t, c).eval(a.Body)
				if !set {
					res = b
					set = true
					continue
				}
				b.t, res.t = coerceSeq(b.t, res.t.Sort), coerceSeq(res.t, b.t.Sort)
				if b.t.Sort != res.t.Sort {
					en.fail(e, "arm %s: sort %s, others %s", a.Ctors[k], b.t.Sort.Name, res.t.Sort.Name)
				}
				res = TV{mkIte(mkIs(c, x.t), b.t, res.t), res.gt}
			}
		}
		return res
	case "seq":
		if len(e.Args) == 0 {
			return TV{t: tEmptyAny}
		}
		var ts []*Term
		var gt types.Type
		for _, a := range e.Args {
			v := en.eval(a)
			ts = append(ts, mkUnit(v.t))
			if v.gt != nil {
				gt = types.NewSlice(v.gt)
			}
		}
		return TV{mkCat(ts[0].Sort, ts...), gt}
	case "bin":
		return en.bin(e)
	case "call":
		return en.call(e)
	}
	en.fail(e, "cannot elaborate %s", e.Op)
	return TV{}
}

// tEmptyAny is the empty sequence literal before its element sort is known.
var tEmptyAny = mkEmpty(mkSort("Seq_?"))

// tNilAny is nil before its sort is known.
var tNilAny = mkConst("nil?", mkSort("Nil_?"))

func coerceSeq(t *Term, s *Sort) *Term {
	if t == tNilAny && s.Data != nil && len(s.Data.Ctors[0].Fields) == 0 {
		return mkCtor(s.Data.Ctors[0])
	}
	if t == tEmptyAny && s.Elem != nil {
		return mkEmpty(s)
	}
	return t
}

func (en *Env) asVariant(e *Expr, x TV, name string) TV {
	w := en.w
	if cl, ok := en.heapRef(x); ok {
		x = TV{mkSelect(en.heap(en.old), x.t), cl.Named}
	}
	c := w.variant(x.t.Sort, name)
	if c == nil {
		en.fail(e, "no variant %s in %s", name, x.t.Sort.Name)
	}
	if len(c.Fields) == 1 && c.Fields[0].Name == "v" {
		return TV{mkSel(c, 0, x.t), w.selGo[c.Fields[0].Sel]}
	}
	if isOpt(x.t.Sort) {
		return TV{mkSel(c, 0, x.t), ptrElem(x.gt)}
	}
	en.fail(e, "variant access .(%s)", name)
	return TV{}
}

func (en *Env) boolT(e *Expr) *Term {
	t := en.term(e)
	if t.Sort != sBool {
		en.fail(e, "Bool expected, got %s", t.Sort.Name)
	}
	return t
}

func (en *Env) bin(e *Expr) TV {
	w := en.w
	switch e.Name {
	case "&&":
		a := en.boolT(e.Args[0])
		if a == tFalse {
			return TV{t: tFalse}
		}
		return TV{t: mkAnd(a, en.boolT(e.Args[1]))}
	case "||":
		a := en.boolT(e.Args[0])
		if a == tTrue {
			return TV{t: tTrue}
		}
		return TV{t: mkOr(a, en.boolT(e.Args[1]))}
	case "==>":
		a := en.boolT(e.Args[0])
		if a == tFalse {
			return TV{t: tTrue}
		}
		return TV{t: mkImp(a, en.boolT(e.Args[1]))}
	case "<==>":
		return TV{t: mkEq(en.boolT(e.Args[0]), en.boolT(e.Args[1]))}
	case "==", "!=":
		if e.Args[1].Op == "id" && e.Args[1].Name == "nil" {
			x := en.eval(e.Args[0])
			r := w.nilTest(x.t)
			if r == nil {
				en.fail(e, "nil test of sort %s", x.t.Sort.Name)
			}
			if e.Name == "!=" {
				r = mkNot(r)
			}
			return TV{t: r}
		}
		a, b := en.term(e.Args[0]), en.term(e.Args[1])
		a, b = coerceSeq(a, b.Sort), coerceSeq(b, a.Sort)
		if a.Sort != b.Sort {
			en.fail(e, "equality of %s and %s", a.Sort.Name, b.Sort.Name)
		}
		r := mkEq(a, b)
		if e.Name == "!=" {
			r = mkNot(r)
		}
		return TV{t: r}
	}
	x := en.eval(e.Args[0])
	y := en.eval(e.Args[1])
	a, b := coerceSeq(x.t, y.t.Sort), coerceSeq(y.t, x.t.Sort)
	if e.Name == "+" && a.Sort == sStr && b.Sort == sStr {
		return TV{t: mkConc(a, b)}
	}
	if e.Name == "+" && a.Sort.Elem != nil && a.Sort == b.Sort {
		g := x.gt
		if g == nil {
			g = y.gt
		}
		return TV{mkCat(a.Sort, a, b), g}
	}
	if a.Sort != sInt || b.Sort != sInt {
		en.fail(e, "%s on %s and %s", e.Name, a.Sort.Name, b.Sort.Name)
	}
	switch e.Name {
	case "<":
		return TV{t: mkLt(a, b)}
	case "<=":
		return TV{t: mkLe(a, b)}
	case ">":
		return TV{t: mkLt(b, a)}
	case ">=":
		return TV{t: mkLe(b, a)}
	case "+":
		return TV{t: mkAdd(a, b)}
	case "-":
		return TV{t: mkSub(a, b)}
	case "*":
		return TV{t: mkMul(a, b)}
	}
	en.fail(e, "operator %s", e.Name)
	return TV{}
}

func (en *Env) call(e *Expr) TV {
	w := en.w
	arg := func(i int) TV { return en.eval(e.Args[i]) }
	n := len(e.Args)
	if en.goCall != nil {
		if t, ok := en.goCall(e.Name, e.Args, en.old); ok {
			return TV{t: t}
		}
	}
	switch {
	case e.Name == "len" && n == 1:
		x := arg(0)
		if x.t.Sort == sStr {
			return TV{t: mkStrLen(x.t)}
		}
		if x.t.Sort.Elem == nil {
			en.fail(e, "len of %s", x.t.Sort.Name)
		}
		return TV{t: mkLen(x.t)}
	case e.Name == "take" && n == 2:
		x := arg(0)
		return TV{mkTake(x.t, arg(1).t), x.gt}
	case e.Name == "drop" && n == 2:
		x := arg(0)
		return TV{mkDrop(x.t, arg(1).t), x.gt}
	case e.Name == "update" && n == 3:
		x := arg(0)
		return TV{mkUpd(x.t, arg(1).t, arg(2).t), x.gt}
	case e.Name == "wrap64" && n == 1:
		return TV{t: mkWrap(arg(0).t)}
	case e.Name == "fits64" && n == 1:
		x := arg(0).t
		return TV{t: mkAnd(mkLe(mkBig(minI64), x), mkLe(x, mkBig(maxI64)))}
	case e.Name == "tdiv" && n == 2:
		return TV{t: mkTDiv(arg(0).t, arg(1).t)}
	case e.Name == "trem" && n == 2:
		return TV{t: mkTRem(arg(0).t, arg(1).t)}
	case e.Name == "stream" && n == 1:
		return TV{t: mkSelect(en.heap(en.old), arg(0).t)}
	case e.Name == "heap" && n == 0:
		return TV{t: en.heap(en.old)}
	case e.Name == "all" && n >= 2:
		f := w.specs.Fns[e.Args[0].Name]
		if f == nil {
			en.fail(e, "all: unknown predicate %s", e.Args[0].Name)
		}
		w.elabFn(f)
		s := arg(1).t
		var ex []*Term
		for i := 2; i < n; i++ {
			ex = append(ex, arg(i).t)
		}
		return TV{t: mkAll(f.Name, s, ex...)}
	case e.Name == "struct" && n >= 1:
		// struct(pkg_Name, field values...)
		c := w.findCtor(e.Args[0].Name)
		var as []*Term
		for i := 1; i < n; i++ {
			as = append(as, coerceSeq(arg(i).t, c.Fields[i-1].Sort))
		}
		return TV{t: mkCtor(c, as...)}
	case e.Name == "set" && n == 3:
		// set(x, field, v): x with a (possibly promoted) field replaced
		x := arg(0)
		return TV{en.setField(e, x, e.Args[1].Name, arg(2).t), x.gt}
	case e.Name == "some" && n == 1:
		x := arg(0)
		return TV{t: mkCtor(w.optSort(x.t.Sort).Data.Ctors[1], x.t)}
	case e.Name == "put" && n == 3:
		// put(m, k, v): the map with v at k
		m := coerceSeq(arg(0).t, w.textMap())
		c := m.Sort.Data.Ctors[1]
		return TV{t: mkCtor(c, mkStore(mkSel(c, 0, m), arg(1).t, mkCtor(heapElem[c.Fields[0].Sort].Data.Ctors[1], arg(2).t)))}
	case e.Name == "get" && n == 2:
		// get(m, k): what m has at k, if anything
		m := coerceSeq(arg(0).t, w.textMap())
		c := m.Sort.Data.Ctors[1]
		return TV{t: mkSelect(mkSel(c, 0, m), arg(1).t)}
	case e.Name == "at" && n == 2:
		// at(m, k): what m has at k, when it has something
		m := coerceSeq(arg(0).t, w.textMap())
		a := mkSelect(mkSel(m.Sort.Data.Ctors[1], 0, m), arg(1).t)
		return TV{t: mkSel(a.Sort.Data.Ctors[1], 0, a)}
	case e.Name == "has" && n == 2:
		m := coerceSeq(arg(0).t, w.textMap())
		a := mkSelect(mkSel(m.Sort.Data.Ctors[1], 0, m), arg(1).t)
		return TV{t: mkIs(a.Sort.Data.Ctors[1], a)}
	case e.Name == "emptyMap" && n == 0:
		c := w.textMap().Data.Ctors[1]
		return TV{t: mkCtor(c, mkApp("empty_map", c.Fields[0].Sort, mkCtor(heapElem[c.Fields[0].Sort].Data.Ctors[0])))}
	case e.Name == "box" && n == 2:
		// box(GoType, value)
		c := en.boxNamed(e)
		return TV{t: mkCtor(c, coerceSeq(arg(1).t, c.Fields[0].Sort))}
	case e.Name == "boxed" && n == 2:
		// boxed(GoType, v): the interface value v holds a GoType
		return TV{t: mkIs(en.boxNamed(e), arg(1).t)}
	case e.Name == "unbox" && n == 2:
		c := en.boxNamed(e)
		return TV{mkSel(c, 0, arg(1).t), w.boxGo[c]}
	}
	if f := w.specs.Fns[e.Name]; f != nil {
		if len(f.Params) != n {
			en.fail(e, "%s takes %d arguments", e.Name, len(f.Params))
		}
		w.elabSig(f)
		as := make([]*Term, n)
		for i := range as {
			as[i] = coerceSeq(arg(i).t, f.PSorts[i])
			if as[i].Sort != f.PSorts[i] {
				en.fail(e, "%s argument %d: %s for %s", e.Name, i+1, as[i].Sort.Name, f.PSorts[i].Name)
			}
		}
		_, gt := w.specType(f.Ret)
		if f.Body == nil || f.Rec {
			return TV{mkApp(f.Name, f.RSort, as...), gt}
		}
		return TV{w.expand(f, as), gt}
	}
	if c := w.findCtor(e.Name); c != nil {
		if len(c.Fields) != n {
			en.fail(e, "constructor %s takes %d arguments", e.Name, len(c.Fields))
		}
		as := make([]*Term, n)
		for i := range as {
			as[i] = coerceSeq(arg(i).t, c.Fields[i].Sort)
			if as[i].Sort != c.Fields[i].Sort {
				en.fail(e, "%s argument %d: %s for %s", e.Name, i+1, as[i].Sort.Name, c.Fields[i].Sort.Name)
			}
		}
		return TV{t: mkCtor(c, as...)}
	}
	en.fail(e, "unknown function %s", e.Name)
	return TV{}
}

func (w *World) setIn(t *Term, name string, v *Term) (*Term, bool) {
	d := t.Sort.Data
	if d == nil {
		return nil, false
	}
	rebuildWith := func(c *Ctor, i int, x *Term) *Term {
		as := make([]*Term, len(c.Fields))
		for k := range as {
			if k == i {
				as[k] = x
			} else {
				as[k] = mkSel(c, k, t)
			}
		}
		return mkCtor(c, as...)
	}
	for _, c := range d.Ctors {
		if i := c.FieldIndex(name); i >= 0 {
			return rebuildWith(c, i, coerceSeq(v, c.Fields[i].Sort)), true
		}
	}
	if len(d.Ctors) == 1 {
		c := d.Ctors[0]
		for i := range c.Fields {
			if w.embed[c][i] {
				if r, ok := w.setIn(mkSel(c, i, t), name, v); ok {
					return rebuildWith(c, i, r), true
				}
			}
		}
	}
	return nil, false
}

func (en *Env) setField(e *Expr, x TV, name string, v *Term) *Term {
	w := en.w
	if cl := w.classBySort(x.t.Sort); cl != nil {
		var c *Ctor
		if n := en.narrow[x.t]; n != nil {
			c = n
		} else if el := ptrElem(x.gt); el != nil {
			_, c = w.classCtor(el)
		} else if x.t.Kind == KCtor {
			c = x.t.Ctor
		}
		if c == nil {
			en.fail(e, "set on %s without a known variant", cl.Name)
		}
		r, ok := w.setIn(mkSel(c, 0, x.t), name, v)
		if !ok {
			en.fail(e, "set: no field %s", name)
		}
		return mkCtor(c, r)
	}
	r, ok := w.setIn(x.t, name, v)
	if !ok {
		en.fail(e, "set: no field %s", name)
	}
	return r
}

func (w *World) elabSig(f *SpecFn) {
	if f.RSort != nil {
		return
	}
	for _, p := range f.Params {
		s, _ := w.specType(p.Type)
		f.PSorts = append(f.PSorts, s)
		f.pconsts = append(f.pconsts, mkConst(f.Name+"$"+p.Name, s))
	}
	f.RSort, _ = w.specType(f.Ret)
}

func (w *World) elabFn(f *SpecFn) {
	w.elabSig(f)
	if f.body != nil || f.Body == nil {
		return
	}
	f.body = tTrue // guards against cyclic defs
	en := &Env{w: w, names: map[string]func(bool) (TV, bool){}}
	for i, p := range f.Params {
		_, gt := w.specType(p.Type)
		en = en.bind(p.Name, TV{f.pconsts[i], gt})
	}
	en.heap = func(bool) *Term { panic(elabErr{"heap in spec function " + f.Name}) }
	b := coerceSeq(en.eval(f.Body).t, f.RSort)
	if b.Sort != f.RSort {
		panic(elabErr{fmt.Sprintf("function %s: body has sort %s, declared %s", f.Name, b.Sort.Name, f.RSort.Name)})
	}
	f.body = b
}

// expand instantiates the definition of f.
func (w *World) expand(f *SpecFn, as []*Term) *Term {
	w.elabFn(f)
	m := map[*Term]*Term{}
	for i, c := range f.pconsts {
		m[c] = as[i]
	}
	return newSubst(m).app(f.body)
}

// goConst resolves pkg_NAME to a Go constant.
func (w *World) goConst(name string) (*Term, bool) {
	i := strings.IndexByte(name, '_')
	if i < 0 {
		return nil, false
	}
	for path, p := range w.spkgs {
		if strings.HasSuffix(path, "/"+name[:i]) {
			if c, ok := p.Pkg.Scope().Lookup(name[i+1:]).(*types.Const); ok {
				return constTerm(c.Val(), c.Type()), true
			}
		}
	}
	return nil, false
}

// boxNamed is the box the first argument names.
func (en *Env) boxNamed(e *Expr) *Ctor {
	w := en.w
	c := w.anyD.ctor("box_" + e.Args[0].Name)
	if c == nil {
		// a slice (__pkg_Type), a pointer (_pkg_Type) or a named type
		star, name := "", e.Args[0].Name
		for _, pre := range []string{"__", "_"} {
			if star == "" && strings.HasPrefix(name, pre) {
				star, name = pre, name[len(pre):]
			}
		}
		var t types.Type
		if name == "any" {
			t = types.NewInterfaceType(nil, nil)
		} else if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
			t = o.Type()
		}
		for _, p := range w.prog.AllPackages() {
			if n := strings.TrimPrefix(name, p.Pkg.Name()+"_"); t == nil && n != name {
				if o, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
					t = o.Type()
				}
			}
		}
		if t != nil && star == "_" {
			t = types.NewPointer(t)
		}
		if t != nil && star == "__" {
			t = types.NewSlice(t)
		}
		if t != nil {
			c = w.box(t)
		}
	}
	if c == nil {
		en.fail(e, "no box %s", e.Args[0].Name)
	}
	return c
}
