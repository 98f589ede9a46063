package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// scanGlobals finds the package variables that are written after initialisation.
func (w *World) scanGlobals() {
	w.mutGlob = map[*ssa.Global]string{}
	w.gMaps = map[*ssa.Global]*MapV{}
	w.gTerms = map[*ssa.Global]*Term{}
	w.storesTo = map[string]bool{}
	for _, fn := range w.allFuncs {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if isInit {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						w.mutGlob[g] = fn.String()
					}
					a := x.Addr
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						a = fa.X
						if _, ok := a.(*ssa.Alloc); ok {
							break
						}
						w.storesTo[fa.X.Type().Underlying().(*types.Pointer).Elem().String()] = true
					}
					if _, ok := a.(*ssa.Alloc); !ok {
						w.storesTo[a.Type().Underlying().(*types.Pointer).Elem().String()] = true
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							w.mutGlob[g] = fn.String()
						}
					}
				}
			}
		}
	}
}

// initValue evaluates the initialiser of a value statically.
func (w *World) initValue(v ssa.Value, d int) *Term {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return w.zero(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.MakeInterface:
		cl := w.classOfIface(x.Type())
		if cl == nil || cl.Heap {
			return nil
		}
		return w.initValue(x.X, d+1)
	case *ssa.ChangeType:
		return w.initValue(x.X, d+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.String() == "errors.New" {
			if a := w.initValue(x.Call.Args[0], d+1); a != nil {
				return mkErr(w, a)
			}
		}
		if f != nil && f.String() == "regexp.MustCompile" {
			if a := w.initValue(x.Call.Args[0], d+1); a != nil {
				s := w.sortOf(x.Type())
				return mkCtor(s.Data.Ctors[1], mkApp("regexp", s.Data.Ctors[1].Fields[0].Sort, a))
			}
		}
		return nil
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return nil
		}
		return w.initStruct(a, a.Type().Underlying().(*types.Pointer).Elem(), d)
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		body := w.initStruct(x, el, d)
		if body == nil {
			return nil
		}
		if cl, c := w.classCtor(el); cl != nil {
			return mkCtor(c, body)
		}
		s := w.sortOf(x.Type())
		if !isOpt(s) {
			return nil
		}
		return mkCtor(s.Data.Ctors[1], body)
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		els := make([]*Term, at.Len())
		for i := range els {
			els[i] = w.zero(at.Elem())
		}
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r2 := range *ia.Referrers() {
				s, ok := r2.(*ssa.Store)
				if !ok || s.Addr != ia {
					return nil
				}
				t := w.initValue(s.Val, d+1)
				if t == nil {
					return nil
				}
				els[c.Int64()] = t
			}
		}
		var us []*Term
		for _, e := range els {
			us = append(us, mkUnit(e))
		}
		return mkCat(w.sortOf(x.Type()), us...)
	}
	return nil
}

func (w *World) initStruct(addr ssa.Value, el types.Type, d int) *Term {
	st, ok := el.Underlying().(*types.Struct)
	z := w.zero(el)
	if !ok || z.Kind != KCtor {
		return nil
	}
	as := append([]*Term(nil), z.Args...)
	var refs []ssa.Instruction
	if g, ok := addr.(*ssa.Global); ok {
		refs = initRefs(g)
	} else if r := addr.Referrers(); r != nil {
		refs = *r
	} else {
		return nil
	}
	for _, r := range refs {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			ft := st.Field(x.Field).Type()
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
					t := w.initValue(s.Val, d+1)
					if t == nil {
						return nil
					}
					as[x.Field] = t
				} else if _, ok := r2.(*ssa.FieldAddr); ok {
					t := w.initStruct(x, ft, d+1)
					if t == nil {
						return nil
					}
					as[x.Field] = t
				}
			}
		}
	}
	return mkCtor(z.Ctor, as...)
}

// initRefs are the instructions of the initialiser of g's package that mention g.
func initRefs(g *ssa.Global) []ssa.Instruction {
	var out []ssa.Instruction
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					out = append(out, in)
					break
				}
			}
		}
	}
	return out
}

func (w *World) initStores(g *ssa.Global) []ssa.Value {
	var out []ssa.Value
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

// written: some code may write a value of this type in place.
func (w *World) written(t types.Type) bool {
	if w.storesTo[t.String()] {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && w.written(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// globalInit is the value of a package variable that is never written after
// initialisation (nil: unknown).
func (w *World) globalInit(g *ssa.Global) *Term {
	if t, ok := w.gTerms[g]; ok {
		return t
	}
	w.gTerms[g] = nil
	if w.mutGlob[g] != "" || !isOwn(g.Pkg.Pkg) {
		return nil
	}
	vs := w.initStores(g)
	el := g.Type().Underlying().(*types.Pointer).Elem()
	if len(vs) == 0 {
		// composite literals may be stored field by field
		refs := initRefs(g)
		if len(refs) > 0 {
			if w.written(el) {
				return nil
			}
			for _, r := range refs {
				if _, ok := r.(*ssa.FieldAddr); !ok {
					return nil
				}
			}
			t := w.initStruct(g, el, 0)
			w.gTerms[g] = t
			return t
		}
		t := w.zero(el)
		w.gTerms[g] = t
		return t
	}
	if len(vs) != 1 {
		return nil
	}
	if pt := ptrElem(el); pt != nil && w.written(pt) {
		return nil
	}
	t := w.initValue(vs[0], 0)
	if t != nil && t.Sort != w.sortOf(el) {
		t = nil
	}
	w.gTerms[g] = t
	return t
}

// globalMap is the constant content of a package level map.
func (w *World) globalMap(g *ssa.Global) (MapV, bool) {
	if m, ok := w.gMaps[g]; ok {
		if m == nil {
			return MapV{}, false
		}
		return *m, true
	}
	w.gMaps[g] = nil
	el := g.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Map); !ok || w.mutGlob[g] != "" {
		return MapV{}, false
	}
	vs := w.initStores(g)
	if len(vs) != 1 {
		return MapV{}, false
	}
	mm, ok := vs[0].(*ssa.MakeMap)
	if !ok {
		return MapV{}, false
	}
	d := &mapData{}
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k := w.initValue(x.Key, 0)
			if k == nil {
				return MapV{}, false
			}
			d.keys = append(d.keys, k)
			if f, ok := x.Value.(*ssa.Function); ok {
				_ = f
				d.vals = append(d.vals, nil)
			} else {
				d.vals = append(d.vals, w.initValue(x.Value, 0))
			}
		case *ssa.Store, *ssa.DebugRef:
		default:
			return MapV{}, false
		}
	}
	m := &MapV{d}
	w.gMaps[g] = m
	return *m, true
}
