package main

// A recursive definition of the form
//
//	rec f(xs, ys...) = if len(xs) == 0 then [] else [g(xs[0], ys...)] + f(drop(xs, 1), ys...)
//
// is g applied to every element. Its length, elements, parts and concatenations
// are those of xs; it is unfolded only along a loop (on a drop).
type mapFn struct {
	w  *World
	f  *SpecFn
	el *Term // the body of g
	at *Term // xs[0] in it
}

var mapFns = map[string]*mapFn{}

func (w *World) findMaps() {
	for _, f := range w.specs.Fns {
		if !f.Rec || f.Body == nil || len(f.pconsts) == 0 || f.RSort.Elem == nil || f.pconsts[0].Sort.Elem == nil {
			continue
		}
		b, x := f.body, f.pconsts[0]
		if b.Kind != KIte || b.Args[0] != mkEq(mkLen(x), mkInt(0)) || b.Args[1].Kind != KEmpty || b.Args[2].Kind != KCat || len(b.Args[2].Args) != 2 {
			continue
		}
		u, r := b.Args[2].Args[0], b.Args[2].Args[1]
		if u.Kind != KUnit || r.Kind != KApp || r.Name != f.Name || r.Args[0] != mkDrop(x, mkInt(1)) {
			continue
		}
		ok := true
		for i, c := range f.pconsts {
			if i > 0 && r.Args[i] != c {
				ok = false
			}
		}
		at := mkNth(x, mkInt(0))
		// xs only occurs as its first element
		probe := mkConst("$probe_"+f.Name, at.Sort)
		g := newSubst(map[*Term]*Term{at: probe}).app(u.Args[0])
		if g.contains(x, map[*Term]bool{}) {
			ok = false
		}
		if ok {
			mapFns[f.Name] = &mapFn{w: w, f: f, el: g, at: probe}
		}
	}
}

func (m *mapFn) elem(x *Term, rest []*Term) *Term {
	s := map[*Term]*Term{m.at: x}
	for i, c := range m.f.pconsts {
		if i > 0 {
			s[c] = rest[i-1]
		}
	}
	return newSubst(s).app(m.el)
}

// mapApp pushes the application into the structure of the sequence.
func (m *mapFn) mapApp(s *Sort, args []*Term) *Term {
	x := args[0]
	sub := func(y *Term) *Term { return mkApp(m.f.Name, s, append([]*Term{y}, args[1:]...)...) }
	switch x.Kind {
	case KEmpty:
		return mkEmpty(s)
	case KUnit:
		return mkUnit(m.elem(x.Args[0], args[1:]))
	case KCat:
		var as []*Term
		for _, a := range x.Args {
			as = append(as, sub(a))
		}
		return mkCat(s, as...)
	case KUpd:
		return mkUpd(sub(x.Args[0]), x.Args[1], m.elem(x.Args[2], args[1:]))
	case KIte:
		return mkIte(x.Args[0], sub(x.Args[1]), sub(x.Args[2]))
	}
	return nil
}

func mapOf(t *Term) *mapFn {
	if t.Kind != KApp {
		return nil
	}
	return mapFns[t.Name]
}
