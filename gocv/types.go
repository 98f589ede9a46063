package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/raa0121/GoBCDice"

// World is the loaded program plus the mapping of its types to sorts.
type World struct {
	scale    float64 // for the time limits of the function at hand
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    map[string]*ssa.Package // by path relative to the module
	specs    *Specs
	classes  []*Class
	sorts    map[string]*Sort // memo by type string
	ctorGo   map[*Ctor]*types.Struct
	funcs    map[string]*ssa.Function // by contract key
	embed    map[*Ctor]map[int]bool
	selGo    map[string]types.Type // selector name -> go type
	anyD     *Data
	errD     *Data
	initSt   *State
	mutGlob  map[*ssa.Global]string
	gMaps    map[*ssa.Global]*MapV
	gTerms   map[*ssa.Global]*Term
	allFuncs []*ssa.Function
	boxGo    map[*Ctor]types.Type
	storesTo map[string]bool
	nonnil   map[string]bool // selectors of pointer fields that are never nil
}

// Class is an interface whose values are an algebraic datatype of its
// implementing struct types.
type Class struct {
	Name  string
	Iface *types.Interface
	Named *types.Named
	Data  *Data
	Null  *Ctor
	TNil  *Ctor // typed nil
	Other *Ctor // heap classes: foreign implementation
	Impl  []*types.Named
	ctors map[*types.Named]*Ctor
	Heap  bool
}

func relPkg(path string) string { return strings.TrimPrefix(path, modPath+"/") }

func loadWorld(repo string, specDir string, modfile string) (*World, error) {
	flags := []string{"-tags=verif"}
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		BuildFlags: flags,
	}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./cmd/GoBCDiceREPL/...", "./cmd/GoBCDiceAPI/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	w := &World{prog: prog, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, sorts: map[string]*Sort{},
		ctorGo: map[*Ctor]*types.Struct{}, funcs: map[string]*ssa.Function{}, embed: map[*Ctor]map[int]bool{}, selGo: map[string]types.Type{}, boxGo: map[*Ctor]types.Type{}, nonnil: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			w.spkgs[relPkg(p.Pkg.Path())] = p
			p.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && fn.Synthetic == "" {
			w.funcs[funcKey(fn)] = fn
		}
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			w.allFuncs = append(w.allFuncs, fn)
		}
	}
	w.specs = loadSpecs(specDir)
	for _, d := range w.specs.Grammars {
		w.loadGrammar(w.specs, d, repo)
	}
	w.setupSorts()
	return w, nil
}

// funcKey names a function the way contracts do.
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + fn.Name()
	}
	if fn.Pkg == nil {
		return fn.String()
	}
	p := relPkg(fn.Pkg.Pkg.Path())
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		s := ""
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			s = "*"
		}
		n := "?"
		if nm, ok := t.(*types.Named); ok {
			n = nm.Obj().Name()
		}
		if s != "" {
			return p + ".(*" + n + ")." + fn.Name()
		}
		return p + "." + n + "." + fn.Name()
	}
	return p + "." + fn.Name()
}

func (w *World) lookupNamed(pkg, name string) *types.Named {
	p := w.spkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

var nullSort = sInt

func (w *World) setupSorts() {
	w.errD = dataSort("Err")
	w.errD.addCtor("Err_nil")
	w.errD.addCtor("Err_mk").addField("msg", sStr)
	w.anyD = dataSort("Any")
	w.anyD.addCtor("Any_nil")
	w.anyD.addCtor("Any_other").addField("id", sInt)

	for _, c := range []struct {
		name, pkg, typ string
		heap           bool
	}{
		{"Node", "pkg/core/ast", "Node", false},
		{"Obj", "pkg/core/object", "Object", false},
		{"Stream", "pkg/core/dice/feeder", "DieFeeder", true},
		{"Bot", "pkg/dicebot", "DiceBot", false},
		{"Model", "cmd/GoBCDiceAPI/helpers", "Responsible", false},
	} {
		n := w.lookupNamed(c.pkg, c.typ)
		if n == nil {
			continue
		}
		cl := &Class{Name: c.name, Named: n, Heap: c.heap, ctors: map[*types.Named]*Ctor{}}
		cl.Iface, _ = n.Underlying().(*types.Interface)
		if cl.Iface == nil {
			continue
		}
		cl.Data = dataSort(c.name)
		w.classes = append(w.classes, cl)
	}
	for _, cl := range w.classes {
		if cl.Heap {
			cl.Other = cl.Data.addCtor(cl.Name + "_other")
			cl.Other.addField("id", sInt)
		} else {
			cl.Null = cl.Data.addCtor(cl.Name + "_null")
			cl.TNil = cl.Data.addCtor(cl.Name + "_typednil")
		}
		var impl []*types.Named
		for path, p := range w.spkgs {
			if !strings.HasPrefix(path, "pkg/") && !strings.HasPrefix(path, "cmd/") {
				continue
			}
			for _, name := range p.Pkg.Scope().Names() {
				tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if _, ok := nt.Underlying().(*types.Struct); !ok {
					continue
				}
				if types.Implements(types.NewPointer(nt), cl.Iface) {
					impl = append(impl, nt)
				}
			}
		}
		sort.Slice(impl, func(i, j int) bool { return impl[i].String() < impl[j].String() })
		for _, nt := range impl {
			c := cl.Data.addCtor(cl.Name + "_" + nt.Obj().Name())
			cl.Impl = append(cl.Impl, nt)
			cl.ctors[nt] = c
		}
	}
	for _, cl := range w.classes {
		for _, nt := range cl.Impl {
			cl.ctors[nt].addField("v", w.sortOf(nt))
		}
	}
	for _, nn := range w.specs.NonNil {
		s, gt := w.specType(&TypeExpr{Name: nn[0]})
		if cl := w.classBySort(s); cl != nil {
			_, c := w.classCtor(ptrElem(gt))
			s = c.Fields[0].Sort
		}
		if n, ok := gt.(*types.Named); ok && w.classOfStruct(n) != nil {
			_, c := w.classCtor(n)
			s = c.Fields[0].Sort
		}
		c := s.Data.Ctors[0]
		i := c.FieldIndex(nn[1])
		if i < 0 {
			panic("nonnil: no field " + nn[0] + "." + nn[1])
		}
		w.nonnil[c.Fields[i].Sel] = true
	}
	// spec datatypes
	for _, n := range w.specs.Opaque {
		mkSort(n)
	}
	for _, d := range w.specs.Data {
		dataSort(d.Name)
	}
	for _, d := range w.specs.Data {
		dd := dataSort(d.Name)
		for _, c := range d.Ctors {
			cc := dd.addCtor(c.Name)
			for _, f := range c.Fields {
				s, gt := w.specType(f.Type)
				cc.addField(f.Name, s)
				if gt != nil {
					w.selGo[cc.Fields[len(cc.Fields)-1].Sel] = gt
				}
			}
		}
	}
}

// specType resolves a type name of the contract language.
func (w *World) specType(t *TypeExpr) (*Sort, types.Type) {
	switch t.Name {
	case "Map":
		return w.textMap(), nil
	case "Seq":
		s, gt := w.specType(t.Elem)
		if gt != nil {
			return seqSort(s), types.NewSlice(gt)
		}
		return seqSort(s), nil
	case "Int":
		return sInt, nil
	case "int":
		return sInt, types.Typ[types.Int]
	case "Bool":
		return sBool, nil
	case "String":
		return sStr, nil
	case "Ref":
		return sInt, nil
	}
	if strings.HasPrefix(t.Name, "Opt_") {
		s, _ := w.specType(&TypeExpr{Name: t.Name[4:]})
		return w.optSort(s), nil
	}
	if strings.HasPrefix(t.Name, "O_") {
		return mkSort(t.Name), nil
	}
	for _, cl := range w.classes {
		if cl.Name == t.Name {
			return cl.Data.Sort, cl.Named
		}
	}
	for _, n := range w.specs.Opaque {
		if n == t.Name {
			return mkSort(n), nil
		}
	}
	if s, ok := sortTab[t.Name]; ok && s.Data != nil && (t.Name == "Err" || t.Name == "Any") {
		return s, nil
	}
	for _, d := range w.specs.Data {
		if d.Name == t.Name {
			return dataSort(d.Name).Sort, nil
		}
	}
	// Go named struct: bare or pkg_Name
	var found *types.Named
	for path, p := range w.spkgs {
		name := t.Name
		if i := strings.IndexByte(name, '_'); i > 0 && strings.HasSuffix(path, "/"+name[:i]) {
			name = name[i+1:]
		}
		if tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok {
				if found != nil && found != nt {
					if strings.HasPrefix(path, "cmd/") {
						continue
					}
				}
				found = nt
			}
		}
	}
	if found != nil {
		if cl := w.classOfStruct(found); cl != nil && !cl.Heap {
			return cl.Data.Sort, types.NewPointer(found)
		}
		return w.sortOf(found), found
	}
	panic("unknown type in spec: " + t.Name)
}

func (w *World) classOfIface(t types.Type) *Class {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	for _, cl := range w.classes {
		if types.Identical(it, cl.Iface) || types.Implements(t, cl.Iface) {
			return cl
		}
	}
	return nil
}

func (w *World) classOfStruct(t types.Type) *Class {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for _, cl := range w.classes {
		if cl.ctors[n] != nil {
			return cl
		}
	}
	return nil
}

// classCtor is the constructor for pointers to the struct type t.
func (w *World) classCtor(t types.Type) (*Class, *Ctor) {
	cl := w.classOfStruct(t)
	if cl == nil {
		return nil, nil
	}
	return cl, cl.ctors[t.(*types.Named)]
}

// implementers of the interface type t within its class.
func (w *World) implementers(t types.Type) (*Class, []*types.Named) {
	cl := w.classOfIface(t)
	if cl == nil {
		return nil, nil
	}
	it := t.Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range cl.Impl {
		if types.Implements(types.NewPointer(n), it) {
			out = append(out, n)
		}
	}
	return cl, out
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := relPkg(p.Path())
	if strings.HasPrefix(s, "pkg/") || strings.HasPrefix(s, "cmd/") {
		return p.Name()
	}
	return strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p.Path())
}

func isOwn(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }

// sortOf maps a Go type to the sort of its values in memory.
func (w *World) sortOf(t types.Type) *Sort {
	key := types.TypeString(t, nil)
	if s, ok := w.sorts[key]; ok {
		return s
	}
	s := w.sortOf1(t)
	w.sorts[key] = s
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func (w *World) sortOf1(t types.Type) *Sort {
	if isError(t) {
		return w.errD.Sort
	}
	switch u := t.(type) {
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			if u.String() == "bytes.Buffer" || u.String() == "strings.Builder" {
				return sStr
			}
			if !isOwn(u.Obj().Pkg()) {
				return mkSort("O_" + sanitize(u.String()))
			}
			name := shortPkg(u.Obj().Pkg()) + "_" + u.Obj().Name()
			d := dataSort("S_" + name)
			w.sorts[types.TypeString(t, nil)] = d.Sort
			w.fillStruct(d, name, st)
			return d.Sort
		}
		if cl := w.classOfIface(t); cl != nil {
			if cl.Heap {
				return sInt
			}
			return cl.Data.Sort
		}
		if _, ok := u.Underlying().(*types.Interface); ok {
			return w.anyD.Sort
		}
		return w.sortOf(u.Underlying())
	case *types.Alias:
		return w.sortOf(types.Unalias(t))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.UnsafePointer:
			return mkSort("O_ptr")
		}
		return mkSort("O_" + sanitize(u.String()))
	case *types.Pointer:
		if cl := w.classOfStruct(u.Elem()); cl != nil {
			if cl.Heap {
				return sInt
			}
			return cl.Data.Sort
		}
		if n, ok := u.Elem().(*types.Named); ok && !isOwn(n.Obj().Pkg()) && n.String() != "bytes.Buffer" && n.String() != "strings.Builder" {
			return w.optSort(mkSort("O_" + sanitize(n.String())))
		}
		return w.optSort(w.sortOf(u.Elem()))
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return sStr
		}
		return seqSort(w.sortOf(u.Elem()))
	case *types.Array:
		return seqSort(w.sortOf(u.Elem()))
	case *types.Struct:
		name := "anon_" + sanitize(u.String())
		d := dataSort("S_" + name)
		w.sorts[types.TypeString(t, nil)] = d.Sort
		w.fillStruct(d, name, u)
		return d.Sort
	case *types.Interface:
		if cl := w.classOfIface(t); cl != nil {
			if cl.Heap {
				return sInt
			}
			return cl.Data.Sort
		}
		return w.anyD.Sort
	case *types.Map:
		if _, ok := mapParts(u); ok {
			return w.optSort(arraySort(w.sortOf(u.Key()), w.optSort(w.sortOf(u.Elem()))))
		}
	case *types.Signature:
		return mkSort("O_func")
	case *types.Tuple:
		return mkSort("O_tuple")
	}
	return mkSort("O_" + sanitize(types.TypeString(t, nil)))
}

func (w *World) optSort(e *Sort) *Sort {
	d := dataSort("Opt_" + e.Name)
	if len(d.Ctors) == 0 {
		d.addCtor("none_" + e.Name)
		d.addCtor("some_"+e.Name).addField("val", e)
	}
	return d.Sort
}

func isOpt(s *Sort) bool { return strings.HasPrefix(s.Name, "Opt_") }

func (w *World) fillStruct(d *Data, name string, st *types.Struct) {
	c := d.addCtor(name)
	w.ctorGo[c] = st
	w.embed[c] = map[int]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		c.addField(f.Name(), w.sortOf(f.Type()))
		w.selGo[c.Fields[i].Sel] = f.Type()
		if f.Embedded() {
			w.embed[c][i] = true
		}
	}
}

// box is the Any constructor for values of Go type t.
func (w *World) box(t types.Type) *Ctor {
	name := "box_" + sanitize(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	if c := w.anyD.ctor(name); c != nil {
		return c
	}
	c := w.anyD.addCtor(name)
	c.addField("v", w.sortOf(t))
	w.selGo[c.Fields[0].Sel] = t
	w.boxGo[c] = t
	return c
}
