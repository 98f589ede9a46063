package main

import (
	"go/types"
	"math/big"
	"strings"
)

var maxLen = mkBig(new(big.Int).Lsh(bOne, 62))

type externFn func(ex *Exec, st *State, sig *types.Signature, args []Val) []Val

// externs are the models of library functions. Every one of them is an
// assumption that is listed in the evidence.
var externs = map[string]externFn{}

func (ex *Exec) bufLoc(st *State, v Val, sig *types.Signature) int {
	gt := sig.Recv().Type()
	return ex.pointee(st, v, gt, "buffer")
}

func mkErr(w *World, msg *Term) *Term { return mkCtor(w.errD.Ctors[1], msg) }

func init() {
	noErr := func(ex *Exec) *Term { return mkCtor(ex.w.errD.Ctors[0]) }
	for _, t := range []string{"bytes.Buffer", "strings.Builder"} {
		externs["(*"+t+").WriteString"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			l := ex.bufLoc(st, a[0], sig)
			s := ex.termOf(st, a[1])
			st.write(l, mkConc(st.content(l), s))
			return []Val{mkStrLen(s), noErr(ex)}
		}
		externs["(*"+t+").WriteByte"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			l := ex.bufLoc(st, a[0], sig)
			c := ex.termOf(st, a[1])
			st.write(l, mkConc(st.content(l), byteStr(c)))
			return []Val{noErr(ex)}
		}
		externs["(*"+t+").WriteRune"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			l := ex.bufLoc(st, a[0], sig)
			c := ex.termOf(st, a[1])
			s := runeStr(c)
			st.write(l, mkConc(st.content(l), s))
			return []Val{mkStrLen(s), noErr(ex)}
		}
		externs["(*"+t+").String"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			return []Val{st.content(ex.bufLoc(st, a[0], sig))}
		}
		externs["(*"+t+").Len"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			return []Val{mkStrLen(st.content(ex.bufLoc(st, a[0], sig)))}
		}
		externs["(*"+t+").Reset"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			st.write(ex.bufLoc(st, a[0], sig), mkStr(""))
			return nil
		}
		externs["(*"+t+").Grow"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			ex.check(st, "safe", "grow-nonnegative", nil, mkLe(mkInt(0), ex.termOf(st, a[1])))
			return nil
		}
	}
	externs["strconv.Itoa"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{itoa(ex.termOf(st, a[0]))}
	}
	externs["strconv.FormatInt"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		b := ex.termOf(st, a[1])
		if b.Kind == KInt && b.Int.Int64() == 10 {
			return []Val{itoa(ex.termOf(st, a[0]))}
		}
		return []Val{mkApp("formatint", sStr, ex.termOf(st, a[0]), b)}
	}
	// Atoi: the decimal value when the text is a decimal integer that fits
	externs["strconv.Atoi"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		s := ex.termOf(st, a[0])
		// (next to an error: some value that depends on the text only)
		v := mkApp("atoi_val", sInt, s)
		ok := mkApp("atoi_ok", sBool, s)
		return []Val{v, mkIte(ok, mkCtor(ex.w.errD.Ctors[0]), mkErr(ex.w, mkApp("atoi_err", sStr, s)))}
	}
	// ParseInt(s, base, 64): like Atoi for bases 0 and 10 is not assumed equal
	externs["strconv.ParseInt"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		s := ex.termOf(st, a[0])
		b := ex.termOf(st, a[1])
		v := mkFresh("parseint", sInt)
		ex.pv.noteType(v, types.Typ[types.Int])
		if b == mkInt(10) && ex.termOf(st, a[2]) == mkInt(64) {
			v := mkApp("atoi_val", sInt, s)
			ok := mkApp("atoi_ok", sBool, s)
			return []Val{v, mkIte(ok, mkCtor(ex.w.errD.Ctors[0]), mkErr(ex.w, mkApp("atoi_err", sStr, s)))}
		}
		bits := ex.termOf(st, a[2])
		ok := mkApp("parseint_ok", sBool, s, b, bits)
		st.assume(mkOr(mkNot(ok), mkEq(v, mkApp("parseint_val", sInt, s, b, bits))))
		return []Val{v, mkIte(ok, mkCtor(ex.w.errD.Ctors[0]), mkErr(ex.w, mkApp("parseint_err", sStr, s, b, bits)))}
	}
	externs["errors.New"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{mkErr(ex.w, ex.termOf(st, a[0]))}
	}
	externs["fmt.Errorf"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{mkErr(ex.w, ex.format(st, a[0], a[1]))}
	}
	externs["fmt.Sprintf"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{ex.format(st, a[0], a[1])}
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "fmt.Printf", "fmt.Println", "fmt.Print"} {
		externs[n] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
			return []Val{ex.freshVal(st, types.Typ[types.Int], "n"), ex.freshVal(st, types.Universe.Lookup("error").Type(), "err")}
		}
	}
	// reflect: a value, what it points to, and back
	externs["reflect.ValueOf"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{mkApp("reflect_of", ex.w.sortOf(sig.Results().At(0).Type()), ex.termOf(st, a[0]))}
	}
	externs["reflect.Indirect"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		v := ex.termOf(st, a[0])
		if v.Kind != KApp || v.Name != "reflect_of" {
			return []Val{mkApp("reflect_indirect", v.Sort, v)}
		}
		x := st.simp(v.Args[0])
		if x.Kind == KCtor && ex.w.boxGo[x.Ctor] != nil {
			gt := ex.w.boxGo[x.Ctor]
			if cl := ex.w.classOfIface(gt); cl != nil && !cl.Heap {
				// a pointer to the struct of its dynamic type
				for n, c := range cl.ctors {
					if st.simp(mkIs(c, x.Args[0])) == tTrue {
						return []Val{mkApp("reflect_of", v.Sort, mkCtor(ex.w.box(n), st.simp(mkSel(c, 0, x.Args[0]))))}
					}
				}
			}
			if pt, ok := gt.(*types.Pointer); ok && ex.w.sortOf(pt.Elem()) == x.Args[0].Sort {
				return []Val{mkApp("reflect_of", v.Sort, mkCtor(ex.w.box(pt.Elem()), x.Args[0]))}
			}
		}
		return []Val{mkApp("reflect_indirect", v.Sort, v)}
	}
	externs["(reflect.Value).Interface"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		v := ex.termOf(st, a[0])
		if v.Kind == KApp && v.Name == "reflect_of" {
			return []Val{v.Args[0]}
		}
		return []Val{mkApp("reflect_interface", ex.w.anyD.Sort, v)}
	}
	externs["strings.Join"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{mkApp("join", sStr, ex.termOf(st, a[0]), ex.termOf(st, a[1]))}
	}
	externs["strings.ToUpper"] = pureStr("toUpper")
	externs["strings.ToLower"] = pureStr("toLower")
	externs["strings.TrimSpace"] = pureStr("trimSpace")
	externs["math/rand.New"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		pt := sig.Results().At(0).Type()
		p := ex.newObject(st, ptrElem(pt)).(Ptr)
		l := p.loc
		st.write(l, mkApp("rngNew", st.locs[l].sort, ex.termOf(st, a[0])))
		return []Val{p}
	}
	externs["(*math/rand.Rand).Seed"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		l := ex.pointee(st, a[0], sig.Recv().Type(), "rand")
		st.write(l, mkApp("rngSeed", st.locs[l].sort, st.content(l), ex.termOf(st, a[1])))
		return nil
	}
	// Intn(n): n must be positive, the result is one of 0..n-1 and is a function
	// of the generator state and n
	externs["(*math/rand.Rand).Intn"] = func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		n := ex.termOf(st, a[1])
		ex.check(st, "safe", "Intn-positive", nil, mkLe(mkInt(1), n))
		p, ok := a[0].(Ptr)
		if !ok {
			ex.unsup("Intn receiver")
		}
		l := ex.pointee(st, p, sig.Recv().Type(), "rand")
		s := st.content(l)
		r := mkApp("intn", sInt, s, n)
		st.write(l, mkApp("rngNext", s.Sort, s, n))
		st.assume(mkLe(mkInt(0), r))
		st.assume(mkLt(r, n))
		return []Val{r}
	}
}

func byteStr(c *Term) *Term {
	if c.Kind == KInt {
		return mkStr(string([]byte{byte(c.Int.Int64())}))
	}
	return mkApp("bytestr", sStr, c)
}

func runeStr(c *Term) *Term {
	if c.Kind == KInt {
		return mkStr(string(rune(c.Int.Int64())))
	}
	return mkApp("runestr", sStr, c)
}

func pureStr(name string) externFn {
	return func(ex *Exec, st *State, sig *types.Signature, a []Val) []Val {
		return []Val{mkApp(name, sStr, ex.termOf(st, a[0]))}
	}
}

func itoa(t *Term) *Term {
	if t.Kind == KInt {
		return mkStr(t.Int.String())
	}
	return mkApp("itoa", sStr, t)
}

// pureExtern: library functions whose result depends on the arguments only.
func pureExtern(name string) bool {
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Index", "strings.Split", "strings.SplitN",
		"strings.Fields", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.Title", "strings.Repeat",
		"strings.EqualFold", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.Replace",
		"unicode.IsSpace", "unicode.IsDigit", "unicode.IsLetter", "unicode/utf8.RuneCountInString", "strconv.Quote",
		"math.Ceil", "math.Round", "math.Floor", "math.Trunc", "path/filepath.Base", "net/http.StatusText", "html.EscapeString", "github.com/seehuhn/mt19937.New":
		return true
	}
	return false
}

// harmlessExtern: library functions without an effect on the modelled state.
func harmlessExtern(name string) bool {
	for _, p := range []string{"time.", "(time.", "(*time.", "fmt.", "os.", "(*os.", "io.", "log.", "(*log.", "runtime.", "reflect.", "github.com/chzyer/", "(*github.com/chzyer/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// format models fmt.Sprintf with a constant format.
func (ex *Exec) format(st *State, f, args Val) *Term {
	ft := ex.termOf(st, f)
	var as *Term
	if s, ok := args.(Slice); ok {
		as = ex.seqOf(st, s)
	}
	opaque := func() *Term {
		ex.note("fmt format with unmodelled verb")
		if as == nil {
			return mkApp("sprintf0", sStr, ft)
		}
		return mkApp("sprintf", sStr, ft, as)
	}
	if ft.Kind != KStr || as == nil {
		return opaque()
	}
	var el []*Term
	switch as.Kind {
	case KEmpty:
	case KUnit:
		el = as.Args
	case KCat:
		for _, u := range as.Args {
			if u.Kind != KUnit {
				return opaque()
			}
			el = append(el, u.Args[0])
		}
	default:
		return opaque()
	}
	var parts []*Term
	fs := ft.Name
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			parts = append(parts, mkStr(fs[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(fs) {
			return opaque()
		}
		if fs[i] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= len(el) {
			return opaque()
		}
		p := ex.verb(st, fs[i], el[k])
		if p == nil {
			return opaque()
		}
		k++
		parts = append(parts, p)
	}
	if k != len(el) {
		return opaque()
	}
	return mkConc(parts...)
}

func (ex *Exec) verb(st *State, v byte, a *Term) *Term {
	if a.Kind != KCtor {
		return mkApp("fmt_"+string(v), sStr, a)
	}
	n := a.Ctor.Name
	if len(a.Args) == 0 {
		if v == 'v' {
			return mkStr("<nil>")
		}
		return mkApp("fmt_"+string(v), sStr, a)
	}
	x := a.Args[0]
	switch v {
	case 'd':
		if x.Sort == sInt && strings.HasPrefix(n, "box_") {
			return itoa(x)
		}
	case 's', 'v':
		if x.Sort == sStr && ex.plainBox(a.Ctor) {
			return x
		}
		if x.Sort == ex.w.errD.Sort {
			return st.simp(mkSel(ex.w.errD.Ctors[1], 0, x))
		}
		if v == 'v' && x.Sort == sInt && ex.plainBox(a.Ctor) {
			return itoa(x)
		}
		if s := ex.stringOf(st, a); s != nil {
			return s
		}
	case 'q':
		if x.Sort == sStr {
			return mkApp("quote", sStr, x)
		}
		if s := ex.stringOf(st, a); s != nil {
			return mkApp("quote", sStr, s)
		}
	case 't':
		if x.Sort == sBool {
			return mkIte(x, mkStr("true"), mkStr("false"))
		}
	case 'x', 'X', 'c', 'T', 'p':
	default:
		return nil
	}
	return mkApp("fmt_"+string(v), sStr, a)
}

// plainBox: a boxed basic type without methods.
func (ex *Exec) plainBox(c *Ctor) bool {
	t := ex.w.boxGo[c]
	if t == nil {
		return false
	}
	_, named := t.(*types.Named)
	return !named
}

// stringOf runs the String method of a boxed value.
func (ex *Exec) stringOf(st *State, a *Term) *Term {
	t := ex.w.boxGo[a.Ctor]
	if t == nil {
		return nil
	}
	ms := ex.w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, "String")
	if sel == nil {
		return nil
	}
	fn := ex.w.prog.MethodValue(sel)
	if fn == nil {
		return nil
	}
	var out *Term
	cnt := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				cnt = 2
			}
		}()
		s := st.clone()
		v := ex.toVal(s, a.Args[0], t)
		if p, ok := v.(Ptr); ok {
			s.assume(mkIs(s.locs[p.loc].step.ctor, a.Args[0]))
		}
		ex.dry++
		defer func() { ex.dry-- }()
		ex.call(s, len(s.frames)-1, fn, []Val{v}, nil, func(s2 *State, res []Val) {
			cnt++
			out = ex.termOf(s2, res[0])
		})
	}()
	if cnt != 1 {
		return mkApp("str_"+sanitize(t.String()), sStr, a.Args[0])
	}
	return out
}
