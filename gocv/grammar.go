package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// A grammar in a parsing-engine's own form (a composite literal of *rule values),
// read from the source on every run. Each rule has a predicate its value satisfies;
// an obligation per rule says that whatever the engine delivers for the parts of the
// rule meets the requirements of the rule's action, and that the action's answer (or,
// without an action, the value of the expression) satisfies the predicate.
type GrammarDecl struct {
	Pkg, Var string
	Props    []string
	Is       map[string]string // rule: predicate of its value
	Each     map[string]string // rule: predicate of the elements of its repetition
}

type gnode struct {
	kind  string // name of the expression type, without "Expr" or "Matcher"
	kids  []*gnode
	name  string // rule referred to, label, literal, run function
	chars []rune
	icase bool
	plain bool // a class of listed characters only
}

type grule struct {
	name string
	expr *gnode
}

type gaction struct {
	method string
	labels []string
}

// loadGrammar turns the declaration into obligations.
func (w *World) loadGrammar(sp *Specs, d *GrammarDecl, dir string) {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, d.Pkg, "*.go"))
	var g ast.Expr
	acts := map[string]*gaction{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			continue
		}
		for _, dc := range af.Decls {
			switch x := dc.(type) {
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, n := range vs.Names {
							if n.Name == d.Var && i < len(vs.Values) {
								g = vs.Values[i]
							}
						}
					}
				}
			case *ast.FuncDecl:
				if a := callOf(x); a != nil {
					acts[x.Name.Name] = a
				}
			}
		}
	}
	bad := func(format string, a ...interface{}) {
		sp.Obl = append(sp.Obl, &LemmaObl{Name: "grammar." + fmt.Sprintf(format, a...), Props: d.Props, E: parseExprText("false")})
	}
	if g == nil {
		bad("not found")
		return
	}
	rules := map[string]*grule{}
	var order []*grule
	for _, e := range listField(g, "rules") {
		r := &grule{name: strField(e, "name"), expr: readGrammar(field(e, "expr"))}
		rules[r.name] = r
		order = append(order, r)
	}
	fc := &gfacts{d: d, rules: rules}
	for r := range d.Is {
		if rules[r] == nil {
			delete(d.Is, r)
		}
	}
	any := func(names ...string) []Param {
		var ps []Param
		for _, n := range names {
			ps = append(ps, Param{n, &TypeExpr{Name: "Any"}})
		}
		return ps
	}
	for _, r := range order {
		fc.rule = r.name
		if each := d.Each[r.name]; each != "" {
			for i, s := range r.expr.stars(nil) {
				sp.Obl = append(sp.Obl, &LemmaObl{Name: fmt.Sprintf("grammar.%s.each%d", r.name, i+1), Props: d.Props, Params: any("v"),
					Hyps: []*Expr{parseExprText(fc.of(s, "v", 0))}, E: parseExprText(each + "(v)")})
			}
		}
		is := d.Is[r.name]
		if r.expr.kind != "action" {
			if is != "" {
				sp.Obl = append(sp.Obl, &LemmaObl{Name: "grammar." + r.name + ".is", Props: d.Props, Params: any("v"),
					Hyps: []*Expr{parseExprText(fc.of(r.expr, "v", 0))}, E: parseExprText(is + "(v)")})
			}
			continue
		}
		a := acts[r.expr.name]
		if a == nil {
			bad("%s: action not understood", r.name)
			continue
		}
		con := sp.Contracts[d.Pkg+".(*current)."+a.method]
		if con == nil {
			bad("%s: no contract for %s", r.name, a.method)
			continue
		}
		if len(con.Params) != len(a.labels)+1 || len(con.Results) != 2 {
			bad("%s: parameters", r.name)
			continue
		}
		body := r.expr.kids[0]
		parts := []*gnode{body}
		if body.kind == "seq" {
			parts = body.kids
		}
		at := map[string]*gnode{}
		for _, p := range parts {
			if p.kind == "labeled" {
				at[p.name] = p.kids[0]
			}
		}
		var hyps []*Expr
		for i, l := range a.labels {
			f := con.Params[i+1] + " == nil"
			if at[l] != nil {
				f = fc.of(at[l], con.Params[i+1], 0)
			}
			hyps = append(hyps, parseExprText(f))
		}
		ps := append(any(con.Params[1:]...), Param{con.Params[0], &TypeExpr{Name: "parser_current"}})
		for _, q := range con.Requires {
			if mentionsId(q.E, con.Params[0]) {
				continue // about the state the engine keeps
			}
			sp.Obl = append(sp.Obl, &LemmaObl{Name: "grammar." + r.name + "." + q.Label, Props: d.Props, Params: ps, Hyps: hyps, E: q.E})
		}
		if is != "" {
			ps2 := append(append([]Param{}, ps...), Param{con.Results[0], &TypeExpr{Name: "Any"}}, Param{con.Results[1], &TypeExpr{Name: "Err"}})
			h2 := append(append([]*Expr{}, hyps...), parseExprText(con.Results[1]+" == nil"))
			for _, q := range con.Ensures {
				h2 = append(h2, q.E)
			}
			sp.Obl = append(sp.Obl, &LemmaObl{Name: "grammar." + r.name + ".is", Props: d.Props, Params: ps2, Hyps: h2, E: parseExprText(is + "(" + con.Results[0] + ")")})
		}
	}
}

type gfacts struct {
	d     *GrammarDecl
	rules map[string]*grule
	rule  string
}

// of is what is known of the value v the engine delivers for e.
func (f *gfacts) of(e *gnode, v string, depth int) string {
	switch e.kind {
	case "ruleRef":
		if p := f.d.Is[e.name]; p != "" {
			return p + "(" + v + ")"
		}
		if r := f.rules[e.name]; r != nil && r.expr.kind != "action" && depth < 4 {
			return f.of(r.expr, v, depth+1)
		}
		return "true"
	case "lit":
		if e.icase {
			return "boxed(__byte, " + v + ")"
		}
		return "boxed(__byte, " + v + ") && unbox(__byte, " + v + ") == " + strconv.Quote(e.name)
	case "charClass":
		s := "boxed(__byte, " + v + ")"
		if !e.plain || len(e.chars) == 0 || len(e.chars) > 8 {
			return s
		}
		seen := map[string]bool{}
		for _, c := range e.chars {
			seen[string(c)] = true
			if e.icase {
				seen[string(unicode.ToUpper(c))] = true
				seen[string(unicode.ToLower(c))] = true
			}
		}
		var ks, alts, up []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			alts = append(alts, "unbox(__byte, "+v+") == "+strconv.Quote(k))
			up = append(up, "toUpper("+strconv.Quote(k)+") == "+strconv.Quote(strings.ToUpper(k)))
		}
		return s + " && (" + strings.Join(alts, " || ") + ") && " + strings.Join(up, " && ")
	case "any":
		return "boxed(__byte, " + v + ")"
	case "seq":
		s := fmt.Sprintf("boxed(__any, %s) && len(unbox(__any, %s)) == %d", v, v, len(e.kids))
		for i, k := range e.kids {
			s += " && (" + f.of(k, fmt.Sprintf("unbox(__any, %s)[%d]", v, i), depth) + ")"
		}
		return s
	case "choice":
		var ss []string
		for _, k := range e.kids {
			ss = append(ss, "("+f.of(k, v, depth)+")")
		}
		if len(ss) == 0 {
			return "false"
		}
		return strings.Join(ss, " || ")
	case "labeled":
		return f.of(e.kids[0], v, depth)
	case "zeroOrOne":
		return v + " == nil || (" + f.of(e.kids[0], v, depth) + ")"
	case "zeroOrMore", "oneOrMore":
		s := "boxed(__any, " + v + ")"
		if e.kind == "oneOrMore" {
			s += " && len(unbox(__any, " + v + ")) >= 1"
		}
		if p := f.d.Each[f.rule]; p != "" && depth == 0 {
			s += " && all(" + p + ", unbox(__any, " + v + "))"
		}
		return s
	case "and", "not", "andCode", "notCode", "stateCode":
		return v + " == nil"
	}
	return "true"
}

// stars are the elements of the repetitions inside e.
func (e *gnode) stars(out []*gnode) []*gnode {
	if e.kind == "zeroOrMore" || e.kind == "oneOrMore" {
		out = append(out, e.kids[0])
	}
	for _, k := range e.kids {
		out = k.stars(out)
	}
	return out
}

func mentionsId(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" && e.Name == name {
		return true
	}
	for _, a := range e.Args {
		if mentionsId(a, name) {
			return true
		}
	}
	for _, a := range e.Arms {
		if mentionsId(a.Body, name) {
			return true
		}
	}
	return false
}

func parseExprText(s string) *Expr {
	p := &sparser{t: lex("grammar", s)}
	return p.expr()
}

// callOf reads a generated action caller: it passes labelled values, by name, to
// a method of the current state.
func callOf(fd *ast.FuncDecl) *gaction {
	if fd.Recv == nil || fd.Body == nil || len(fd.Body.List) == 0 {
		return nil
	}
	stack := ""
	for i, s := range fd.Body.List {
		switch x := s.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				return nil
			}
			l, ok := x.Lhs[0].(*ast.Ident)
			if !ok {
				return nil
			}
			if l.Name == "_" {
				continue
			}
			// p.vstack[len(p.vstack)-1]
			ix, ok := x.Rhs[0].(*ast.IndexExpr)
			if !ok || selText(ix.X) != "p.vstack" {
				return nil
			}
			be, ok := ix.Index.(*ast.BinaryExpr)
			if !ok || be.Op != token.SUB {
				return nil
			}
			if n, ok := be.Y.(*ast.BasicLit); !ok || n.Value != "1" {
				return nil
			}
			c, ok := be.X.(*ast.CallExpr)
			if !ok || selText(c.Fun) != "len" || len(c.Args) != 1 || selText(c.Args[0]) != "p.vstack" {
				return nil
			}
			stack = l.Name
		case *ast.ReturnStmt:
			if i != len(fd.Body.List)-1 || len(x.Results) != 1 {
				return nil
			}
			c, ok := x.Results[0].(*ast.CallExpr)
			if !ok || !strings.HasPrefix(selText(c.Fun), "p.cur.") {
				return nil
			}
			a := &gaction{method: strings.TrimPrefix(selText(c.Fun), "p.cur.")}
			for _, arg := range c.Args {
				ix, ok := arg.(*ast.IndexExpr)
				if !ok || stack == "" || selText(ix.X) != stack {
					return nil
				}
				l, ok := ix.Index.(*ast.BasicLit)
				if !ok {
					return nil
				}
				s, _ := strconv.Unquote(l.Value)
				a.labels = append(a.labels, s)
			}
			return a
		default:
			return nil
		}
	}
	return nil
}

func selText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return selText(x.X) + "." + x.Sel.Name
	}
	return "?"
}

func litOf(e ast.Expr) *ast.CompositeLit {
	if u, ok := e.(*ast.UnaryExpr); ok {
		e = u.X
	}
	c, _ := e.(*ast.CompositeLit)
	return c
}

func field(e ast.Expr, name string) ast.Expr {
	c := litOf(e)
	if c == nil {
		return nil
	}
	for _, x := range c.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok && selText(kv.Key) == name {
			return kv.Value
		}
	}
	return nil
}

func listField(e ast.Expr, name string) []ast.Expr {
	if c := litOf(field(e, name)); c != nil {
		return c.Elts
	}
	return nil
}

func strField(e ast.Expr, name string) string {
	if b, ok := field(e, name).(*ast.BasicLit); ok {
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	return ""
}

func readGrammar(e ast.Expr) *gnode {
	c := litOf(e)
	if c == nil {
		return &gnode{kind: "?"}
	}
	k := strings.TrimSuffix(strings.TrimSuffix(selText(c.Type), "Expr"), "Matcher")
	n := &gnode{kind: k}
	switch k {
	case "action":
		n.name = selText2(field(e, "run"))
		n.kids = []*gnode{readGrammar(field(e, "expr"))}
	case "seq":
		for _, x := range listField(e, "exprs") {
			n.kids = append(n.kids, readGrammar(x))
		}
	case "choice":
		for _, x := range listField(e, "alternatives") {
			n.kids = append(n.kids, readGrammar(x))
		}
	case "labeled":
		n.name = strField(e, "label")
		n.kids = []*gnode{readGrammar(field(e, "expr"))}
	case "zeroOrOne", "zeroOrMore", "oneOrMore", "and", "not":
		n.kids = []*gnode{readGrammar(field(e, "expr"))}
	case "ruleRef":
		n.name = strField(e, "name")
	case "lit":
		n.name = strField(e, "val")
		n.icase = selText(orIdent(field(e, "ignoreCase"))) == "true"
	case "charClass":
		n.icase = selText(orIdent(field(e, "ignoreCase"))) == "true"
		n.plain = selText(orIdent(field(e, "inverted"))) != "true" && field(e, "ranges") == nil && field(e, "classes") == nil
		for _, x := range listField(e, "chars") {
			if b, ok := x.(*ast.BasicLit); ok {
				if r, _, _, err := strconv.UnquoteChar(strings.Trim(b.Value, "'"), '\''); err == nil {
					n.chars = append(n.chars, r)
					continue
				}
			}
			n.plain = false
		}
	}
	return n
}

func orIdent(e ast.Expr) ast.Expr {
	if e == nil {
		return &ast.Ident{Name: "?"}
	}
	return e
}

// selText2 is the method of a method expression (*T).m.
func selText2(e ast.Expr) string {
	if s, ok := e.(*ast.SelectorExpr); ok {
		return s.Sel.Name
	}
	return "?"
}
