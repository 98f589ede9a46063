package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncReport is the result of verifying one function or lemma.
type FuncReport struct {
	Key      string   `json:"key"`
	Status   string   `json:"status"` // ok, failed, unsupported, missing
	Why      string   `json:"why,omitempty"`
	Helper   bool     `json:"helper,omitempty"`
	Props    []string `json:"props,omitempty"`
	Obls     []*Obl   `json:"obligations"`
	Paths    int      `json:"paths"`
	Exits    int      `json:"exits"`
	Seconds  float64  `json:"seconds"`
	Used     []string `json:"used,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Notes    []string `json:"notes,omitempty"`
	Queries  int      `json:"queries"`
	Rewrites int      `json:"rewrites"`
	ByZ3     int      `json:"by_z3"`
	ByCvc5   int      `json:"by_cvc5"`
	ByZ3New  int      `json:"by_z3_new"`
	Solver   float64  `json:"solver_seconds"`
}

var (
	fRepo     = flag.String("repo", "/repo", "repository")
	fSpec     = flag.String("spec", "/verif/contracts", "contracts")
	fModfile  = flag.String("modfile", "", "go.mod copy")
	fOnly     = flag.String("only", "", "comma separated key substrings")
	fVerbose  = flag.Bool("v", false, "verbose")
	fDump     = flag.String("dump", "", "file for the last failing query")
	fOut      = flag.String("o", "", "report file")
	fJobs     = flag.Int("j", 8, "workers")
	fTrace    = flag.Bool("trace", false, "report slow solver calls")
	fProf     = flag.String("cpuprofile", "", "write a CPU profile")
	fTime     = flag.Int("t", 150, "seconds per function")
	fAllCases = flag.Bool("allcases", false, "leave out no case")
	fWorker   = flag.Bool("worker", false, "worker process")
	fDropped  = flag.String("dropped", "", "comma separated helper contracts not to be used")
	fList     = flag.Bool("list", false, "list functions and their contracts")
	fProp     = flag.String("prop", "", "verify what this property depends on")
	fBudget   = flag.Int("budget", 780, "seconds in total")
)

// safeProp is the property every function takes part in: the absence of
// run-time panics. What the results are is decided under the other properties.
const safeProp = "C15"

func main() {
	flag.Parse()
	if *fProf != "" {
		pf, _ := os.Create(*fProf)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	w, err := loadWorld(*fRepo, *fSpec, *fModfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	w.scanGlobals()
	if msg := w.elabAll(); msg != "" {
		fmt.Fprintln(os.Stderr, "contracts do not fit the code:", msg)
		os.Exit(3)
	}
	dropped := map[string]bool{}
	for _, d := range strings.Split(*fDropped, ",") {
		if d != "" {
			dropped[d] = true
		}
	}
	if *fList {
		w.list()
		return
	}
	if *fWorker {
		// a run-away term must not take the machine with it
		debug.SetMemoryLimit(2 << 30)
		go func() {
			var ms runtime.MemStats
			for {
				time.Sleep(time.Second)
				if runtime.ReadMemStats(&ms); ms.HeapAlloc > 3<<30 {
					fmt.Fprintln(os.Stderr, "memory limit of a worker reached")
					os.Exit(4)
				}
			}
		}()
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		enc := json.NewEncoder(os.Stdout)
		for sc.Scan() {
			var m struct {
				Key     string
				Dropped []string
				Scale   float64
			}
			json.Unmarshal(sc.Bytes(), &m)
			d := map[string]bool{}
			for _, x := range m.Dropped {
				d[x] = true
			}
			w.scale = m.Scale
			enc.Encode(w.verifyKey(m.Key, d))
		}
		return
	}
	keys := w.allKeys()
	if *fProp != "" {
		var ks []string
		for _, k := range keys {
			for _, p := range w.propsOf(k) {
				if p == *fProp || *fProp == safeProp && !strings.HasPrefix(k, "theorem:") {
					ks = append(ks, k)
					break
				}
			}
		}
		keys = ks
	}
	if *fOnly != "" {
		var ks []string
		for _, k := range keys {
			for _, o := range strings.Split(*fOnly, ",") {
				if strings.Contains(k, o) {
					ks = append(ks, k)
					break
				}
			}
		}
		keys = ks
	}
	t0 := time.Now()
	var reps []*FuncReport
	if *fProp == "" && (*fJobs <= 1 || len(keys) == 0 || len(keys) <= 1 && len(w.specs.Contracts[keys[0]].caseList()) == 0) {
		for _, k := range keys {
			r := w.verifyKey(k, dropped)
			reps = append(reps, r)
			printRep(r)
		}
	} else {
		reps = runAll(keys, w)
	}
	ok := true
	for _, r := range reps {
		if r.Status != "ok" && !r.Helper {
			ok = false
		}
	}
	if *fTrace {
		for k, v := range stats {
			fmt.Printf("%8.2fs %6.0f %s\n", v[1], v[0], k)
		}
	}
	fmt.Printf("%d functions and lemmas, %.1fs\n", len(reps), time.Since(t0).Seconds())
	if *fOut != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"reports": reps, "seconds": time.Since(t0).Seconds(), "trusted": w.trusted()}, "", " ")
		os.WriteFile(*fOut, b, 0644)
	}
	if !ok {
		os.Exit(1)
	}
}

func (w *World) trusted() map[string]interface{} {
	ax := []string{}
	for _, l := range w.specs.Lemmas {
		ax = append(ax, l.Name)
	}
	ext := []string{}
	for _, c := range w.specs.Order {
		if c.Extern {
			ext = append(ext, c.Key)
		}
	}
	return map[string]interface{}{"axioms": ax, "extern_contracts": ext}
}

func printRep(r *FuncReport) {
	n, f := 0, 0
	for _, o := range r.Obls {
		n++
		if o.Failed > 0 {
			f++
		}
	}
	h := ""
	if r.Helper {
		h = " (helper)"
	}
	fmt.Printf("%-11s %-70s obl %3d failed %2d paths %4d %6.1fs %s%s\n", r.Status, r.Key, n, f, r.Paths, r.Seconds, r.Why, h)
	for _, o := range r.Obls {
		if o.Failed > 0 {
			fmt.Printf("      %s: %d of %d instances: %s [%s]\n", o.Name, o.Failed, o.Count, o.Reason, o.Path)
		}
	}
}

type job struct {
	key     string
	dropped []string
}

// allKeys lists everything that has to be verified.
func (w *World) allKeys() []string {
	var keys []string
	for _, c := range w.specs.Order {
		if !c.Iface && !c.Extern {
			keys = append(keys, c.Key)
		}
	}
	for _, c := range w.specs.Order {
		if c.Refines != "" {
			keys = append(keys, "refines:"+c.Key)
		}
	}
	for _, l := range w.specs.Obl {
		keys = append(keys, "lemma:"+l.Name)
	}
	for _, l := range w.specs.Lemmas {
		if l.Proved {
			keys = append(keys, "theorem:"+l.Name)
		}
	}
	return keys
}

func (w *World) propsOf(key string) []string {
	switch {
	case strings.HasPrefix(key, "refines:"):
		return w.specs.Contracts[strings.TrimPrefix(key, "refines:")].Props
	case strings.HasPrefix(key, "lemma:"):
		for _, l := range w.specs.Obl {
			if "lemma:"+l.Name == key {
				return l.Props
			}
		}
	case strings.HasPrefix(key, "theorem:"):
		for _, l := range w.specs.Lemmas {
			if "theorem:"+l.Name == key {
				return l.Props
			}
		}
	}
	if c := w.specs.Contracts[key]; c != nil {
		return c.Props
	}
	return nil
}

// needs lists what the verification of a function has relied on.
func (w *World) needs(r *FuncReport) []string {
	var out []string
	for _, u := range r.Used {
		c := w.specs.Contracts[u]
		if c == nil {
			continue
		}
		if c.Iface {
			for _, d := range w.specs.Order {
				if d.Refines == u {
					out = append(out, d.Key, "refines:"+d.Key)
				}
			}
			continue
		}
		if !c.Extern {
			out = append(out, u)
		}
	}
	for _, l := range w.specs.Lemmas {
		if l.Proved {
			out = append(out, "theorem:"+l.Name)
		}
	}
	return out
}

// runAll verifies keys in parallel; with -prop also everything they rely on.
// Callers of a helper contract that no longer holds are verified again
// without it.
func runAll(keys []string, w *World) []*FuncReport {
	res := map[string]*FuncReport{}
	known := map[string]bool{}
	dropped := map[string]bool{}
	deadline := time.Now().Add(time.Duration(*fBudget) * time.Second)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	// once a contract that decides has failed, the verdict stands: the rest
	// gets a little more time only
	var cut time.Time
	limit := func() time.Time {
		mu.Lock()
		defer mu.Unlock()
		if !cut.IsZero() && cut.Before(deadline) {
			return cut
		}
		return deadline
	}
	var queue []string
	busy := 0
	parts := func(k string) []string {
		c := w.specs.Contracts[k]
		if c == nil || len(c.Cases) == 0 {
			return []string{k}
		}
		var out []string
		for i := 0; i <= len(c.Cases); i++ {
			if c.caseOn(i) {
				out = append(out, fmt.Sprintf("%s#%d", k, i))
			}
		}
		return out
	}
	base := func(k string) string {
		if i := strings.LastIndexByte(k, '#'); i >= 0 {
			return k[:i]
		}
		return k
	}
	add := func(k string) {
		if !known[k] {
			known[k] = true
			keys = append(keys, k)
			queue = append(queue, parts(k)...)
		}
	}
	ks := keys
	keys = nil
	for _, k := range ks {
		add(k)
	}
	sort.SliceStable(queue, func(i, j int) bool { return w.weight(queue[i]) > w.weight(queue[j]) })
	pool := newPool(max(1, *fJobs))
	defer pool.stop()
	var wg sync.WaitGroup
	for i := range pool.ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				k := queue[0]
				queue = queue[1:]
				busy++
				ds := sortedKeys(dropped)
				mu.Unlock()
				r := pool.run(i, k, ds, 1, limit)
				if r.undecided() {
					// a solver ran out of time: once more with longer limits
					first := r.Seconds
					mu.Lock()
					h := ""
					if r.Helper {
						h = " (helper)"
					}
					for _, o := range r.Obls {
						if o.Failed > 0 {
							fmt.Printf("undecided   %s/%s: tried again%s\n", r.Key, o.Name, h)
						}
					}
					mu.Unlock()
					if q := pool.run(i, k, ds, 3, limit); q.Status != "unsupported" {
						r = q
					}
					r.Seconds += first
				}
				mu.Lock()
				busy--
				stopped := !cut.IsZero() && time.Now().After(cut)
				// something it used was dropped in the meantime
				again := false
				for _, u := range r.Used {
					if dropped[u] && !contains(ds, u) {
						again = true
					}
				}
				if again && !stopped {
					queue = append(queue, k)
				} else {
					res[k] = r
					printRep(r)
					if *fProp != "" {
						for _, u := range w.needs(r) {
							add(u)
						}
					}
					if b := base(k); r.Helper && r.Status != "ok" && !dropped[b] && !stopped {
						dropped[b] = true
						for c, cr := range res {
							if contains(cr.Used, b) {
								fmt.Printf("helper contract %s does not hold: %s verified again\n", b, c)
								delete(res, c)
								queue = append(queue, c)
							}
						}
					}
				}
				bad := false
				for _, x := range res {
					bad = bad || x.Status != "ok" && !x.Helper
				}
				if !bad && !stopped {
					cut = time.Time{}
				} else if cut.IsZero() {
					cut = time.Now().Add(60 * time.Second)
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
	var out []*FuncReport
	for _, k := range keys {
		var m *FuncReport
		for _, q := range parts(k) {
			if r := res[q]; r != nil {
				r.Key = k
				m = merge(m, r)
			}
		}
		if m != nil {
			if c := w.specs.Contracts[k]; m.Status == "ok" && c != nil && len(c.Cases) > 0 && m.Exits == 0 && len(m.Obls) == 0 {
				m.Status, m.Why = "failed", "vacuous: no path reaches a return"
			}
			out = append(out, m)
		}
	}
	return out
}

// undecided: nothing was refuted, but some query ran out of time.
func (r *FuncReport) undecided() bool {
	if r.Status == "ok" {
		return false
	}
	if r.Status == "unsupported" && !strings.Contains(r.Why, "time limit for the function") {
		return false
	}
	for _, o := range r.Obls {
		if o.Failed > 0 && !strings.HasSuffix(o.Reason, "unknown") {
			return false
		}
	}
	return true
}

// merge puts the reports of two parts of a function together.
func merge(a, b *FuncReport) *FuncReport {
	if a == nil {
		return b
	}
	rank := map[string]int{"ok": 0, "failed": 1, "unsupported": 2, "missing": 3}
	if rank[b.Status] > rank[a.Status] {
		a.Status, a.Why = b.Status, b.Why
	}
	for _, o := range b.Obls {
		found := false
		for _, p := range a.Obls {
			if p.Name == o.Name {
				found = true
				p.Count += o.Count
				p.Solver += o.Solver
				if p.Failed == 0 {
					p.Reason, p.Model, p.Path = o.Reason, o.Model, o.Path
				}
				p.Failed += o.Failed
				p.Seconds += o.Seconds
			}
		}
		if !found {
			a.Obls = append(a.Obls, o)
		}
	}
	union := func(x, y []string) []string {
		m := map[string]bool{}
		for _, s := range append(append([]string{}, x...), y...) {
			m[s] = true
		}
		return sortedKeys(m)
	}
	a.Used, a.Inlined, a.Notes = union(a.Used, b.Used), union(a.Inlined, b.Inlined), union(a.Notes, b.Notes)
	a.Paths += b.Paths
	a.Exits += b.Exits
	a.Seconds += b.Seconds
	a.Queries += b.Queries
	a.Rewrites += b.Rewrites
	a.ByZ3 += b.ByZ3
	a.ByCvc5 += b.ByCvc5
	a.ByZ3New += b.ByZ3New
	a.Solver += b.Solver
	return a
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// weight guesses the time a function takes.
func (w *World) weight(k string) int {
	n := 0
	if strings.HasPrefix(k, "theorem:") {
		return 1 << 20
	}
	if i := strings.LastIndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	if f := w.funcs[k]; f != nil {
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		if c := w.specs.Contracts[k]; c != nil {
			n *= 1 + len(c.Ensures)
		}
	}
	return n
}

type pool struct{ ws []*workerProc }

type workerProc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *bufio.Reader
	inC interface{ Close() error }
}

func newPool(n int) *pool {
	p := &pool{}
	for i := 0; i < n; i++ {
		p.ws = append(p.ws, startWorker())
	}
	return p
}

func startWorker() *workerProc {
	exe, _ := os.Executable()
	c := exec.Command(exe, "-worker", "-repo", *fRepo, "-spec", *fSpec, "-modfile", *fModfile, "-t", fmt.Sprint(*fTime), "-prop", *fProp, fmt.Sprintf("-v=%v", *fVerbose), fmt.Sprintf("-trace=%v", *fTrace), fmt.Sprintf("-allcases=%v", *fAllCases))
	c.Stderr = os.Stderr
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &workerProc{cmd: c, in: json.NewEncoder(in), out: bufio.NewReaderSize(out, 1<<20), inC: in}
}

func (p *pool) run(i int, key string, dropped []string, scale float64, deadline func() time.Time) *FuncReport {
	left := time.Until(deadline())
	if left < 2*time.Second {
		return &FuncReport{Key: key, Status: "unsupported", Why: "total time limit reached"}
	}
	if p.ws[i] == nil {
		p.ws[i] = startWorker()
	}
	w := p.ws[i]
	type rr struct {
		r   *FuncReport
		err error
	}
	ch := make(chan rr, 1)
	w.in.Encode(map[string]interface{}{"Key": key, "Dropped": dropped, "Scale": scale})
	go func() {
		l, err := w.out.ReadBytes('\n')
		if err != nil {
			ch <- rr{nil, err}
			return
		}
		r := &FuncReport{}
		err = json.Unmarshal(l, r)
		ch <- rr{r, err}
	}()
	lim := time.Duration(*fTime)*time.Second + 90*time.Second
	if left < lim {
		lim = left
	}
	end := time.Now().Add(lim)
	for {
		select {
		case x := <-ch:
			if x.err == nil {
				return x.r
			}
			w.cmd.Process.Kill()
			w.cmd.Wait()
			p.ws[i] = nil
			return &FuncReport{Key: key, Status: "unsupported", Why: "verifier process ended: " + x.err.Error()}
		case <-time.After(time.Second):
			if now := time.Now(); now.Before(end) && now.Before(deadline()) {
				continue
			}
			w.cmd.Process.Kill()
			w.cmd.Wait()
			p.ws[i] = nil
			return &FuncReport{Key: key, Status: "unsupported", Why: "time limit"}
		}
	}
}

func (p *pool) stop() {
	for _, w := range p.ws {
		if w != nil {
			w.inC.Close()
			w.cmd.Process.Kill()
			w.cmd.Wait()
		}
	}
}

func (w *World) list() {
	var ks []string
	for k := range w.funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := " "
		if w.specs.Contracts[k] != nil {
			c = "*"
		}
		n := 0
		for _, b := range w.funcs[k].Blocks {
			n += len(b.Instrs)
		}
		fmt.Printf("%s %5d %s\n", c, n, k)
	}
}

func (w *World) verifyKey(key string, dropped map[string]bool) (rep *FuncReport) {
	t0 := time.Now()
	rep = &FuncReport{Key: key, Status: "ok"}
	pv := newProver(w)
	pv.dump = *fDump
	limit := time.Duration(*fTime) * time.Second
	if w.scale > 1 {
		pv.scale = w.scale
	}
	ex := &Exec{w: w, pv: pv, key: key, dropped: dropped, used: map[string]bool{}, obls: map[string]*Obl{}, notes: map[string]bool{},
		inlined: map[string]bool{}, verbose: *fVerbose, stopAt: time.Now().Add(limit)}
	defer func() {
		if r := recover(); r != nil {
			rep.Status = "unsupported"
			switch x := r.(type) {
			case unsupported:
				rep.Why = x.msg
			case elabErr:
				rep.Why = "contract does not fit the code: " + x.msg
			case frozenErr:
				rep.Why = "a value reachable from two places is modified"
			default:
				rep.Why = fmt.Sprint("internal: ", r)
				if *fVerbose {
					debug.PrintStack()
				}
			}
		}
		for _, n := range ex.order {
			o := ex.obls[n]
			rep.Obls = append(rep.Obls, o)
			if o.Failed > 0 && rep.Status == "ok" {
				rep.Status = "failed"
			}
		}
		rep.Paths, rep.Exits = ex.paths, ex.exits
		rep.Used = sortedKeys(ex.used)
		rep.Inlined = sortedKeys(ex.inlined)
		rep.Notes = sortedKeys(ex.notes)
		rep.Queries, rep.Rewrites, rep.ByZ3, rep.ByCvc5, rep.ByZ3New, rep.Solver = pv.Queries, pv.Rewrites, pv.ByZ3, pv.ByCvc5, pv.ByZ3New, pv.Secs
		rep.Seconds = time.Since(t0).Seconds()
		if pv.z3 != nil {
			pv.z3.stop()
		}
	}()
	for k := range dryLoops {
		delete(dryLoops, k)
	}
	if strings.HasPrefix(key, "theorem:") {
		w.verifyTheorem(ex, rep, strings.TrimPrefix(key, "theorem:"))
		return
	}
	if strings.HasPrefix(key, "lemma:") {
		w.verifyLemma(ex, rep, strings.TrimPrefix(key, "lemma:"))
		return
	}
	if strings.HasPrefix(key, "refines:") {
		c := w.specs.Contracts[strings.TrimPrefix(key, "refines:")]
		rep.Props = c.Props
		w.verifyRefines(ex, c)
		return
	}
	ex.only = -1
	if i := strings.LastIndexByte(key, '#'); i >= 0 {
		ex.only, _ = strconv.Atoi(key[i+1:])
		key = key[:i]
		ex.key = key
	}
	c := w.specs.Contracts[key]
	rep.Helper = c.Helper
	pv.opaque = c.Opaque
	rep.Props = c.Props
	fn := w.funcs[key]
	if fn == nil {
		rep.Status, rep.Why = "missing", "no such function"
		if c.Helper {
			rep.Why = "no such function (helper contract unused)"
		}
		return
	}
	if !w.contractFits(c, fn) {
		rep.Status, rep.Why = "unsupported", "contract does not fit the signature"
		return
	}
	ex.con, ex.fn = c, fn
	ex.verifyFunc()
	return
}

func (ex *Exec) verifyFunc() {
	c, fn := ex.con, ex.fn
	st := newState()
	ex.heap(st)
	var args []Val
	for _, p := range fn.Params {
		n0 := len(st.locs)
		v := ex.freshVal(st, p.Type(), p.Name())
		for i := n0; i < len(st.locs); i++ {
			st.locs[i].param = true
		}
		args = append(args, v)
	}
	names := ex.namesOf(c, fn.Signature, args)
	for _, p := range c.Params {
		st.assume(ex.nonNil(st, c, p, names[p]))
	}
	en := ex.env(st, nil, names, true)
	for _, r := range c.Requires {
		st.assume(en.boolT(r.E))
	}
	ex.finishVerify(st, args, names)
}

func (ex *Exec) finishVerify(st *State, args []Val, names map[string]named) {
	c := ex.con
	if st.dead || ex.pv.infeasible(st) {
		ex.failed(st, "vacuous", "precondition", nil, "the precondition cannot be met")
		return
	}
	// locations named by modifies/keeps exist in the entry state
	for _, e := range append(append([]*Expr{}, c.Modifies...), c.Keeps...) {
		if _, ok := ex.resolveLoc(st, names, e); !ok {
			ex.unsup("modifies clause %s: no such location", e.pos())
		}
	}
	keepObj := map[int]int{}
	for i, e := range c.Keeps {
		l, _ := ex.resolveLoc(st, names, e)
		if st.locs[l].step.k != stObj && st.locs[l].parent >= 0 {
			l = st.obj(l)
		}
		keepObj[i] = l
	}
	rest := st
	for i := 0; i <= len(c.Cases); i++ {
		cs := rest.clone()
		if i < len(c.Cases) {
			g := ex.env(cs, nil, names, true).boolT(c.Cases[i].E)
			rest.assume(mkNot(g))
			cs.assume(g)
		}
		if ex.only >= 0 && i != ex.only || !c.caseOn(i) {
			continue
		}
		if len(c.Cases) > 0 {
			if ex.pv.settle(cs); cs.dead || ex.pv.infeasible(cs) {
				continue
			}
			ex.pv.settle(cs)
		}
		ex.verifyBody(cs, args, names, keepObj)
		if rest.dead {
			break
		}
	}
	if ex.only < 0 && ex.exits == 0 && len(ex.obls) == 0 {
		ex.failed(st, "vacuous", "no-exit", nil, "no path reaches a return")
	}
}

func (ex *Exec) verifyBody(st *State, args []Val, names map[string]named, keepObj map[int]int) {
	c, fn := ex.con, ex.fn
	pre := st.clone()
	ex.pre = pre
	ex.preNamed = names
	nEntry := len(pre.locs)
	ex.inline(st, -1, fn, args, nil, func(st *State, res []Val) {
		if ex.dry == 0 {
			ex.exits++
		}
		ns := map[string]named{}
		for k, v := range names {
			ns[k] = v
		}
		for i, t := range splitRes(fn.Signature) {
			ns[c.Results[i]] = named{v: res[i], t: t, post: true}
		}
		if ex.dry == 0 {
			ex.pv.settle(st)
		}
		for _, e := range c.Ensures {
			st2 := st.clone()
			g := ex.env(st2, ex.pre, ns, false).boolT(e.E)
			ex.check(st2, "ensures", e.Label, e.Props, g)
		}
		ex.nonNilFacts(st, pre, nEntry)
		ex.frame(st, pre, nEntry, names, keepObj)
	})
}

// nonNilFacts: fields that are never nil are not nil in the entry state.
func (ex *Exec) nonNilFacts(st, pre *State, nEntry int) {
	exp := pre.clone()
	for i := range st.locs {
		x := i
		if r := &st.locs[x]; r.parent < 0 || r.step.k != stOpt && r.step.k != stVariant {
			continue
		}
		var path []Step
		for st.locs[x].parent >= 0 {
			path = append([]Step{st.locs[x].step}, path...)
			x = st.locs[x].parent
		}
		if x >= nEntry || x == st.heapL {
			continue
		}
		t := exp.content(x)
		for _, s := range path {
			switch s.k {
			case stField:
				t = mkSel(s.ctor, s.i, t)
				if ex.w.nonnil[s.ctor.Fields[s.i].Sel] {
					if n := ex.w.nilTest(t); n != nil {
						st.assume(mkNot(n))
					}
				}
			case stVariant, stOpt:
				t = mkSel(s.ctor, 0, t)
			case stObj:
			default:
				t = nil
			}
			if t == nil {
				break
			}
		}
	}
}

// frame: nothing but the locations of the modifies clauses has changed.
func (ex *Exec) frame(st, pre *State, nEntry int, names map[string]named, keepObj map[int]int) {
	c := ex.con
	exp := pre.clone()
	for _, e := range c.Modifies {
		l, _ := ex.resolveLoc(exp, names, e)
		if e.Op == "id" {
			if p, ok := names[e.Name].v.(Ptr); ok {
				if o := exp.objOf(p); o >= 0 && exp.locs[p.loc].step.k == stVariant {
					l = o
				}
			}
		}
		var path []Step
		x := l
		for exp.locs[x].parent >= 0 {
			path = append([]Step{exp.locs[x].step}, path...)
			x = exp.locs[x].parent
		}
		t := st.content(x)
		for _, s := range path {
			switch s.k {
			case stField:
				t = mkSel(s.ctor, s.i, t)
			case stVariant, stOpt:
				t = mkSel(s.ctor, 0, t)
			case stIndex:
				t = mkNth(t, exp.simp(s.t))
			case stHeap:
				t = mkSelect(t, exp.simp(s.t))
			}
			t = st.simp(t)
		}
		for i := range exp.locs {
			exp.locs[i].frozen = false
		}
		// objects below keep their connection: write through
		exp.write(l, t)
	}
	for i := 0; i < nEntry; i++ {
		if pre.locs[i].parent >= 0 {
			continue
		}
		a, b := st.content(i), st.simp(exp.content(i))
		if a == b {
			continue
		}
		if i == st.heapL {
			// references allocated by the function are not part of the entry heap
			a = stripNew(a, b)
			if a == b {
				continue
			}
		}
		ex.check(st, "frame", "unmodified:"+ex.rootName(names, i, pre), nil, mkEq(a, b))
	}
	for i, e := range c.Keeps {
		o := keepObj[i]
		l, _ := ex.resolveLoc(pre.clone(), names, e)
		want := pre.locs[o].parent
		_ = l
		if o < len(st.locs) && st.locs[o].parent == want && !st.locs[o].detached {
			ex.check(st, "keeps", fmt.Sprintf("same%d", i+1), nil, tTrue)
			continue
		}
		ex.failed(st, "keeps", fmt.Sprintf("same%d", i+1), nil, "the object was replaced by another one")
	}
}

// stripNew removes stores to newly allocated references.
func stripNew(h, base *Term) *Term {
	if h == base {
		return h
	}
	if h.Kind == KApp && h.Name == "store" {
		in := stripNew(h.Args[0], base)
		r := h.Args[1]
		if d := mkSub(r, alloc0); d.Kind == KInt && d.Int.Sign() > 0 {
			return in
		}
		return mkStore(in, r, h.Args[2])
	}
	return h
}

func (ex *Exec) rootName(names map[string]named, i int, st *State) string {
	if i == st.heapL {
		return "heap"
	}
	for _, n := range ex.con.Params {
		if o := st.objOf(names[n].v); o >= 0 && st.rootOf(o) == i {
			return n
		}
	}
	return "entry"
}

func (w *World) verifyLemma(ex *Exec, rep *FuncReport, name string) {
	for _, l := range w.specs.Obl {
		if l.Name != name {
			continue
		}
		rep.Props = l.Props
		st := newState()
		en := &Env{w: w, names: map[string]func(bool) (TV, bool){}}
		for _, p := range l.Params {
			s, gt := w.specType(p.Type)
			c := mkFresh(p.Name, s)
			ex.pv.noteType(c, gt)
			en = en.bind(p.Name, TV{c, gt})
		}
		en.heap = func(bool) *Term { panic(elabErr{"heap in lemma"}) }
		for _, h := range l.Hyps {
			st.assume(en.boolT(h))
		}
		ex.check(st, "lemma", "", l.Props, en.boolT(l.E))
		return
	}
}

// verifyTheorem proves a theorem by induction over its measure.
func (w *World) verifyTheorem(ex *Exec, rep *FuncReport, name string) {
	for _, l := range w.specs.Lemmas {
		if l.Name != name || !l.Proved {
			continue
		}
		rep.Props = l.Props
		ex.pv.proving = l
		st := newState()
		base := &Env{w: w, names: map[string]func(bool) (TV, bool){}}
		base.heap = func(bool) *Term { panic(elabErr{"heap in theorem"}) }
		en := base
		var sorts []*Sort
		for _, p := range l.Params {
			s, gt := w.specType(p.Type)
			c := mkFresh(p.Name, s)
			ex.pv.noteType(c, gt)
			en = en.bind(p.Name, TV{c, gt})
			sorts = append(sorts, s)
		}
		for _, at := range l.At {
			in := base
			for i, p := range l.Params {
				v := en.eval(at[i])
				if v.t.Sort != sorts[i] {
					panic(elabErr{"theorem " + l.Name + ": argument of the wrong sort"})
				}
				in = in.bind(p.Name, v)
			}
			m, m1 := en.term(l.Dec), in.term(l.Dec)
			if m.Sort.Data != nil {
				g, ok := subterm(m1, m)
				if !ok {
					panic(elabErr{"theorem " + l.Name + ": not a part of the induction variable"})
				}
				st.assume(mkImp(g, in.boolT(l.Body)))
				continue
			}
			st.assume(mkImp(mkAnd(mkLe(mkInt(0), m1), mkLe(mkAdd(m1, mkInt(1)), m)), in.boolT(l.Body)))
		}
		if l.Dec != nil {
			if m := en.term(l.Dec); m.Sort.Data != nil {
				for _, c := range m.Sort.Data.Ctors {
					cs := st.clone()
					if !cs.assume(mkIs(c, m)) {
						continue
					}
					if ex.pv.settle(cs); cs.dead {
						continue
					}
					ex.check(cs, "theorem", c.Name, l.Props, en.boolT(l.Body))
				}
				return
			}
		}
		ex.check(st, "theorem", "", l.Props, en.boolT(l.Body))
		return
	}
}

// subterm: t is reached from m by taking fields; the guard says that the fields
// exist.
func subterm(t, m *Term) (*Term, bool) {
	g, n := []*Term{}, 0
	for t != m {
		if t.Kind != KSel || t.Args[0].Sort.Data == nil {
			return nil, false
		}
		if len(t.Args[0].Sort.Data.Ctors) > 1 {
			g = append(g, mkIs(t.Ctor, t.Args[0]))
		}
		t = t.Args[0]
		n++
	}
	return mkAnd(g...), n > 0
}

// verifyRefines checks that an implementation contract implies the contract of
// the interface method it implements.
func (w *World) verifyRefines(ex *Exec, c *Contract) {
	ic := w.specs.Contracts[c.Refines]
	fn := w.funcs[c.Key]
	if ic == nil || fn == nil {
		ex.unsup("refines: unknown contract %s", c.Refines)
	}
	ex.con, ex.fn = ic, fn
	st := newState()
	ex.heap(st)
	var args []Val
	for _, p := range fn.Params {
		args = append(args, ex.freshVal(st, p.Type(), p.Name()))
	}
	names := ex.namesOf(ic, fn.Signature, args)
	for _, p := range ic.Params {
		st.assume(ex.nonNil(st, ic, p, names[p]))
	}
	en := ex.env(st, nil, names, true)
	for _, r := range ic.Requires {
		st.assume(en.boolT(r.E))
	}
	for _, e := range append(append([]*Expr{}, ic.Modifies...), ic.Keeps...) {
		ex.resolveLoc(st, names, e)
	}
	pre := st.clone()
	ex.pre = pre
	ex.preNamed = names
	nEntry := len(pre.locs)
	ex.used[c.Key] = true
	ex.applyContract(st, c, fn.Signature, args, c.Key, func(st *State, res []Val) {
		ex.exits++
		ns := map[string]named{}
		for k, v := range names {
			ns[k] = v
		}
		for i, t := range splitRes(fn.Signature) {
			ns[ic.Results[i]] = named{v: res[i], t: t, post: true}
		}
		for _, e := range ic.Ensures {
			ex.check(st, "refines", e.Label, e.Props, ex.env(st, pre, ns, false).boolT(e.E))
		}
		ex.frame(st, pre, nEntry, names, nil)
	})
}

var _ = ssa.NewConst

// elabAll elaborates every specification function.
func (w *World) elabAll() (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(elabErr); ok {
				msg = e.msg
				return
			}
			msg = fmt.Sprint(r)
		}
	}()
	for _, f := range w.specs.FnOrder {
		w.elabFn(f)
	}
	w.findMaps()
	for _, l := range w.specs.Lemmas {
		w.elabLemma(l)
	}
	return ""
}
