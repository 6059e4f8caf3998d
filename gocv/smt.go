package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- uninterpreted functions known to the spec language ----

type FunDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

var (
	funMu  sync.Mutex
	funTab = map[string]FunDecl{}
	// global axioms: asserted in every query that mentions one of the trigger symbols
	axMu   sync.Mutex
	axioms []Axiom
)

type Axiom struct {
	Name string
	Syms []string // asserted once all these symbols occur
	T    *Term
}

func RegFun(name string, ret Sort, args ...Sort) {
	funMu.Lock()
	defer funMu.Unlock()
	funTab[name] = FunDecl{name, args, ret}
}

func AddAxiom(name string, t *Term, syms ...string) {
	axMu.Lock()
	defer axMu.Unlock()
	axioms = append(axioms, Axiom{name, syms, t})
}

func UF(name string, args ...*Term) *Term {
	funMu.Lock()
	d, ok := funTab[name]
	funMu.Unlock()
	if !ok {
		panic(VErr("unknown function " + name))
	}
	if len(d.Args) != len(args) {
		panic(VErr(fmt.Sprintf("function %s: %d args, want %d", name, len(args), len(d.Args))))
	}
	for i := range args {
		if args[i].sort != d.Args[i] {
			panic(VErr(fmt.Sprintf("function %s arg %d: sort %s, want %s", name, i, args[i].sort, d.Args[i])))
		}
	}
	return App(name, d.Ret, args...)
}

func init() {
	RegFun("slen", SInt, SStr)
	RegFun("umod", SInt, SInt, SInt)
	RegFun("sat", SInt, SStr, SInt)
	RegFun("mkstr", SStr, ArrS(SInt, SInt), SInt, SInt)
	RegFun("sconcat", SStr, SStr, SStr)
	RegFun("sless", SBool, SStr, SStr)
	RegFun("bvor", SInt, SInt, SInt)
	RegFun("bvxor", SInt, SInt, SInt)
	RegFun("bvand", SInt, SInt, SInt)
	RegFun("strext", SInt, SStr, SStr)
	RegFun("p2", SInt, SInt)
	s := BVar("s", SStr)
	s2 := BVar("s2", SStr)
	a := BVar("a", ArrS(SInt, SInt))
	o, n, i := BVar("o", SInt), BVar("n", SInt), BVar("i", SInt)
	AddAxiom("slen-nonneg", Forall([]*Term{s}, Le(Zero, App("slen", SInt, s)), []*Term{App("slen", SInt, s)}), "slen")
	ms := App("mkstr", SStr, a, o, n)
	AddAxiom("mkstr-len", Forall([]*Term{a, o, n}, Implies(Le(Zero, n), Eq(App("slen", SInt, ms), n)), []*Term{ms}), "mkstr")
	AddAxiom("mkstr-at", Forall([]*Term{a, o, n, i}, Implies(And(Le(Zero, i), Lt(i, n)), Eq(App("sat", SInt, ms, i), App("select", SInt, a, Add(o, i)))), []*Term{App("sat", SInt, ms, i)}), "mkstr", "sat")
	sa := App("sat", SInt, s, i)
	AddAxiom("sat-byte", Forall([]*Term{s, i}, And(Le(Zero, sa), Le(sa, IntT(255))), []*Term{sa}), "sat")
	sc := App("sconcat", SStr, s, s2)
	AddAxiom("concat-len", Forall([]*Term{s, s2}, Eq(App("slen", SInt, sc), Add(App("slen", SInt, s), App("slen", SInt, s2))), []*Term{sc}), "sconcat")
	AddAxiom("concat-at", Forall([]*Term{s, s2, i}, Eq(App("sat", SInt, sc, i), Ite(Lt(i, App("slen", SInt, s)), sa, App("sat", SInt, s2, Sub(i, App("slen", SInt, s))))), []*Term{App("sat", SInt, sc, i)}), "sconcat", "sat")
	x, y := BVar("x", SInt), BVar("y", SInt)
	bo := App("bvor", SInt, x, y)
	AddAxiom("or-bounds", Forall([]*Term{x, y}, Implies(And(Le(Zero, x), Le(Zero, y)), And(Le(x, bo), Le(y, bo), Le(bo, Add(x, y)))), []*Term{bo}), "bvor")
	ba := App("bvand", SInt, x, y)
	AddAxiom("and-bounds", Forall([]*Term{x, y}, Implies(Or(Le(Zero, x), Le(Zero, y)), And(Le(Zero, ba), Or(Lt(x, Zero), Le(ba, x)), Or(Lt(y, Zero), Le(ba, y)))), []*Term{ba}), "bvand")
	AddAxiom("p2-pos", Forall([]*Term{x}, Le(One, App("p2", SInt, x)), []*Term{App("p2", SInt, x)}), "p2")
}

// emitter tracks what has been declared in one solver context.
type emitter struct {
	w       *strings.Builder
	sorts   map[string]bool
	syms    map[string]bool
	seen    map[*Term]bool
	named   map[*Term]string
	ax      map[int]bool
	litDecl map[string]bool
	nameN   int
	depth   int
	persist []persistent // axioms and literal facts, re-asserted after a pop
	tfSeen  map[*Term]int
	tfPos   int
}

type persistent struct {
	depth int
	text  string
}

func (e *emitter) keep(text string) {
	e.w.WriteString(text)
	if e.depth > 0 {
		e.persist = append(e.persist, persistent{e.depth, text})
	}
}

func (e *emitter) push() { e.w.WriteString("(push 1)\n"); e.depth++ }
func (e *emitter) pop() {
	e.w.WriteString("(pop 1)\n")
	e.depth--
	out := e.persist[:0]
	for _, p := range e.persist {
		if p.depth > e.depth {
			e.w.WriteString(p.text)
			p.depth = e.depth
		}
		if p.depth > 0 {
			out = append(out, p)
		}
	}
	e.persist = out
}

func newEmitter() *emitter {
	return &emitter{w: &strings.Builder{}, sorts: map[string]bool{}, syms: map[string]bool{}, seen: map[*Term]bool{}, named: map[*Term]string{}, ax: map[int]bool{}, litDecl: map[string]bool{}, tfSeen: map[*Term]int{}}
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.$!]*`)

func (e *emitter) sort(s Sort) {
	if e.sorts[string(s)] {
		return
	}
	e.sorts[string(s)] = true
	for _, id := range identRe.FindAllString(string(s), -1) {
		switch id {
		case "Int", "Bool", "Array", "Real":
			continue
		}
		if e.sorts["@"+id] {
			continue
		}
		e.sorts["@"+id] = true
		if id == "Str" {
			e.w.WriteString("(declare-sort Str 0)\n")
			continue
		}
		dtMu.Lock()
		d := dts[id]
		dtMu.Unlock()
		if d == nil {
			e.w.WriteString("(declare-sort " + id + " 0)\n")
			continue
		}
		for _, f := range d.Fields {
			e.sort(f.Sort)
		}
		e.w.WriteString("(declare-datatypes ((" + d.Name + " 0)) (((" + d.Cons)
		for _, f := range d.Fields {
			e.w.WriteString(" (" + f.Sel + " " + string(f.Sort) + ")")
		}
		e.w.WriteString("))))\n")
	}
}

var builtinOps = map[string]bool{"+": true, "*": true, "div": true, "mod": true, "<=": true, "=": true, "not": true, "and": true, "or": true, "=>": true, "ite": true, "select": true, "store": true, "true": true, "false": true, "-": true, "distinct": true}

func (e *emitter) declare(t *Term) {
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	for _, a := range t.args {
		e.declare(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			e.declare(x)
			e.namePat(x)
		}
	}
	switch t.op {
	case 'v':
		e.sort(t.sort)
	case 'c':
		if !e.syms[t.name] {
			e.syms[t.name] = true
			e.sort(t.sort)
			if lv, ok := litVal(t); ok {
				e.lit(t, lv)
			} else {
				fmt.Fprintf(e.w, "(declare-const %s %s)\n", t.name, t.sort)
			}
		}
		if t.def != nil {
			e.declare(t.def)
		}
	case 'a':
		if builtinOps[t.name] || strings.HasPrefix(t.name, "(as const") {
			e.sort(t.sort)
			break
		}
		if _, ok := selInfo[t.name]; ok {
			e.sort(t.args[0].sort)
			break
		}
		if _, ok := dtOfCons(t); ok {
			e.sort(t.sort)
			break
		}
		if !e.syms[t.name] {
			e.syms[t.name] = true
			funMu.Lock()
			d, ok := funTab[t.name]
			funMu.Unlock()
			if !ok {
				panic(VErr("undeclared symbol " + t.name))
			}
			e.sort(d.Ret)
			var as []string
			for _, a := range d.Args {
				e.sort(a)
				as = append(as, string(a))
			}
			fmt.Fprintf(e.w, "(declare-fun %s (%s) %s)\n", d.Name, strings.Join(as, " "), d.Ret)
			e.axiomsFor()
		}
	}
	if !t.bound {
		e.typeFacts(t)
	}
	// name big shared ground terms
	if t.op == 'a' && !t.bound && t.size > 12 && len(t.args) > 0 {
		e.nameN++
		n := fmt.Sprintf("n!%d", t.id)
		var b strings.Builder
		fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
		printTerm(&b, t, e.named)
		b.WriteString(")\n")
		e.w.WriteString(b.String())
		e.named[t] = n
	}
}

// namePat gives the ground parts of a pattern that a pattern may not contain a name.
func (e *emitter) namePat(t *Term) {
	if t.bound {
		for _, a := range t.args {
			e.namePat(a)
		}
		return
	}
	if !hasIte(t) || strings.HasPrefix(e.named[t], "pk!") {
		return
	}
	n := fmt.Sprintf("pk!%d", t.id)
	fmt.Fprintf(e.w, "(declare-const %s %s)\n", n, t.sort)
	var b strings.Builder
	fmt.Fprintf(&b, "(assert (= %s ", n)
	printTerm(&b, t, e.named)
	b.WriteString("))\n")
	e.keep(b.String())
	e.named[t] = n
}

var iteMemo = map[*Term]bool{}

func hasIte(t *Term) bool {
	if r, ok := iteMemo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case 'q':
		r = true
	case 'a':
		switch t.name {
		case "ite", "and", "or", "not", "=>", "=", "<=":
			r = true
		}
		for _, a := range t.args {
			if r {
				break
			}
			r = hasIte(a)
		}
	}
	iteMemo[t] = r
	return r
}

func (e *emitter) axiomsFor() {
	axMu.Lock()
	list := axioms
	axMu.Unlock()
	for i, a := range list {
		if e.ax[i] {
			continue
		}
		ok := true
		for _, s := range a.Syms {
			if !e.syms[s] {
				ok = false
			}
		}
		if ok && len(a.Syms) > 0 {
			e.ax[i] = true
			e.declare(a.T)
			var b strings.Builder
			b.WriteString("(assert ")
			printTerm(&b, a.T, e.named)
			b.WriteString(")\n")
			e.keep(b.String())
		}
	}
}

func (e *emitter) lit(t *Term, v string) {
	fmt.Fprintf(e.w, "(declare-const %s Str)\n", t.name)
	for _, f := range []string{"slen", "sat"} {
		if !e.syms[f] {
			e.syms[f] = true
			d := funTab[f]
			var as []string
			for _, a := range d.Args {
				as = append(as, string(a))
			}
			fmt.Fprintf(e.w, "(declare-fun %s (%s) %s)\n", d.Name, strings.Join(as, " "), d.Ret)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(assert (= (slen %s) %d))\n", t.name, len(v))
	if len(v) <= 64 {
		for i := 0; i < len(v); i++ {
			fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", t.name, i, v[i])
		}
	}
	if v == "" {
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", t.name)
	}
	for o := range e.litDecl {
		fmt.Fprintf(&b, "(assert (not (= %s %s)))\n", t.name, o)
	}
	e.keep(b.String())
	e.axiomsFor()
	e.litDecl[t.name] = true
}

// typeFacts asserts the type invariants of a declared term.
func (e *emitter) typeFacts(t *Term) {
	for {
		tfMu.Lock()
		fs := typeFact[t]
		tfMu.Unlock()
		n := e.tfSeen[t]
		if n >= len(fs) {
			return
		}
		e.tfSeen[t] = n + 1
		f := fs[n]
		e.declare(f)
		var b strings.Builder
		b.WriteString("(assert ")
		printTerm(&b, f, e.named)
		b.WriteString(")\n")
		e.keep(b.String())
	}
}

func (e *emitter) assert(t *Term) {
	// facts about terms that were declared earlier
	for {
		tfMu.Lock()
		if e.tfPos >= len(tfLog) {
			tfMu.Unlock()
			break
		}
		x := tfLog[e.tfPos]
		tfMu.Unlock()
		e.tfPos++
		if e.seen[x] {
			e.typeFacts(x)
		}
	}
	if t == True {
		return
	}
	e.declare(t)
	e.w.WriteString("(assert ")
	printTerm(e.w, t, e.named)
	e.w.WriteString(")\n")
}

// ---- incremental solver ----

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	em    *emitter
	dead  bool
	log   *os.File
	Q     int
	T     time.Duration
	levels []*Fact
}

var z3new = envOr("GOCV_Z3", "z3-new")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const prelude = "(set-option :global-declarations true)\n(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n"

func NewSolver() *Solver {
	s := &Solver{em: newEmitter()}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(z3new, "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", z3new, err)
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReader(out)
	if p := os.Getenv("GOCV_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "smt")
	}
	s.send(prelude)
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) flush() {
	if s.em.w.Len() > 0 {
		s.send(s.em.w.String())
		s.em.w.Reset()
	}
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}
// Fact is a persistent list of assumptions along one path.
type Fact struct {
	parent *Fact
	t      *Term
	depth  int
}

func (f *Fact) list() []*Term {
	var out []*Term
	for x := f; x != nil; x = x.parent {
		out = append(out, x.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// sync makes the solver's assertion stack equal to the facts of f.
func (s *Solver) sync(f *Fact) {
	if s.dead {
		s.Close()
		s.em = newEmitter()
		s.levels = nil
		s.dead = false
		s.start()
	}
	// deepest level that is an ancestor of f
	for len(s.levels) > 0 {
		top := s.levels[len(s.levels)-1]
		x := f
		for x != nil && x.depth > top.depth {
			x = x.parent
		}
		if x == top {
			break
		}
		s.em.pop()
		s.levels = s.levels[:len(s.levels)-1]
	}
	var base *Fact
	if len(s.levels) > 0 {
		base = s.levels[len(s.levels)-1]
	}
	if base == f {
		return
	}
	var add []*Term
	for x := f; x != base; x = x.parent {
		add = append(add, x.t)
	}
	s.em.push()
	for i := len(add) - 1; i >= 0; i-- {
		s.em.assert(add[i])
	}
	s.levels = append(s.levels, f)
}

// Valid asks whether the facts imply the goal: "unsat" means yes.
func (s *Solver) Valid(f *Fact, goal *Term, ms int) string {
	if goal == True {
		return "unsat"
	}
	s.sync(f)
	s.em.push()
	s.em.assert(Not(goal))
	first := ms
	if hybrid && ms > 60 {
		first = 60
	}
	r := s.Check(first)
	if r == "unknown" && first < ms {
		t0 := time.Now()
		if AloneText(standalone(f.list(), goal, nil), ms*1000) {
			r = "unsat"
		}
		s.T += time.Since(t0)
	}
	if r == "unsat" || r == "sat" || r == "unknown" {
		s.em.pop()
		return r
	}
	s.dead = true
	return "unknown"
}

var hybrid = os.Getenv("GOCV_HYBRID") != "0"

func (s *Solver) Check(timeoutMs int) string {
	st := time.Now()
	// the resource limit decides, so that the answer does not depend on the load of the machine
	fmt.Fprintf(s.em.w, "(set-option :rlimit %d)\n(set-option :timeout %d)\n(check-sat)\n", timeoutMs*1000, timeoutMs*10+3000)
	s.flush()
	s.Q++
	line, err := s.readLine(time.Duration(timeoutMs)*time.Millisecond*12 + 25*time.Second)
	s.T += time.Since(st)
	if debug {
		noteCaller(time.Since(st))
	}
	if err != nil {
		return "dead"
	}
	return line
}

var callerT = map[string]time.Duration{}
var callerN = map[string]int{}

// noteCaller adds up the time of queries by the place they come from.
func noteCaller(d time.Duration) {
	pc := make([]uintptr, 12)
	n := runtime.Callers(4, pc)
	fr := runtime.CallersFrames(pc[:n])
	var key string
	for i := 0; i < 4; i++ {
		f, more := fr.Next()
		key += fmt.Sprintf(" %s:%d", strings.TrimPrefix(f.Function, "main."), f.Line)
		if !more {
			break
		}
	}
	callerT[key] += d
	callerN[key]++
}

func dumpCallers() {
	for k, d := range callerT {
		dbg("CALLER %8.1fs %5d %s", d.Seconds(), callerN[k], k)
	}
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if e == nil && l == "" {
				continue
			}
			ch <- res{l, e}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.e == nil && strings.HasPrefix(r.s, "(error") {
			if strings.Contains(r.s, "canceled") || strings.Contains(r.s, "timeout") {
				return "unknown", nil
			}
			fmt.Fprintln(os.Stderr, "SMT ERROR:", r.s)
			return r.s, fmt.Errorf("smt error: %s", r.s)
		}
		return r.s, r.e
	case <-time.After(d):
		s.cmd.Process.Kill()
		return "", fmt.Errorf("solver hung")
	}
}

// ---- portfolio on stand-alone queries ----

type SolveResult struct {
	Res     string // unsat, sat, unknown
	By      string
	Secs    float64
	File    string
	Model   string
	Outputs string
}

// Alone asks a fresh solver whether the facts imply the goal.
func Alone(facts []*Term, goal *Term, rlimit int) bool {
	return AloneText(standalone(facts, goal, nil), rlimit)
}

// AloneText runs a fresh solver on a query.
func AloneText(text string, rlimit int) bool {
	t0 := time.Now()
	cmd := exec.Command(z3new, "-in", "-smt2", "-T:60", "smt.auto_config=false", "smt.mbqi=false", fmt.Sprintf("rlimit=%d", rlimit))
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	o, _ := cmd.Output()
	solverSecs.Add(time.Since(t0).Microseconds())
	if strings.HasPrefix(string(o), "unknown") && time.Since(t0) < 20*time.Second {
		cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=15000", fmt.Sprintf("--rlimit=%d", rlimit/20))
		cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
		o, _ = cmd.Output()
		solverSecs.Add(time.Since(t0).Microseconds())
	}
	return strings.HasPrefix(string(o), "unsat")
}

var solverSecs atomic.Int64 // microseconds

var procSem = make(chan struct{}, 8)

func standalone(facts []*Term, goal *Term, getvals []*Term) string {
	e := newEmitter()
	for _, f := range facts {
		e.assert(f)
	}
	e.assert(Not(goal))
	for _, g := range getvals {
		e.declare(g)
	}
	return e.w.String()
}

func Portfolio(body string, getvals []*Term, timeout time.Duration, dir, name string) SolveResult {
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, sanitize(name)+".smt2")
	gv := ""
	if len(getvals) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, g := range getvals {
			printTerm(&b, g, nil)
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
		gv = b.String()
	}
	os.WriteFile(f, []byte("(set-logic ALL)\n"+body+"(check-sat)\n"), 0o644)
	fm := filepath.Join(dir, sanitize(name)+".model.smt2")
	os.WriteFile(fm, []byte("(set-option :produce-models true)\n(set-logic ALL)\n"+body+"(check-sat)\n"+gv), 0o644)
	secs := int(timeout.Seconds())
	if secs < 1 {
		secs = 1
	}
	type cfg struct {
		by   string
		argv []string
	}
	cfgs := []cfg{
		{"z3-new(ematch)", []string{z3new, fmt.Sprintf("-T:%d", secs), "smt.auto_config=false", "smt.mbqi=false", f}},
		{"cvc5", []string{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), f}},
		{"z3-4.8", []string{"z3", fmt.Sprintf("-T:%d", secs), "smt.auto_config=false", "smt.mbqi=false", f}},
		{"z3-new", []string{z3new, fmt.Sprintf("-T:%d", secs), fm}},
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+3*time.Second)
	defer cancel()
	type out struct {
		by, res, text string
		secs          float64
	}
	ch := make(chan out, len(cfgs))
	for _, c := range cfgs {
		go func(c cfg) {
			procSem <- struct{}{}
			defer func() { <-procSem }()
			if ctx.Err() != nil {
				ch <- out{c.by, "cancelled", "", 0}
				return
			}
			t0 := time.Now()
			o, _ := exec.CommandContext(ctx, c.argv[0], c.argv[1:]...).CombinedOutput()
			d := time.Since(t0)
			solverSecs.Add(d.Microseconds())
			txt := string(o)
			first := ""
			for _, l := range strings.Split(txt, "\n") {
				if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
					first = l
					break
				}
			}
			ch <- out{c.by, first, txt, d.Seconds()}
		}(c)
	}
	r := SolveResult{Res: "unknown", File: f}
	for range cfgs {
		o := <-ch
		if len(o.text) > 4000 {
			o.text = o.text[:4000]
		}
		if o.res != "cancelled" {
			r.Outputs += fmt.Sprintf("[%s %.1fs] %s\n", o.by, o.secs, o.text)
		}
		if o.res == "unsat" {
			r.Res, r.By, r.Secs = "unsat", o.by, o.secs
			cancel()
			return r
		}
		if o.res == "sat" && r.Res != "sat" {
			// with quantifiers only a full "sat" counts, which z3/cvc5 report only when sure
			r.Res, r.By, r.Secs, r.Model = "sat", o.by, o.secs, o.text
			if o.by == "z3-new" {
				cancel()
				return r
			}
		}
	}
	return r
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gocv: "+f+"\n", a...)
	os.Exit(3)
}
