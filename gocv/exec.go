package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Func   string
	Case   string
	Kind   string // nil index div panic pre post inv frame assert unwind variant lemma
	Label  string
	Text   string
	Pos    string
	Props  []string
	facts  *Fact
	goal   *Term
	vals   []*Term // interesting values for the counterexample
	names  []string
	Status string // proved, failed
	By     string
	Secs   float64
	Detail string
	File   string
	Model  string
}

// Exec verifies one function against one contract.
type Exec struct {
	callBind []Value // captured variables of the closure that is called
	ver      *Verifier
	s        *Solver
	fn       *ssa.Function
	con      *Contract
	name     string
	entry    *State
	obls     []*Obl
	sp       map[string]SpecVal // contract parameters (entry values)
	inputs   []namedTerm
	disc     *discovery
	dedup    map[string]bool
	fails    int
	deadline time.Time
	paths    int
	instNo   int
	reachRet bool
	isLemma  bool
	unfolded map[*Term]bool
	usedCon  map[string]bool
	inlined  map[string]bool
	externs  map[string]bool
	retGoalVals []namedTerm
	mergeOn  bool
	curInstr ssa.Instruction
	loopInfo map[string]*loopStats
	stopAll  bool
	ghostDecl map[string]Sort
	lastRet []Value
	noFrame bool
	spec    bool // speculative run
	frame   *frameSpec
	shared  []*Cell
	allocBase *Term
}

type namedTerm struct {
	name string
	t    *Term
}

type abortFn struct{ why string }

func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	if t == False {
		st.dead = true
	}
	if t.isApp("and") {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	t = skolem(t)
	if t.isApp("and") {
		x.assume(st, t)
		return
	}
	x.addFact(st, t)
	for _, in := range x.instances(t) {
		x.addFact(st, in)
	}
}

// skolem names the witnesses of a fact.
func skolem(t *Term) *Term {
	open := func(q *Term) *Term {
		m := map[*Term]*Term{}
		n := len(q.args) - 1
		for _, v := range q.args[:n] {
			m[v] = Fresh("wit_"+v.name, v.sort)
		}
		return Subst(q.args[n], m)
	}
	switch {
	case t.op == 'q' && t.name == "exists":
		return skolem(open(t))
	case t.isApp("not") && t.args[0].op == 'q' && t.args[0].name == "forall":
		return skolem(Not(open(t.args[0])))
	case t.isApp("=>"):
		if b := skolem(t.args[1]); b != t.args[1] {
			return Implies(t.args[0], b)
		}
	}
	return t
}

func (x *Exec) addFact(st *State, t *Term) {
	if t == True {
		return
	}
	d := 0
	if st.fact != nil {
		d = st.fact.depth
	}
	st.fact = &Fact{st.fact, t, d + 1}
}

func (f *Fact) has(t *Term) bool {
	for x := f; x != nil; x = x.parent {
		if x.t == t {
			return true
		}
	}
	return false
}

// proves asks quickly whether the facts imply g.
func (x *Exec) proves(st *State, g *Term, ms int) bool {
	if g == True {
		return true
	}
	if g == False && false {
		return false
	}
	if g.isApp("and") {
		for _, a := range g.args {
			if !x.proves(st, a, ms) {
				return false
			}
		}
		return true
	}
	if st.fact.has(g) {
		return true
	}
	f, sg := x.prep(st.fact, g)
	if sg == True {
		return true
	}
	return x.s.Valid(f, sg, ms) == "unsat"
}

// provesFresh asks a fresh solver.
func (x *Exec) provesFresh(st *State, g *Term, rlimit int) bool {
	if g.isApp("and") {
		for _, a := range g.args {
			if !x.provesFresh(st, a, rlimit) {
				return false
			}
		}
		return true
	}
	f, sg := x.prep(st.fact, g)
	return Alone(f.list(), sg, rlimit)
}

var dumpN int

// dumpQuery writes a failed query to a file, for debugging.
func (x *Exec) dumpQuery(st *State, g *Term) string {
	if os.Getenv("GOCV_DEBUG") == "" {
		return ""
	}
	if g.isApp("and") {
		for _, a := range g.args {
			if !x.proves(st, a, 1500) {
				g = a
				break
			}
		}
	}
	f, sg := x.prep(st.fact, g)
	fs := f.list()
	dumpN++
	n := fmt.Sprintf("/tmp/gocv/dump%d.smt2", dumpN)
	os.WriteFile(n, []byte("(set-logic ALL)\n"+standalone(fs, sg, nil)+"(check-sat)\n(get-model)\n"), 0o644)
	if s := x.s; s.log != nil {
		r := s.Valid(f, sg, 1500)
		s.send("; " + n + " " + r + "\n")
	}
	return n
}

// lastCase splits "k <= n" for the witness k of a quantified goal into k == n and k < n, so that the
// solver looks at the last element, which is often the one that got added, on its own.
func lastCase(h *Term, suppose func(*Term)) {
	if h.isApp("and") {
		for _, a := range h.args {
			lastCase(a, suppose)
		}
		return
	}
	if h.isApp("<=") && len(h.args) == 2 && len(h.args[0].args) == 0 && strings.HasPrefix(h.args[0].name, "sk_") && len(h.args[1].args) > 0 {
		k, n := h.args[0], h.args[1]
		suppose(Or(Eq(k, n), Le(Add(k, IntT(1)), n)))
	}
}

// prep replaces the universally bound variables of a goal by fresh constants, moves its hypotheses
// to the facts and adds the instances of definitions it needs.
func (x *Exec) prep(f *Fact, g *Term) (*Fact, *Term) {
	suppose := func(t *Term) {
		tmp := &State{fact: f}
		x.assume(tmp, t)
		f = tmp.fact
	}
	for {
		switch {
		case g.op == 'q' && g.name == "forall":
			m := map[*Term]*Term{}
			n := len(g.args) - 1
			for _, v := range g.args[:n] {
				m[v] = Fresh("sk_"+v.name, v.sort)
			}
			g = Subst(g.args[n], m)
			continue
		case g.isApp("=>"):
			suppose(g.args[0])
			lastCase(g.args[0], suppose)
			g = g.args[1]
			continue
		case g.op == 'q' && g.name == "exists":
			n := len(g.args) - 1
			suppose(mkForall(g.args[:n:n], Not(g.args[n]), nil))
			g = False
		case g.isApp("or"):
			ex := false
			for _, a := range g.args {
				ex = ex || a.op == 'q'
			}
			if ex {
				rest := False
				for _, a := range g.args {
					if a.op == 'q' && a.name == "forall" && rest == False {
						rest = a
					} else {
						if a.op == 'q' && a.name == "exists" {
							n := len(a.args) - 1
							suppose(mkForall(a.args[:n:n], Not(a.args[n]), nil))
						} else {
							suppose(Not(a))
						}
					}
				}
				g = rest
				if g != False {
					continue
				}
			}
		}
		break
	}
	tmp := &State{fact: f}
	for _, in := range x.instances(g) {
		x.addFact(tmp, in)
	}
	return tmp.fact, g
}

// check emits the obligation "facts imply goal", then assumes the goal.
func (x *Exec) check(st *State, goal *Term, kind, label, text string, props []string) {
	if st.dead || goal == True && kind != "post" && kind != "pre" && kind != "lemma" {
		if goal == True && x.disc == nil && !st.dead {
			x.ver.trivial++
		}
		return
	}
	if x.disc != nil {
		x.assume(st, goal)
		return
	}
	if goal.isApp("and") && len(goal.args) < 40 {
		for _, a := range goal.args {
			x.check(st, a, kind, label, text, props)
		}
		return
	}
	o := &Obl{Func: x.name, Case: x.con.Case, Kind: kind, Label: label, Text: text, Pos: x.pos(), Props: props, goal: goal}
	o.facts, o.goal = x.prep(st.fact, goal)
	g := o.goal
	key := fmt.Sprintf("%s|%s|%s|%p|%d", kind, label, o.Pos, st.fact, goal.id)
	_ = key
	x.obls = append(x.obls, o)
	t0 := time.Now()
	r := "unsat"
	if g != True {
		r = x.s.Valid(o.facts, g, x.ver.quickMs)
	}
	o.Secs = time.Since(t0).Seconds()
	if r == "unsat" {
		o.Status = "proved"
		o.By = "z3-new(incremental)"
		if g == True {
			o.By = "simplifier"
		}
	} else {
		for _, in := range x.inputs {
			o.vals = append(o.vals, in.t)
			o.names = append(o.names, in.name)
		}
		x.ver.submit(x, o)
	}
	x.assume(st, goal)
	if int(x.ver.failCount.Load()) >= x.ver.maxFails || time.Now().After(x.deadline) {
		panic(abortFn{"too many failed obligations or time limit"})
	}
}

func (x *Exec) pos() string {
	if x.curInstr == nil {
		return ""
	}
	p := x.curInstr.Pos()
	if !p.IsValid() {
		if v, ok := x.curInstr.(ssa.Value); ok {
			p = v.Pos()
		}
	}
	if !p.IsValid() {
		return x.curInstr.Parent().Name()
	}
	ps := x.ver.prog.Fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, x.ver.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) fresh(name string, ty types.Type) *Term {
	return typed(Fresh(name, sortOf(ty)), ty)
}

func (x *Exec) freshVal(st *State, name string, ty types.Type) Value {
	if tu, ok := ty.(*types.Tuple); ok {
		var vs []Value
		for i := 0; i < tu.Len(); i++ {
			vs = append(vs, x.freshVal(st, name, tu.At(i).Type()))
		}
		return &TupleV{vs}
	}
	t := x.fresh(name, ty)
	x.assume(st, refsBelow(t, ty, st.alloc))
	return x.fromTerm(t, ty)
}

// ---- operands ----

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return &PtrV{cell: x.ver.globalCell(v)}
	case *ssa.Function:
		return newFuncV(v, nil)
	case *ssa.FreeVar:
		for i, fv := range st.frame.fn.FreeVars {
			if fv == v {
				return st.frame.bind[i]
			}
		}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.frame.regs[v]
	if !ok {
		panic(VErr("undefined register " + v.Name() + " in " + st.frame.fn.Name()))
	}
	return r
}

func (x *Exec) t(st *State, v ssa.Value) *Term {
	return x.term(st, x.val(st, v), v.Type())
}

func (x *Exec) ptr(st *State, v ssa.Value) *PtrV {
	r := x.val(st, v)
	switch r := r.(type) {
	case *PtrV:
		return r
	case *Term:
		return x.fromTerm(r, v.Type()).(*PtrV)
	}
	panic(VErr(fmt.Sprintf("not a pointer: %T", r)))
}

func (x *Exec) constVal(c *ssa.Const) Value {
	ty := c.Type()
	if c.Value == nil {
		if kindOf(ty) == kPtr {
			return x.fromTerm(nilPtr, ty)
		}
		if kindOf(ty) == kTuple {
			panic(VErr("tuple constant"))
		}
		return zeroOf(ty)
	}
	switch kindOf(ty) {
	case kInt, kOpaque:
		if i, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
			return IntB(i)
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return IntT(i)
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return IntB(new(big.Int).SetUint64(u))
		}
	case kBool:
		return BoolT(constant.BoolVal(c.Value))
	case kString:
		return StrLit(constant.StringVal(c.Value))
	case kFloat:
		return Const("flt_"+sanitize(c.Value.ExactString()), SInt)
	case kIface:
		panic(VErr("interface constant"))
	}
	panic(VErr("constant " + c.String()))
}

// ---- control ----

func (x *Exec) set(st *State, v ssa.Value, val Value) {
	st.frame.regs[v] = val
}

// goTo continues at block b coming from prev.
func (x *Exec) goTo(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		if !st.dead {
			x.run(st, b, 0)
		}
		return
	}
	if st.dead {
		return
	}
	fr := st.frame
	// leaving loops that are being analysed
	for h, lr := range fr.loops {
		if !lr.blocks[b] {
			delete(fr.loops, h)
			if lr.exit != nil {
				if lr.exit(st, b, prev) {
					return
				}
			}
		} else if b == h && lr.blocks[prev] {
			lr.back(st, prev)
			return
		}
	}
	for n := len(fr.stops) - 1; n >= 0; n-- {
		if fr.stops[n].block != b {
			continue
		}
		s := fr.stops[n]
		// evaluate phis for this edge, then hand over
		x.phis(st, b, prev)
		fr.stops = fr.stops[:n]
		s.collect(st, prev)
		return
	}
	if b.Dominates(prev) && len(fr.stops) > 0 {
		var keep []stopPoint
		for _, s := range fr.stops {
			if !b.Dominates(s.block) {
				keep = append(keep, s)
			}
		}
		fr.stops = keep
	}
	if lp := x.ver.loopsOf(fr.fn)[b]; lp != nil {
		if x.enterLoop(st, lp, prev) {
			return
		}
	}
	x.phis(st, b, prev)
	x.run(st, b, 0)
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
			break
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.phiEdge(st, p, k))
	}
	for i, p := range ps {
		st.frame.regs[p] = vals[i]
	}
}

func (x *Exec) phiEdge(st *State, p *ssa.Phi, k int) Value {
	e := p.Edges[k]
	// an edge whose value is not defined on this path (possible for dead values)
	if _, ok := e.(*ssa.Const); !ok {
		switch e.(type) {
		case *ssa.Global, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
		default:
			if v, ok := st.frame.regs[e]; ok {
				return v
			}
			panic(VErr("undefined phi operand"))
		}
	}
	return x.val(st, e)
}

func (x *Exec) run(st *State, b *ssa.BasicBlock, start int) {
	fr := st.frame
	if x.stopAll {
		return
	}
	for i := start; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		x.curInstr = in
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.goTo(st, b.Succs[0], b)
			return
		case *ssa.If:
			x.branch(st, b, in)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range in.Results {
				vs = append(vs, x.val(st, r))
			}
			fr.ret(st, vs)
			return
		case *ssa.Panic:
			x.check(st, False, "panic", "panic", "panic is unreachable", nil)
			return
		case *ssa.Call:
			next := i + 1
			done := x.call(st, in, &in.Call, func(st2 *State, v Value) {
				st2.frame.regs[in] = v
				x.run(st2, b, next)
			})
			if done != nil {
				st.frame.regs[in] = done
				continue
			}
			return
		case *ssa.RunDefers:
			if len(st.frame.defers) == 0 {
				continue
			}
			next := i + 1
			x.runDefers(st, func(st2 *State) { x.run(st2, b, next) })
			return
		case *ssa.Select:
			x.selectInstr(st, in, func(st2 *State, v Value) {
				st2.frame.regs[in] = v
				x.run(st2, b, i+1)
			})
			return
		case *ssa.Next:
			next := i + 1
			x.nextInstr(st, in, func(st2 *State, v Value) {
				st2.frame.regs[in] = v
				x.run(st2, b, next)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				next := i + 1
				x.recvInstr(st, in, func(st2 *State, v Value) {
					st2.frame.regs[in] = v
					x.run(st2, b, next)
				})
				return
			}
			x.set(st, in, x.unop(st, in))
		case *ssa.TypeAssert:
			next := i + 1
			if x.typeAssert(st, in, func(st2 *State, v Value) {
				st2.frame.regs[in] = v
				x.run(st2, b, next)
			}) {
				return
			}
		default:
			x.instr(st, in)
		}
	}
	panic(VErr("block without terminator"))
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	n := len(st.frame.defers)
	if n == 0 {
		k(st)
		return
	}
	d := st.frame.defers[n-1]
	st.frame.defers = st.frame.defers[:n-1]
	x.curInstr = d.pos
	done := x.callWith(st, d.pos, d.call, d.fn, d.args, func(st2 *State, v Value) { x.runDefers(st2, k) })
	if done != nil {
		x.runDefers(st, k)
	}
}

// feasible prunes branches whose condition contradicts the facts.
func (x *Exec) feasible(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	nc := Not(c)
	for f := st.fact; f != nil; f = f.parent {
		if f.t == c {
			return true
		}
		if f.t == nc {
			return false
		}
	}
	f := st.fact
	for _, in := range x.instances(c) {
		d := 0
		if f != nil {
			d = f.depth
		}
		f = &Fact{f, in, d + 1}
	}
	return x.s.Valid(f, nc, 400) != "unsat"
}

func (x *Exec) branch(st *State, b *ssa.BasicBlock, in *ssa.If) {
	c := x.t(st, in.Cond)
	if c == True {
		x.goTo(st, b.Succs[0], b)
		return
	}
	if c == False {
		x.goTo(st, b.Succs[1], b)
		return
	}
	f1 := x.feasible(st, c)
	f2 := true
	if f1 {
		f2 = x.feasible(st, Not(c))
	}
	x.paths++
	if x.paths > x.ver.maxPaths {
		panic(abortFn{"too many paths"})
	}
	if time.Now().After(x.deadline) {
		panic(abortFn{"time limit"})
	}
	if f1 && f2 && x.mergeOn {
		j := joinOf(b)
		if j == nil {
			// inside an unrolled loop both sides meet at the loop header
			if lp := x.ver.innermost(st.frame.fn, b); lp != nil && st.frame.loops[lp.header] == nil && lp.header != b {
				j = lp.header
			}
		}
		if j != nil {
			x.mergedBranch(st, b, j, c)
			return
		}
	}
	if f1 {
		s1 := st
		if f2 {
			s1 = st.clone()
		}
		x.assume(s1, c)
		x.goTo(s1, b.Succs[0], b)
	}
	if f2 {
		x.assume(st, Not(c))
		x.goTo(st, b.Succs[1], b)
	}
}

// joinOf finds the block where the two sides of b's branch meet again.
func joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) < 2 {
			continue
		}
		isLoop := false
		for _, p := range d.Preds {
			if d.Dominates(p) {
				isLoop = true
			}
		}
		if isLoop {
			continue
		}
		if best == nil || d.Index < best.Index {
			best = d
		}
	}
	return best
}

func (x *Exec) mergedBranch(st *State, b, j *ssa.BasicBlock, c *Term) {
	base := st.fact
	var arrived []*State
	collect := func(s *State, prev *ssa.BasicBlock) { arrived = append(arrived, s) }
	s1, s2 := st.clone(), st.clone()
	x.addFact(s1, c)
	for _, in := range x.instances(c) {
		x.addFact(s1, in)
	}
	s1.frame.stops = append(append([]stopPoint(nil), s1.frame.stops...), stopPoint{j, collect})
	x.goTo(s1, b.Succs[0], b)
	x.addFact(s2, Not(c))
	for _, in := range x.instances(Not(c)) {
		x.addFact(s2, in)
	}
	s2.frame.stops = append(append([]stopPoint(nil), s2.frame.stops...), stopPoint{j, collect})
	x.goTo(s2, b.Succs[1], b)
	if len(arrived) == 0 {
		return
	}
	if len(arrived) == 1 {
		x.run(arrived[0], j, 0)
		return
	}
	m := x.mergeStates(arrived, base)
	if m == nil {
		for _, s := range arrived {
			x.run(s, j, 0)
		}
		return
	}
	x.run(m, j, 0)
}

// mergeStates joins states that share the facts base.
func (x *Exec) mergeStates(ss []*State, base *Fact) (out *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(VErr); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	conds := make([]*Term, len(ss))
	for i, s := range ss {
		var cs []*Term
		for f := s.fact; f != base; f = f.parent {
			cs = append(cs, f.t)
		}
		for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
			cs[a], cs[b] = cs[b], cs[a]
		}
		conds[i] = And(cs...)
	}
	// names for the path conditions
	var guards []*Term
	for i := range ss {
		g := Fresh("path", SBool)
		guards = append(guards, g)
		_ = i
	}
	m := ss[len(ss)-1].clone()
	m.fact = base
	for i := range ss {
		for _, a := range conjuncts(conds[i]) {
			x.addFact(m, Implies(guards[i], a))
		}
	}
	x.addFact(m, Or(guards...))
	merge := func(ts []*Term) *Term {
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = mergeTerm(guards[i], ts[i], r)
		}
		return r
	}
	all := func(get func(s *State) (*Term, bool)) (*Term, bool) {
		var ts []*Term
		same := true
		for _, s := range ss {
			t, ok := get(s)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0], true
		}
		return merge(ts), true
	}
	// registers
	for v := range m.frame.regs {
		var vs []Value
		ok := true
		same := true
		for _, s := range ss {
			r, has := s.frame.regs[v]
			if !has {
				ok = false
				break
			}
			vs = append(vs, r)
			if r != vs[0] {
				same = false
			}
		}
		if !ok {
			delete(m.frame.regs, v)
			continue
		}
		if same {
			m.frame.regs[v] = vs[0]
			continue
		}
		var ts []*Term
		for _, r := range vs {
			switch r := r.(type) {
			case *Term:
				ts = append(ts, r)
			case *StrV:
				ts = nil
			case *PtrV:
				if r.cell == nil && len(r.path) == 0 && !r.arr {
					ts = append(ts, Cons(ptrDT, r.obj, r.idx))
				}
			}
		}
		if len(ts) != len(vs) {
			if samePtrs(vs) {
				m.frame.regs[v] = vs[0]
			} else {
				delete(m.frame.regs, v)
			}
			continue
		}
		m.frame.regs[v] = x.fromTerm(merge(ts), v.Type())
	}
	// cells: forwarding must agree
	for _, s := range ss {
		for c, p := range s.fwd {
			for _, o := range ss {
				q := o.fwd[c]
				if q == nil {
					// a cell that the other side does not have
					if _, has := o.cells[c]; has {
						panic(VErr("merge: escaping differs"))
					}
					continue
				}
				if q.obj != p.obj {
					panic(VErr("merge: escaping differs"))
				}
			}
			if m.fwd[c] == nil {
				m.fwd[c] = p
			}
		}
		if s.epoch != ss[0].epoch {
			panic(VErr("merge: epochs differ"))
		}
		if len(s.frame.defers) != len(ss[0].frame.defers) {
			panic(VErr("merge: defers differ"))
		}
	}
	for c := range m.cells {
		t, ok := all(func(s *State) (*Term, bool) { t, ok := s.cells[c]; return t, ok })
		if !ok {
			if c.glob {
				t, ok = all(func(s *State) (*Term, bool) {
					if t, ok := s.cells[c]; ok {
						return t, true
					}
					return x.globalInit(s, c), true
				})
				m.cells[c] = t
				continue
			}
			delete(m.cells, c)
			continue
		}
		m.cells[c] = t
	}
	for _, s := range ss {
		for c := range s.cells {
			if _, ok := m.cells[c]; !ok && c.glob {
				t, _ := all(func(s *State) (*Term, bool) {
					if t, ok := s.cells[c]; ok {
						return t, true
					}
					return x.globalInit(s, c), true
				})
				m.cells[c] = t
			}
		}
	}
	keys := map[string]bool{}
	for _, s := range ss {
		for k := range s.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		r := regions[k]
		t, _ := all(func(s *State) (*Term, bool) { return s.region(r), true })
		m.mem[k] = t
	}
	gk := map[string]bool{}
	for _, s := range ss {
		for k := range s.ghost {
			gk[k] = true
		}
	}
	for k := range gk {
		t, ok := all(func(s *State) (*Term, bool) { t, ok := s.ghost[k]; return t, ok })
		if !ok {
			panic(VErr("merge: ghost " + k + " not everywhere"))
		}
		m.ghost[k] = t
	}
	// allocation counter
	al, _ := all(func(s *State) (*Term, bool) { return s.alloc, true })
	if al.isApp("ite") {
		mx := ss[0].alloc
		for _, s := range ss[1:] {
			if d, ok := diffConst(s.alloc, mx); ok {
				if d.Sign() > 0 {
					mx = s.alloc
				}
			} else {
				f := Fresh("alloc", SInt)
				for i, s := range ss {
					x.addFact(m, Implies(guards[i], Le(s.alloc, f)))
				}
				mx = f
				break
			}
		}
		al = mx
	}
	m.alloc = al
	return m
}

func conjuncts(t *Term) []*Term {
	if t.isApp("and") {
		return t.args
	}
	return []*Term{t}
}

func samePtrs(vs []Value) bool {
	a, ok := vs[0].(*PtrV)
	if !ok {
		return false
	}
	for _, v := range vs[1:] {
		b, ok := v.(*PtrV)
		if !ok || a.cell != b.cell || a.obj != b.obj || a.idx != b.idx || a.arr != b.arr || len(a.path) != len(b.path) {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
	}
	return true
}

// mergeTerm builds "if c then a else b", pushing the choice into structure.
func mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if d, ok := dtOfCons(a); ok {
		if d2, ok := dtOfCons(b); ok && d == d2 {
			as := make([]*Term, len(a.args))
			for i := range as {
				as[i] = mergeTerm(c, a.args[i], b.args[i])
			}
			return Cons(d, as...)
		}
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = mergeTerm(c, a.args[i], Sel(d, i, b))
		}
		return Cons(d, as...)
	}
	if d, ok := dtOfCons(b); ok {
		as := make([]*Term, len(b.args))
		for i := range as {
			as[i] = mergeTerm(c, Sel(d, i, a), b.args[i])
		}
		return Cons(d, as...)
	}
	if a.isApp("store") || b.isApp("store") {
		// peel stores down to a common base
		peel := func(t *Term) (base *Term, ks []*Term) {
			for t.isApp("store") {
				ks = append(ks, t.args[1])
				t = t.args[0]
			}
			return t, ks
		}
		ba, ka := peel(a)
		bb, kb := peel(b)
		if ba == bb {
			var keys []*Term
			seen := map[*Term]bool{}
			for _, k := range append(reverse(ka), reverse(kb)...) {
				if !seen[k] {
					seen[k] = true
					keys = append(keys, k)
				}
			}
			distinct := true
			for i := range keys {
				for j := range keys[:i] {
					if !provDistinct(keys[i], keys[j]) {
						distinct = false
					}
				}
			}
			if distinct {
				r := ba
				for _, k := range keys {
					r = Store(r, k, mergeTerm(c, Select(a, k), Select(b, k)))
				}
				return r
			}
		}
	}
	return Ite(c, a, b)
}

func reverse(ts []*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[len(ts)-1-i] = t
	}
	return out
}
