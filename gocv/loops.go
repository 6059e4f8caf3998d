package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOCV_DEBUG") != ""

var dbgStart = time.Now()

func dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, fmt.Sprintf("%4d ", int(time.Since(dbgStart).Seconds()))+f+"\n", a...)
	}
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}

type loopRun struct {
	blocks map[*ssa.BasicBlock]bool
	back   func(st *State, prev *ssa.BasicBlock)
	exit   func(st *State, b, prev *ssa.BasicBlock) bool
}

type loopStats struct {
	Pos   string
	Kept  []string
	Mods  []string
	Tried int
	Passes int
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if m, ok := v.loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					m[s] = l
				}
				// natural loop of the back edge
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	v.loopCache[fn] = m
	return m
}

func (v *Verifier) innermost(fn *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range v.loopsOf(fn) {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

// ---- what a loop body writes ----

type modKey struct {
	r    *regionInfo
	obj  *Term // nil: all existing objects
	idx  *Term
	path string
}

type modEnt struct {
	modKey
	path []PathElem
}

type discovery struct {
	x      *Exec
	outer  *discovery
	mark   int
	alloc  *Term // allocation counter at loop entry
	cells  map[*Cell]bool
	ghosts map[string]bool
	all    bool
	mods   map[modKey]modEnt
	grew   bool
	iters  int // iterators made before the loop
	known, knownMaps []*Term // objects of loop-entry references
	olds   map[*Cell]bool
}

func (d *discovery) cell(c *Cell) {
	for e := d; e != nil; e = e.outer {
		if (c.glob || e.olds[c]) && !e.cells[c] {
			e.cells[c] = true
			e.grew = true
			if os.Getenv("GOCV_GREW") != "" {
				dbg("    grew: cell %s", c.name)
			}
		}
	}
}

func (d *discovery) ghost(k string) {
	for e := d; e != nil; e = e.outer {
		var n int
		if _, err := fmt.Sscanf(k, "iter%d", &n); err == nil && n > e.iters {
			continue // an iterator from within the loop
		}
		if !e.ghosts[k] {
			e.ghosts[k] = true
			e.grew = true
			if os.Getenv("GOCV_GREW") != "" {
				dbg("    grew: ghost %s", k)
			}
		}
	}
}

// varies says whether t may have different values in different iterations.
func (d *discovery) varies(t *Term) bool {
	if t == nil {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id <= d.mark || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == 'c' && strings.Contains(t.name, "!") && !isLit(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (d *discovery) write(st *State, r *regionInfo, obj *Term) { d.writeAt(st, r, obj, nil, nil) }

func (d *discovery) writeAt(st *State, r *regionInfo, obj, idx *Term, path []PathElem) {
	for e := d; e != nil; e = e.outer {
		e.write1(st, r, obj, idx, path)
	}
}

func (d *discovery) add(k modKey, path []PathElem) {
	if _, ok := d.mods[k]; ok {
		return
	}
	// a larger entry may cover it
	for o := range d.mods {
		if o.r == k.r && (o.obj == nil || o.obj == k.obj && o.idx == nil) {
			return
		}
	}
	d.mods[k] = modEnt{k, path}
	d.grew = true
	if os.Getenv("GOCV_GREW") != "" {
		dbg("    grew: %s %v %v", k.r.key, k.obj, k.idx)
	}
}

func (d *discovery) write1(st *State, r *regionInfo, obj, idx *Term, path []PathElem) {
	x := d.x
	if obj == nil {
		d.add(modKey{r: r}, nil)
		return
	}
	if df, ok := diffConst(obj, d.alloc); ok && df.Sign() >= 0 {
		return
	}
	for k := range d.mods {
		if k.r == r && k.obj == nil {
			return
		}
	}
	if !d.varies(obj) {
		k := modKey{r: r, obj: obj}
		if idx != nil && !d.varies(idx) {
			fields := true
			for _, p := range path {
				if p.idx != nil {
					fields = false
				}
			}
			if fields {
				k.idx = idx
				k.path = pathStr(path)
				d.add(k, path)
				return
			}
		}
		d.add(k, nil)
		return
	}
	alts := []*Term{Le(d.alloc, obj)}
	known := d.known
	if r.kind != "mem" {
		alts[0] = Or(alts[0], Eq(obj, Zero))
		known = d.knownMaps
	}
	if x.proves(st, alts[0], 500) {
		return
	}
	var objs []*Term
	for _, o := range known {
		alts = append(alts, Eq(obj, o))
		objs = append(objs, o)
	}
	for k := range d.mods {
		if k.r == r && k.obj != nil && k.idx == nil {
			alts = append(alts, Eq(obj, k.obj))
		}
	}
	if x.proves(st, Or(alts...), 800) {
		// keep only the objects that are really needed
		for i := len(objs) - 1; i >= 0 && len(objs) < 9; i-- {
			var a []*Term
			a = append(a, alts[0])
			for j, o := range objs {
				if j != i {
					a = append(a, Eq(obj, o))
				}
			}
			if x.proves(st, Or(a...), 500) {
				objs = append(append([]*Term(nil), objs[:i]...), objs[i+1:]...)
			}
		}
		for _, o := range objs {
			d.add(modKey{r: r, obj: o}, nil)
		}
		return
	}
	d.add(modKey{r: r}, nil)
}

func pathStr(p []PathElem) string {
	s := ""
	for _, e := range p {
		s += fmt.Sprintf(".%d", e.field)
	}
	return s
}

// ---- candidate invariants ----

type loopVar struct {
	name string
	ty   types.Type
	get  func(st *State) Value
	plus bool
	entryOnly bool
	mut bool // a variable changed by the loop
}

type cand struct {
	text string
	eval func(st *State) *Term
	auto bool
	label string
	props []string
	dead bool
	hard  bool // the incremental solver has failed on it
}

type loopCtx struct {
	x     *Exec
	lp    *loop
	fr    *Frame
	entry *State // state at loop entry, after the header's phis
	vars  []loopVar
	iters []loopVar
}

func (x *Exec) headerCond(st *State, lp *loop, prev *ssa.BasicBlock) *Term {
	h := lp.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	if lp.blocks[h.Succs[0]] && lp.blocks[h.Succs[1]] {
		return nil
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.Convert, *ssa.Field, *ssa.Extract:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	s := st.clone()
	disc, obls, nf := x.disc, x.obls, x.noFrame
	x.disc = &discovery{iters: iterSeq, x: x, cells: map[*Cell]bool{}, ghosts: map[string]bool{}, mods: map[modKey]modEnt{}, alloc: s.alloc}
	defer func() { x.disc, x.obls, x.noFrame = disc, obls, nf }()
	var res *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(VErr); !ok {
					panic(r)
				}
			}
		}()
		x.phis(s, h, prev)
		for _, in := range h.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				res = x.t(s, in.Cond)
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return
				}
				x.set(s, in, x.unop(s, in))
			case *ssa.Call:
				r := x.call(s, in, &in.Call, func(*State, Value) {})
				if r == nil {
					return
				}
				s.frame.regs[in] = r
			default:
				x.instr(s, in.(ssa.Instruction))
			}
		}
	}()
	return res
}

func (x *Exec) enterLoop(st *State, lp *loop, prev *ssa.BasicBlock) bool {
	fr := st.frame
	if !lp.blocks[prev] {
		delete(fr.unroll, lp.header)
	}
	con := x.con
	if c := x.ver.contractFor(funcKey(fr.fn)); c != nil && c.Unroll > 0 {
		con = c
	}
	if con.Unroll > 0 {
		fr.unroll[lp.header]++
		if fr.unroll[lp.header] > con.Unroll+1 {
			x.check(st, False, "unwind", "unwind", fmt.Sprintf("the loop runs at most %d times", con.Unroll), nil)
			return true
		}
		return false
	}
	if fr.unroll[lp.header] < 70 && x.con.Options["loops"] != "invariant" {
		if c := x.headerCond(st, lp, prev); c == True || c == False {
			fr.unroll[lp.header]++
			return false
		}
	}
	x.analyseLoop(st, lp, prev)
	return true
}

func (x *Exec) analyseLoop(st *State, lp *loop, prev *ssa.BasicBlock) {
	h := lp.header
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
restart:
	entry := st.clone()
	x.phis(entry, h, prev)
	for _, p := range phis {
		if pv, ok := entry.frame.regs[p].(*PtrV); ok {
			t := x.ptrTerm(entry, pv)
			entry.frame.regs[p] = x.fromTerm(t, p.Type())
		}
	}
	lc := &loopCtx{x: x, lp: lp, fr: entry.frame, entry: entry}
	// variables the invariants may talk about
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && lp.blocks[in.Block()]
	}
	phiSet := map[ssa.Value]bool{}
	for _, p := range phis {
		p := p
		phiSet[p] = true
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		lc.vars = append(lc.vars, loopVar{name: name, ty: p.Type(), mut: true, get: func(s *State) Value { return s.frame.regs[p] }})
	}
	usedOuter := map[ssa.Value]bool{}
	var outer []ssa.Value
	for _, b := range lp.fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || usedOuter[v] || inLoop(v) {
					continue
				}
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				}
				usedOuter[v] = true
				outer = append(outer, v)
			}
		}
	}
	// values defined before the loop that reach it
	for v := range entry.frame.regs {
		if usedOuter[v] || phiSet[v] || inLoop(v) {
			continue
		}
		if p, ok := v.(*ssa.Parameter); ok {
			usedOuter[v] = true
			outer = append(outer, p)
		}
	}
	sort.Slice(outer, func(i, j int) bool { return outer[i].Name() < outer[j].Name() })
	for _, v := range outer {
		v := v
		val, ok := safeVal(x, entry, v)
		if !ok {
			continue
		}
		switch val := val.(type) {
		case *IterV:
			lc.iters = append(lc.iters, loopVar{name: v.Name(), get: func(*State) Value { return val }})
			continue
		case *ssa.Builtin:
			continue
		case *PtrV:
			if val.cell != nil {
				continue
			}
		}
		lc.vars = append(lc.vars, loopVar{name: v.Name(), ty: v.Type(), get: func(*State) Value { return val }})
	}
	var cells []*Cell
	for c := range entry.cells {
		if !c.glob {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	d := &discovery{iters: iterSeq, x: x, outer: x.disc, cells: map[*Cell]bool{}, ghosts: map[string]bool{}, mods: map[modKey]modEnt{}, alloc: entry.alloc, olds: map[*Cell]bool{}}
	for _, c := range cells {
		c := c
		d.olds[c] = true
		lc.vars = append(lc.vars, loopVar{name: c.name, ty: c.ty, mut: true, get: func(s *State) Value {
			p := &PtrV{cell: c}
			return x.fromTerm(x.loadT(s, p, c.ty), c.ty)
		}})
	}
	for _, lv := range lc.vars {
		if lv.ty == nil {
			continue
		}
		t, ok := safeTerm(x, entry, lv)
		if !ok {
			continue
		}
		switch kindOf(lv.ty) {
		case kSlice:
			d.known = append(d.known, SlObj(t))
		case kPtr:
			d.known = append(d.known, PObj(t))
		case kMap:
			d.knownMaps = append(d.knownMaps, t)
		case kStruct:
			st := lv.ty.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if kindOf(st.Field(i).Type()) == kMap {
					d.knownMaps = append(d.knownMaps, Sel(dtFor(lv.ty), i, t))
				}
			}
		}
	}
	d.known = dedupTerms(d.known)
	d.knownMaps = dedupTerms(d.knownMaps)
	cands := lc.candidates(lp, phis)
	// those that hold on entry
	var live []*cand
	tried := len(cands)
	deadKey := func(c *cand) string { return fmt.Sprintf("%s#%d %s", funcKey(lp.fn), lp.header.Index, c.text) }
	var hardC []*cand
	var hardT []*Term
	for _, c := range cands {
		if x.ver.loopDead[deadKey(c)] {
			x.ver.skipped++
			continue
		}
		t, ok := c.safe(entry)
		if !ok {
			continue
		}
		if x.proves(entry, t, 700) {
			live = append(live, c)
		} else if !c.auto {
			live = append(live, c)
			hardC = append(hardC, c)
			hardT = append(hardT, t)
		}
	}
	for i, ok := range x.provesAlone(entry, hardT, 1500000) {
		if !ok {
			hardC[i].dead = true
			dbg("  loop %s: not on entry: %s %s", x.loopPos(lp), hardC[i].text, x.dumpQuery(entry, hardT[i]))
		}
	}
	if len(hardC) > 0 {
		var nl []*cand
		for _, c := range live {
			if !c.dead {
				nl = append(nl, c)
			}
		}
		live = nl
	}
	variants := lc.variants(lp, phis)
	needVar := x.con.Options["terminates"] != "" && !lc.inherentlyFinite()
	passes := 0
	mkH := func() *State {
		hs := entry.clone()
		a := Fresh("alloc", SInt)
		setRange(a, bigZero, pow2(61))
		hs.alloc = a
		x.addFact(hs, Le(entry.alloc, a))
		if d.all {
			od := x.disc
			nf := x.noFrame
			x.noFrame = true
			x.disc = nil
			x.havocAll(hs)
			x.disc, x.noFrame = od, nf
		}
		for _, p := range phis {
			t := x.fresh("phi_"+p.Comment, p.Type())
			x.addFact(hs, refsBelow(t, p.Type(), hs.alloc))
			hs.frame.regs[p] = x.fromTerm(t, p.Type())
		}
		var cs []*Cell
		for c := range d.cells {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id || cs[i].id == cs[j].id && cs[i].name < cs[j].name })
		for _, c := range cs {
			if _, f := hs.fwd[c]; f {
				continue
			}
			t := x.fresh("loop_"+c.name, c.ty)
			x.addFact(hs, refsBelow(t, c.ty, hs.alloc))
			hs.cells[c] = t
		}
		var ms []modEnt
		for _, m := range d.mods {
			ms = append(ms, m)
		}
		sort.Slice(ms, func(i, j int) bool { return modLess(ms[i], ms[j]) })
		for _, m := range ms {
			if m.obj == nil {
				// existing objects only; see freshRegion
				save := hs.alloc
				x.freshRegion(hs, m.r)
				hs.alloc = save
			}
		}
		for _, m := range ms {
			if m.obj == nil {
				continue
			}
			reg := hs.region(m.r)
			if m.idx == nil {
				na := x.freshArr(hs, m.r, mustElem(reg.sort))
				if m.r.kind != "mem" {
					na = mergeIte(Eq(m.obj, Zero), Select(reg, m.obj), na)
				}
				hs.mem[m.r.key] = Store(reg, m.obj, na)
			} else {
				arr := Select(reg, m.obj)
				t := navType(m.r.elem, m.path)
				v := x.fresh("loopf", t)
				x.addFact(hs, refsBelow(v, t, hs.alloc))
				hs.mem[m.r.key] = Store(reg, m.obj, Store(arr, m.idx, navSet(Select(arr, m.idx), m.r.elem, m.path, v)))
			}
		}
		for g := range d.ghosts {
			if t, ok := hs.ghost[g]; ok {
				hs.ghost[g] = Fresh("lg", t.sort)
			}
		}
		return hs
	}
	var aliveVar []*cand
	for {
		passes++
		if passes > 60 {
			panic(VErr("loop analysis does not converge"))
		}
		if x.deadlineHit() {
			panic(abortFn{"time limit in loop analysis"})
		}
		termMu.Lock()
		d.mark = termSeq
		termMu.Unlock()
		d.grew = false
		hs := mkH()
		if debug && x.proves(hs, False, 700) {
			dbg("  loop %s: contradictory before invariants", x.loopPos(lp))
		}
		for _, c := range live {
			t, ok := c.safe(hs)
			if !ok {
				c.dead = true
				continue
			}
			x.assume(hs, t)
		}
		if debug && x.proves(hs, False, 700) {
			dbg("  loop %s: contradictory with invariants", x.loopPos(lp))
		}
		lc.uses(hs)
		aliveVar = nil
		v0 := map[*cand]*Term{}
		if needVar {
			for _, v := range variants {
				if t, ok := v.safe(hs); ok && !v.dead {
					v0[v] = t
				}
			}
		}
		changed := false
		escaped := map[*Cell]bool{}
		save := x.disc
		ospec := x.spec
		x.spec = true
		x.disc = d
		hs.frame.loops[h] = &loopRun{blocks: lp.blocks,
			back: func(bs *State, prev *ssa.BasicBlock) {
				for _, c := range cells {
					if _, ok := bs.fwd[c]; ok {
						if _, was := entry.fwd[c]; !was {
							escaped[c] = true
						}
					}
				}
				if len(escaped) > 0 {
					return
				}
				x.phis(bs, h, prev)
				lc.uses(bs)
				var ts []*Term
				var cs []*cand
				for _, c := range live {
					if c.dead {
						continue
					}
					t, ok := c.safe(bs)
					if !ok {
						c.dead = true
						changed = true
						continue
					}
					ts = append(ts, t)
					cs = append(cs, c)
				}
				if os.Getenv("GOCV_BK") != "" {
					for i := range cs {
						if strings.Contains(cs[i].text, os.Getenv("GOCV_BK")) {
							dbg("  BK %s %s: %s %s", x.loopPos(lp), cs[i].text, ts[i], x.dumpQuery(bs, ts[i]))
						}
					}
				}
				for i, ok := range x.provesCands(bs, cs, ts) {
					if !ok {
						cs[i].dead = true
						changed = true
						if !cs[i].auto {
							dbg("  loop %s: not preserved: %s %s", x.loopPos(lp), cs[i].text, x.dumpQuery(bs, ts[i]))
						}
					}
				}
				for v, t0 := range v0 {
					t1, ok := v.safe(bs)
					if !ok || !x.proves(bs, And(Le(Zero, t0), Lt(t1, t0)), 700) {
						v.dead = true
						delete(v0, v)
					}
				}
			},
			exit: func(*State, *ssa.BasicBlock, *ssa.BasicBlock) bool { return true },
		}
		x.run(hs, h, 0)
		x.disc = save
		x.spec = ospec
		if len(escaped) > 0 {
			for _, c := range cells {
				if escaped[c] {
					x.materialise(st, &PtrV{cell: c})
				}
			}
			goto restart
		}
		var nl []*cand
		for _, c := range live {
			if !c.dead {
				nl = append(nl, c)
			}
		}
		live = nl
		for _, v := range variants {
			if _, ok := v0[v]; ok {
				aliveVar = append(aliveVar, v)
			}
		}
		if !changed && !d.grew {
			break
		}
		if os.Getenv("GOCV_CALLERS") != "" {
			dumpCallers()
		}
		dbg("  loop %s: pass %d, %d candidates live, changed %v, grew %v", x.loopPos(lp), passes, len(live), changed, d.grew)
		// variants may have failed only because of the weaker frame; retry them
		for _, v := range variants {
			v.dead = false
		}
	}
	// the real pass
	if x.disc == nil || debug {
		ls := &loopStats{Pos: x.loopPos(lp), Tried: tried, Passes: passes}
		for _, c := range live {
			ls.Kept = append(ls.Kept, c.text)
		}
		for k := range d.mods {
			s := k.r.key
			if k.obj != nil {
				s += fmt.Sprintf("[%s]", short(k.obj.String()))
			}
			ls.Mods = append(ls.Mods, s+k.path)
		}
		for c := range d.cells {
			ls.Mods = append(ls.Mods, c.name)
		}
		sort.Strings(ls.Mods)
		x.loopInfo[ls.Pos] = ls
		dbg("loop %s: %d passes, kept: %s\n   mods: %s", ls.Pos, passes, strings.Join(ls.Kept, " ; "), strings.Join(ls.Mods, ", "))
	}
	if x.disc != nil {
		// report the summary to the enclosing analysis
		for c := range d.cells {
			x.disc.cell(c)
		}
		for g := range d.ghosts {
			x.disc.ghost(g)
		}
		if d.all {
			for e := x.disc; e != nil; e = e.outer {
				if !e.all {
					e.all, e.grew = true, true
				}
			}
		}
	}
	if needVar && len(aliveVar) == 0 {
		x.check(entry, False, "variant", "terminates", "the loop terminates (no measure found that decreases in every iteration)", nil)
	}
	if x.ver.loopDead != nil {
		alive := map[*cand]bool{}
		for _, c := range live {
			alive[c] = true
		}
		for _, c := range cands {
			if !alive[c] {
				x.ver.loopDead[deadKey(c)] = true
			}
		}
	}
	for _, c := range live {
		if t, ok := c.safe(entry); ok && x.disc == nil && !c.auto {
			x.check(entry, t, "inv", "entry."+c.label, "loop invariant on entry: "+c.text, c.props)
		}
	}
	hs := mkH()
	for _, c := range live {
		if t, ok := c.safe(hs); ok {
			x.assume(hs, t)
		}
	}
	lc.uses(hs)
	var vt *Term
	if len(aliveVar) > 0 {
		vt, _ = aliveVar[0].safe(hs)
	}
	hs.frame.loops[h] = &loopRun{blocks: lp.blocks,
		back: func(bs *State, prev *ssa.BasicBlock) {
			x.phis(bs, h, prev)
			if x.disc != nil {
				return
			}
			lc.uses(bs)
			for _, c := range live {
				if t, ok := c.safe(bs); ok {
					x.check(bs, t, "inv", "keep."+c.label, "loop invariant is kept: "+c.text, c.props)
				}
			}
			if vt != nil {
				if t1, ok := aliveVar[0].safe(bs); ok {
					x.check(bs, And(Le(Zero, vt), Lt(t1, vt)), "variant", "terminates", "the loop measure decreases: "+aliveVar[0].text, nil)
				}
			}
		},
	}
	x.run(hs, h, 0)
}

func modLess(a, b modEnt) bool {
	if a.r.key != b.r.key {
		return a.r.key < b.r.key
	}
	ai, bi := 0, 0
	if a.obj != nil {
		ai = a.obj.id
	}
	if b.obj != nil {
		bi = b.obj.id
	}
	if ai != bi {
		return ai < bi
	}
	ai, bi = 0, 0
	if a.idx != nil {
		ai = a.idx.id
	}
	if b.idx != nil {
		bi = b.idx.id
	}
	if ai != bi {
		return ai < bi
	}
	return a.modKey.path < b.modKey.path
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

func dedupTerms(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{Zero: true}
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// provesCands tells which of the candidates are preserved.
func (x *Exec) provesCands(st *State, cs []*cand, ts []*Term) []bool {
	out := make([]bool, len(ts))
	// the ones without quantifiers in one go; skolem constants and hypotheses of one goal must not
	// leak into another one
	var gs []*Term
	var gi []int
	for i, a := range ts {
		if a.op == 'q' || a.isApp("=>") || a.isApp("or") || a.isApp("and") {
			continue
		}
		f, g := x.prep(st.fact, a)
		if f != st.fact {
			continue
		}
		gs = append(gs, g)
		gi = append(gi, i)
	}
	if len(gs) > 0 {
		t := And(gs...)
		if t == True || len(gs) > 1 && x.s.Valid(st.fact, t, 1500) == "unsat" {
			for _, i := range gi {
				out[i] = true
			}
		}
	}
	var hard []int
	var hts []*Term
	for i, t := range ts {
		if out[i] {
			continue
		}
		t0 := time.Now()
		if cs[i].auto {
			out[i] = x.proves(st, t, 1000)
			if d := time.Since(t0); debug && d > time.Second/2 {
				dbg("     slow %s %v %v", cs[i].text, out[i], d)
			}
			continue
		}
		ok := !cs[i].hard && x.proves(st, t, 700)
		if d := time.Since(t0); debug && d > time.Second/2 {
			dbg("     slow %s %v %v", cs[i].text, ok, d)
		}
		if ok {
			out[i] = true
			continue
		}
		cs[i].hard = true
		hard = append(hard, i)
		hts = append(hts, t)
	}
	t0 := time.Now()
	defer func() {
		if len(hts) > 0 {
			dbg("     %d hard: %v", len(hts), time.Since(t0))
		}
	}()
	for k, ok := range x.provesAlone(st, hts, 4000000) {
		out[hard[k]] = ok
	}
	return out
}

// provesAlone asks fresh solvers, which do better on quantified facts, about the goals, side by side.
func (x *Exec) provesAlone(st *State, ts []*Term, rlimit int) []bool {
	out := make([]bool, len(ts))
	type job struct {
		i    int
		text string
	}
	var jobs []job
	var split func(i int, t *Term)
	split = func(i int, t *Term) {
		if t.isApp("and") {
			for _, a := range t.args {
				split(i, a)
			}
			return
		}
		f, g := x.prep(st.fact, t)
		if g != True {
			jobs = append(jobs, job{i, standalone(f.list(), g, nil)})
		}
	}
	for i, t := range ts {
		out[i] = true
		split(i, t)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			need := out[j.i]
			mu.Unlock()
			if need && !AloneText(j.text, rlimit) {
				mu.Lock()
				out[j.i] = false
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}

func (x *Exec) deadlineHit() bool { return x.ver.clock().After(x.deadline) }

func (x *Exec) loopPos(lp *loop) string {
	for _, in := range lp.header.Instrs {
		if in.Pos().IsValid() {
			p := x.ver.prog.Fset.Position(in.Pos())
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
		}
	}
	return funcKey(lp.fn) + fmt.Sprintf("#%d", lp.header.Index)
}

func safeVal(x *Exec, st *State, v ssa.Value) (r Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(VErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return x.val(st, v), true
}

func safeTerm(x *Exec, st *State, lv loopVar) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(VErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	v := lv.get(st)
	switch v := v.(type) {
	case *Term:
		return v, true
	case *StrV:
		return v.t, true
	case *PtrV:
		if v.cell != nil || len(v.path) > 0 {
			return nil, false
		}
		return Cons(ptrDT, v.obj, v.idx), true
	}
	return nil, false
}

func (c *cand) safe(st *State) (t *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if ve, is := e.(VErr); is {
				if !c.auto {
					dbg("  candidate %s: %s", c.text, ve)
				}
				ok = false
				return
			}
			panic(e)
		}
	}()
	return c.eval(st), true
}

// ---- candidates ----

func (lc *loopCtx) env(st *State) *Env {
	x := lc.x
	vars := x.sp
	con := x.con
	old := x.entry
	return &Env{x: x, st: st, old: old, pre: lc.entry, vars: vars, pkg: x.pkg(), con: con}
}

func (lc *loopCtx) template(li LoopInv, add func(*cand)) {
	x := lc.x
	choices := make([][]loopVar, len(li.Metas))
	for i, m := range li.Metas {
		for _, v := range lc.vars {
			if m.Type == "iter" {
				continue
			}
			if v.ty == nil || !specTypeMatches(m.Type, v.ty) {
				continue
			}
			choices[i] = append(choices[i], v)
			if v.mut && kindOf(v.ty) == kInt && m.Type == "int" {
				v := v
				choices[i] = append(choices[i], loopVar{name: v.name + "+1", ty: v.ty, get: func(s *State) Value {
					return Add(v.get(s).(*Term), One)
				}})
			}
		}
		if m.Type == "iter" {
			choices[i] = lc.iters
		}
		if len(choices[i]) == 0 {
			return
		}
	}
	n := 0
	pick := make([]loopVar, len(li.Metas))
	var rec func(i int)
	rec = func(i int) {
		if n > 300 {
			return
		}
		if i == len(pick) {
			n++
			sel := append([]loopVar(nil), pick...)
			text := li.Text
			if len(sel) > 0 {
				var ns []string
				for j, s := range sel {
					ns = append(ns, li.Metas[j].Name+"="+s.name)
				}
				text += " [" + strings.Join(ns, ",") + "]"
			}
			add(&cand{text: text, label: li.Label, props: li.Props, eval: func(st *State) *Term {
				e := lc.env(st)
				vars := map[string]SpecVal{}
				for k, v := range e.vars {
					vars[k] = v
				}
				// metas in pre() denote the value at loop entry
				pv := map[string]SpecVal{}
				for k, v := range vars {
					pv[k] = v
				}
				for j, s := range sel {
					vars[li.Metas[j].Name] = SpecVal{s.get(st), s.ty}
				}
				e.vars = vars
				e.preVars = func() map[string]SpecVal {
					for j, s := range sel {
						pv[li.Metas[j].Name] = SpecVal{s.get(lc.entry), s.ty}
					}
					return pv
				}
				return e.T(li.E)
			}})
			return
		}
		for _, v := range choices[i] {
			dup := false
			for j := 0; j < i; j++ {
				if pick[j].name == v.name && li.Metas[j].Type == li.Metas[i].Type {
					dup = true
				}
			}
			if dup {
				continue
			}
			pick[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	_ = x
}

func (lc *loopCtx) templates() []LoopInv {
	var out []LoopInv
	for _, li := range lc.x.con.Inv {
		if lc.x.ver.forProp(li.Props) {
			out = append(out, li)
		}
	}
	if lc.fr.fn != lc.x.fn {
		if c := lc.x.ver.contractFor(funcKey(lc.fr.fn)); c != nil {
			_ = c // its parameters are not in scope here
		}
	}
	return out
}

func (lc *loopCtx) candidates(lp *loop, phis []*ssa.Phi) []*cand {
	x := lc.x
	var out []*cand
	seen := map[*Term]bool{}
	add := func(c *cand) {
		// drop instances that say the same thing on entry
		t, ok := c.safe(lc.entry)
		if !ok {
			return
		}
		_ = t
		out = append(out, c)
	}
	_ = seen
	for _, li := range lc.templates() {
		lc.template(li, add)
	}
	auto := func(text string, f func(st *State) *Term) {
		out = append(out, &cand{text: text, label: "auto", auto: true, eval: f})
	}
	bounds := lc.bounds(lp)
	for _, v := range lc.vars {
		if !v.mut {
			continue
		}
		v := v
		get := func(st *State) *Term {
			t, ok := safeTerm(x, st, v)
			if !ok {
				panic(VErr("no value"))
			}
			return t
		}
		if _, ok := safeTerm(x, lc.entry, v); !ok {
			continue
		}
		switch kindOf(v.ty) {
		case kInt:
			e0 := get(lc.entry)
			auto(v.name+">=pre", func(st *State) *Term { return Le(e0, get(st)) })
			auto(v.name+"<=pre", func(st *State) *Term { return Le(get(st), e0) })
			auto(v.name+">=0", func(st *State) *Term { return Le(Zero, get(st)) })
			for _, b := range bounds {
				b := b
				auto(v.name+"<="+b.name, func(st *State) *Term { return Le(get(st), b.get(st).(*Term)) })
				auto(v.name+"<"+b.name, func(st *State) *Term { return Lt(get(st), b.get(st).(*Term)) })
				if b.entryOnly {
					auto(v.name+">="+b.name, func(st *State) *Term { return Le(b.get(st).(*Term), get(st)) })
				}
			}
		case kSlice:
			e0 := get(lc.entry)
			al := lc.entry.alloc
			auto(v.name+".obj=pre", func(st *State) *Term { return Eq(SlObj(get(st)), SlObj(e0)) })
			auto(v.name+".off=pre", func(st *State) *Term { return Eq(SlOff(get(st)), SlOff(e0)) })
			auto(v.name+".cap=pre", func(st *State) *Term { return Eq(SlCap(get(st)), SlCap(e0)) })
			auto(v.name+".len=pre", func(st *State) *Term { return Eq(SlLen(get(st)), SlLen(e0)) })
			auto(v.name+".len>=pre", func(st *State) *Term { return Le(SlLen(e0), SlLen(get(st))) })
			auto(v.name+".len<=pre", func(st *State) *Term { return Le(SlLen(get(st)), SlLen(e0)) })
			auto(v.name+".fresh", func(st *State) *Term { return Or(Le(al, SlObj(get(st))), Eq(SlObj(get(st)), SlObj(e0))) })
			if x.entry != nil {
				ea := x.entry.alloc
				auto(v.name+".new", func(st *State) *Term { return Le(ea, SlObj(get(st))) })
				auto(v.name+".new0", func(st *State) *Term { return Or(Le(ea, SlObj(get(st))), Eq(SlCap(get(st)), Zero)) })
			}
			auto(v.name+".end=pre", func(st *State) *Term { return Eq(Add(SlOff(get(st)), SlLen(get(st))), Add(SlOff(e0), SlLen(e0))) })
			auto(v.name+".capend=pre", func(st *State) *Term { return Eq(Add(SlOff(get(st)), SlCap(get(st))), Add(SlOff(e0), SlCap(e0))) })
			auto(v.name+".off>=pre", func(st *State) *Term { return Le(SlOff(e0), SlOff(get(st))) })
		case kPtr:
			e0 := get(lc.entry)
			auto(v.name+"!=nil", func(st *State) *Term { return Ne(PObj(get(st)), Zero) })
			auto(v.name+"=pre", func(st *State) *Term { return Eq(get(st), e0) })
			al := lc.entry.alloc
			auto(v.name+".fresh", func(st *State) *Term { return Or(Le(al, PObj(get(st))), Eq(get(st), e0)) })
		case kStruct:
			lc.structAuto(v.name, v.ty, get, get(lc.entry), auto, 0)
		case kBool, kString, kIface, kMap:
			e0 := get(lc.entry)
			auto(v.name+"=pre", func(st *State) *Term { return Eq(get(st), e0) })
		}
	}
	return out
}

func (lc *loopCtx) structAuto(name string, ty types.Type, get func(*State) *Term, e0 *Term, auto func(string, func(*State) *Term), depth int) {
	st, ok := ty.Underlying().(*types.Struct)
	if !ok || depth > 2 {
		return
	}
	d := dtFor(ty)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "_" {
			continue
		}
		i := i
		fe := Sel(d, i, e0)
		fg := func(s *State) *Term { return Sel(d, i, get(s)) }
		if kindOf(f.Type()) == kStruct {
			lc.structAuto(name+"."+f.Name(), f.Type(), fg, fe, auto, depth+1)
			continue
		}
		auto(name+"."+f.Name()+"=pre", func(s *State) *Term { return Eq(fg(s), fe) })
	}
}

// bounds are values the loop compares its variables with.
func (lc *loopCtx) bounds(lp *loop) []loopVar {
	x := lc.x
	var out []loopVar
	seen := map[string]bool{}
	add := func(name string, f func(st *State) *Term, lower bool) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, loopVar{name: name, get: func(s *State) Value { return f(s) }, entryOnly: lower})
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && lp.blocks[in.Block()]
	}
	var consider func(v ssa.Value, depth int)
	consider = func(v ssa.Value, depth int) {
		if kindOf(v.Type()) != kInt {
			return
		}
		switch v := v.(type) {
		case *ssa.Const:
			c, ok := safeVal(x, lc.entry, v)
			if ok {
				t := c.(*Term)
				add(t.String(), func(*State) *Term { return t }, true)
			}
			return
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && !inLoop(v.Call.Args[0]) {
				a := v.Call.Args[0]
				sv, ok := safeVal(x, lc.entry, a)
				if !ok {
					return
				}
				if t, ok := sv.(*Term); ok {
					switch kindOf(a.Type()) {
					case kSlice:
						add("len("+a.Name()+")", func(*State) *Term { return SlLen(t) }, false)
					case kString:
						add("len("+a.Name()+")", func(*State) *Term { return SLen(t) }, false)
					}
				}
				return
			}
		case *ssa.BinOp:
			if depth < 2 && (v.Op == token.ADD || v.Op == token.SUB) {
				if !inLoop(v.X) {
					consider(v.X, depth+1)
				}
				if !inLoop(v.Y) {
					consider(v.Y, depth+1)
				}
			}
		}
		if !inLoop(v) {
			sv, ok := safeVal(x, lc.entry, v)
			if !ok {
				return
			}
			if t, ok := sv.(*Term); ok && t.sort == SInt {
				add(v.Name(), func(*State) *Term { return t }, true)
			}
		}
	}
	for _, b := range lp.fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					consider(bo.X, 0)
					consider(bo.Y, 0)
				}
			}
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return out
}

func (lc *loopCtx) variants(lp *loop, phis []*ssa.Phi) []*cand {
	var out []*cand
	for _, li := range lc.x.con.Variants {
		lc.template(li, func(c *cand) { out = append(out, c) })
	}
	x := lc.x
	bounds := lc.bounds(lp)
	for _, v := range lc.vars {
		if !v.mut {
			continue
		}
		v := v
		if _, ok := safeTerm(x, lc.entry, v); !ok {
			continue
		}
		get := func(st *State) *Term {
			t, ok := safeTerm(x, st, v)
			if !ok {
				panic(VErr("no value"))
			}
			return t
		}
		switch kindOf(v.ty) {
		case kInt:
			out = append(out, &cand{text: v.name, auto: true, eval: get})
			for _, b := range bounds {
				b := b
				out = append(out, &cand{text: b.name + "-" + v.name, auto: true, eval: func(st *State) *Term { return Add(Sub(b.get(st).(*Term), get(st)), One) }})
			}
		case kSlice:
			out = append(out, &cand{text: "len(" + v.name + ")", auto: true, eval: func(st *State) *Term { return SlLen(get(st)) }})
		}
	}
	return out
}

// inherentlyFinite: loops over maps and channels are not given a measure.
func (lc *loopCtx) inherentlyFinite() bool {
	for _, in := range lc.lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return true
		}
	}
	return false
}

// uses assumes the lemma instances the contract asks for.
func (lc *loopCtx) uses(st *State) {
	for _, li := range lc.x.con.LoopUses {
		lc.template(li, func(c *cand) {
			if t, ok := c.safe(st); ok {
				lc.x.assume(st, t)
			}
		})
	}
}
