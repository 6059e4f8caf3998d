package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	loopDead map[string]bool // invariants that a loop lost when it was reached before
	skipped  int
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	modPkgs      []*ssa.Package
	modPath      string
	spec         *Spec
	quickMs      int
	maxFails     int
	maxPaths     int
	noProveRange bool
	interior     bool
	trivial      int
	trustAsserts map[string]bool
	demoted      map[string]bool
	declared     map[string]bool
	loopCache    map[*ssa.Function]map[*ssa.BasicBlock]*loop
	sizes        types.Sizes
	funcs        map[string]*ssa.Function
	cells        map[*ssa.Global]*Cell
	globals      map[*Cell]*ssa.Global
	constVals    map[*ssa.Global]*Term
	tables       map[*Term][]*Term // the elements of slices that only package initialisation writes, by object
	constSt      map[*ssa.Global]int // 1 constant, 2 variable
	needs        map[string]bool
	needLemmas   map[string]bool
	usedAxioms   map[string]bool
	initAssumes  map[string]bool
	prop         string
	outDir       string
	portSecs     time.Duration
	fnDeadline   time.Duration
	wg           sync.WaitGroup
	failCount    atomic.Int32
	repo         string
}

func setupEnv() {
	set := func(k, v string) {
		os.Setenv(k, v)
	}
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=readonly")
	set("GOWORK", "off")
	set("PATH", "/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
}

func LoadProgram(repo, contracts string) *Verifier {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(ps) > 0 {
		fatal("the program does not type-check")
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	for _, p := range pkgs {
		if p != nil {
			p.Build()
		}
	}
	v := &Verifier{prog: prog, pkgs: map[string]*ssa.Package{}, quickMs: 2000, maxFails: 8, maxPaths: 20000,
		trustAsserts: map[string]bool{}, demoted: map[string]bool{}, declared: map[string]bool{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loop{},
		funcs: map[string]*ssa.Function{}, cells: map[*ssa.Global]*Cell{}, globals: map[*Cell]*ssa.Global{}, constVals: map[*ssa.Global]*Term{}, tables: map[*Term][]*Term{}, constSt: map[*ssa.Global]int{},
		needs: map[string]bool{}, needLemmas: map[string]bool{}, usedAxioms: map[string]bool{}, initAssumes: map[string]bool{}, portSecs: 20 * time.Second, fnDeadline: 300 * time.Second, repo: repo}
	v.sizes = types.SizesFor("gc", "amd64")
	if len(ps) > 0 && ps[0].Module != nil {
		v.modPath = ps[0].Module.Path
	}
	if v.modPath == "" {
		b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
		if err != nil {
			fatal("%v", err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				v.modPath = strings.Trim(f[1], "\"`")
			}
		}
	}
	for _, p := range prog.AllPackages() {
		n := p.Pkg.Name()
		if _, ok := v.pkgs[n]; !ok || strings.HasPrefix(p.Pkg.Path(), v.modPath) || !strings.Contains(p.Pkg.Path(), "/") {
			if o := v.pkgs[n]; o != nil && strings.HasPrefix(o.Pkg.Path(), v.modPath) && !strings.HasPrefix(p.Pkg.Path(), v.modPath) {
				continue
			}
			if strings.HasSuffix(p.Pkg.Path(), "/pkg/example") {
				continue
			}
			v.pkgs[n] = p
		}
	}
	for _, p := range pkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), v.modPath) {
			continue
		}
		v.modPkgs = append(v.modPkgs, p)
	}
	sort.Slice(v.modPkgs, func(i, j int) bool { return v.modPkgs[i].Pkg.Path() < v.modPkgs[j].Pkg.Path() })
	for _, p := range v.modPkgs {
		if strings.HasSuffix(p.Pkg.Path(), "/pkg/example") {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.indexFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							v.indexFn(f)
						}
					}
				}
			}
		}
	}
	v.spec = LoadSpecs(contracts)
	return v
}

func (v *Verifier) indexFn(f *ssa.Function) {
	v.funcs[funcKey(f)] = f
	for _, a := range f.AnonFuncs {
		v.indexFn(a)
	}
}

func (v *Verifier) clock() time.Time { return time.Now() }

func (v *Verifier) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	return strings.HasPrefix(p, v.modPath)
}

func (v *Verifier) trustedAssert(x *Exec, st *State, in *ssa.TypeAssert) bool { return false }

func (v *Verifier) contractFor(key string) *Contract {
	for _, c := range v.spec.Contracts[key] {
		if c.Case == "" {
			return c
		}
	}
	return nil
}

func (v *Verifier) need(key string) { v.needs[key] = true }

func (v *Verifier) pkgOfKey(key string, fn *ssa.Function) *types.Package {
	if fn != nil {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil {
			return fn.Pkg.Pkg
		}
		if o := fn.Object(); o != nil {
			return o.Pkg()
		}
	}
	if i := strings.Index(key, "."); i > 0 {
		if p := v.pkgs[key[:i]]; p != nil {
			return p.Pkg
		}
	}
	return nil
}

func (v *Verifier) resolveType(n string, pkg *types.Package) types.Type {
	switch {
	case strings.HasPrefix(n, "[]"):
		if t := v.resolveType(n[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(n, "*"):
		if t := v.resolveType(n[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(n, "map["):
		i := strings.Index(n, "]")
		a, b := v.resolveType(n[4:i], pkg), v.resolveType(n[i+1:], pkg)
		if a != nil && b != nil {
			return types.NewMap(a, b)
		}
		return nil
	}
	if i := strings.Index(n, "."); i > 0 {
		p := v.pkgs[n[:i]]
		if p == nil {
			return nil
		}
		path := strings.Split(n[i+1:], ".")
		o, ok := p.Pkg.Scope().Lookup(path[0]).(*types.TypeName)
		if !ok {
			return nil
		}
		t := o.Type()
		// T.field is the type of a field, T.elem the type of the elements
		for _, f := range path[1:] {
			var nt types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == f {
						nt = u.Field(j).Type()
					}
				}
			case interface{ Elem() types.Type }:
				if f == "elem" {
					nt = u.Elem()
				}
			}
			if nt == nil {
				return nil
			}
			t = nt
		}
		return t
	}
	if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	if pkg != nil {
		if o, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

// ---- globals ----

func (v *Verifier) globalCell(g *ssa.Global) *Cell {
	if c, ok := v.cells[g]; ok {
		return c
	}
	c := &Cell{id: -1 - len(v.cells), name: g.Pkg.Pkg.Name() + "." + g.Name(), ty: g.Type().Underlying().(*types.Pointer).Elem(), glob: true}
	v.cells[g] = c
	v.globals[c] = g
	return c
}

// classify says whether g is only written by package initialisation.
func (v *Verifier) classify(g *ssa.Global) int {
	if s, ok := v.constSt[g]; ok {
		return s
	}
	v.constSt[g] = 2
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), v.modPath) {
		// variables of other packages such as io.EOF are assumed not to be reassigned
		v.constSt[g] = 1
		return 1
	}
	res := 1
	var addrUse func(val ssa.Value, in ssa.Instruction, inInit bool)
	addrUse = func(val ssa.Value, in ssa.Instruction, inInit bool) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				return
			}
		case *ssa.Store:
			if in.Addr == val && inInit {
				return
			}
		case *ssa.FieldAddr:
			for _, r := range *in.Referrers() {
				addrUse(in, r, inInit)
			}
			return
		case *ssa.IndexAddr:
			if in.X == val {
				for _, r := range *in.Referrers() {
					addrUse(in, r, inInit)
				}
				return
			}
		case *ssa.DebugRef:
			return
		case *ssa.Call:
			if f := in.Call.StaticCallee(); f != nil {
				k := funcKey(f)
				if strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "atomic.") {
					res = 2
					return
				}
			}
		}
		res = 2
	}
	for _, f := range v.funcs {
		v.scanGlobal(f, g, addrUse)
	}
	for _, p := range v.modPkgs {
		if f, ok := p.Members["init"].(*ssa.Function); ok {
			v.scanGlobal(f, g, addrUse)
		}
	}
	v.constSt[g] = res
	return res
}

func (v *Verifier) scanGlobal(f *ssa.Function, g *ssa.Global, use func(ssa.Value, ssa.Instruction, bool)) {
	inInit := f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					use(g, in, inInit)
				}
			}
		}
	}
}

// constGlobal is the value of a global that only package initialisation writes.
func (v *Verifier) constGlobal(c *Cell) *Term {
	g := v.globals[c]
	if g == nil || v.classify(g) != 1 {
		return nil
	}
	if t, ok := v.constVals[g]; ok {
		return t
	}
	t := v.initValue(g, c)
	if t == nil {
		t = typed(Const("GC_"+sanitize(c.name), sortOf(c.ty)), c.ty)
		if f := refsBelow(t, c.ty, epochAlloc["0"]); f != True {
			addTypeFact(t, f)
		}
		if kindOf(c.ty) == kIface && !strings.HasPrefix(g.Pkg.Pkg.Path(), v.modPath) {
			addTypeFact(t, Lt(Zero, t)) // sentinel errors
		}
		switch kindOf(c.ty) {
		case kIface:
			if v.constructed(g) {
				addTypeFact(t, Lt(Zero, t))
			}
		case kPtr:
			if v.constructed(g) {
				addTypeFact(t, Lt(Zero, PObj(t)))
			}
		}
	}
	v.constVals[g] = t
	return t
}

// constructed says whether g is only ever set to what functions of other packages return; these are
// assumed to return something.
func (v *Verifier) constructed(g *ssa.Global) bool {
	n, ok := 0, true
	for _, f := range v.funcs {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, isS := in.(*ssa.Store)
				if !isS || s.Addr != ssa.Value(g) {
					continue
				}
				n++
				val := s.Val
				if ci, is := val.(*ssa.ChangeInterface); is {
					val = ci.X
				}
				c, isC := val.(*ssa.Call)
				if !isC || c.Call.StaticCallee() == nil || strings.HasPrefix(c.Call.StaticCallee().String(), v.modPath) {
					ok = false
				} else {
					v.initAssumes[funcKey(c.Call.StaticCallee())+" (assumed not to return nil during initialisation)"] = true
				}
			}
		}
	}
	return ok && n > 0
}

// initValue evaluates the initialisation of simple globals.
func (v *Verifier) initValue(g *ssa.Global, c *Cell) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(VErr); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), v.modPath) {
		return nil
	}
	init := g.Pkg.Members["init"].(*ssa.Function)
	// only the synthesised init function may write it
	for _, f := range v.funcs {
		if strings.HasPrefix(f.Name(), "init#") && f.Pkg == g.Pkg {
			bad := false
			v.scanGlobal(f, g, func(ssa.Value, ssa.Instruction, bool) { bad = true })
			if bad {
				return nil
			}
		}
	}
	cur := zeroOf(c.ty)
	cells := map[*ssa.Alloc]*Term{}
	var eval func(val ssa.Value) *Term
	type loc struct {
		al   *ssa.Alloc
		isG  bool
		path []PathElem
	}
	var addr func(val ssa.Value) (loc, bool)
	addr = func(val ssa.Value) (loc, bool) {
		switch a := val.(type) {
		case *ssa.Global:
			return loc{isG: true}, a == g
		case *ssa.Alloc:
			return loc{al: a}, true
		case *ssa.FieldAddr:
			l, ok := addr(a.X)
			l.path = append(append([]PathElem(nil), l.path...), PathElem{field: a.Field})
			return l, ok
		case *ssa.IndexAddr:
			l, ok := addr(a.X)
			k, ok2 := a.Index.(*ssa.Const)
			if !ok || !ok2 {
				return l, false
			}
			l.path = append(append([]PathElem(nil), l.path...), PathElem{idx: IntT(k.Int64())})
			return l, true
		}
		return loc{}, false
	}
	x := &Exec{ver: v}
	eval = func(val ssa.Value) *Term {
		switch a := val.(type) {
		case *ssa.Const:
			if a.Value != nil && a.Value.Kind() == constant.Float {
				panic(VErr("float"))
			}
			t, ok := x.constVal(a).(*Term)
			if !ok {
				return nilPtr
			}
			return t
		case *ssa.UnOp:
			if a.Op == token.MUL {
				if l, ok := addr(a.X); ok && l.al != nil {
					base, ok := cells[l.al]
					et := l.al.Type().Underlying().(*types.Pointer).Elem()
					if !ok {
						base = zeroOf(et)
					}
					return navGet(base, et, l.path)
				}
				if g2, ok := a.X.(*ssa.Global); ok {
					if t := v.constGlobal(v.globalCell(g2)); t != nil {
						return t
					}
				}
			}
		case *ssa.Function:
			return newFuncV(a, nil)
		case *ssa.MakeClosure:
			if len(a.Bindings) == 0 {
				return newFuncV(a.Fn.(*ssa.Function), nil)
			}
		case *ssa.BinOp:
			panic(VErr("expression"))
		case *ssa.ChangeType:
			return eval(a.X)
		}
		panic(VErr("initial value too complex"))
	}
	wrote := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == ssa.Value(g) && kindOf(c.ty) == kSlice {
				return v.tableOf(g, c, s.Val, func(al *ssa.Alloc) *Term { return cells[al] })
			}
			l, ok := addr(s.Addr)
			if !ok {
				continue
			}
			if l.isG {
				cur = navSet(cur, c.ty, l.path, eval(s.Val))
				wrote = true
			} else {
				et := l.al.Type().Underlying().(*types.Pointer).Elem()
				base, ok := cells[l.al]
				if !ok {
					base = zeroOf(et)
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(VErr); !ok {
								panic(r)
							}
							base = typed(Fresh("initv", sortOf(et)), et)
						}
					}()
					base = navSet(base, et, l.path, eval(s.Val))
				}()
				cells[l.al] = base
			}
		}
	}
	_ = wrote
	return cur
}

// tableOf is the value of a global slice of scalars or structures whose elements are never written after
// package initialisation.
func (v *Verifier) tableOf(g *ssa.Global, c *Cell, val ssa.Value, content func(*ssa.Alloc) *Term) *Term {
	sl, ok := val.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || !v.onlyRead(g) {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() == 0 || at.Len() > 64 {
		return nil
	}
	arr := content(al)
	if arr == nil {
		return nil
	}
	o := Const("GCO_"+sanitize(c.name), SInt)
	addTypeFact(o, Lt(Zero, o))
	addTypeFact(o, Lt(o, epochAlloc["0"]))
	var el []*Term
	for i := int64(0); i < at.Len(); i++ {
		el = append(el, navGet(arr, al.Type().Underlying().(*types.Pointer).Elem(), []PathElem{{idx: IntT(i)}}))
	}
	v.tables[o] = el
	return MkSlice(o, Zero, IntT(at.Len()), IntT(at.Len()))
}

// onlyRead says whether the elements of the slice in g are only loaded.
func (v *Verifier) onlyRead(g *ssa.Global) bool {
	ok := true
	var elem func(val ssa.Value)
	elem = func(val ssa.Value) {
		for _, r := range *val.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				elem(r)
			default:
				ok = false
			}
		}
	}
	for _, f := range v.funcs {
		v.scanGlobal(f, g, func(_ ssa.Value, in ssa.Instruction, inInit bool) {
			if s, is := in.(*ssa.Store); is && inInit && s.Addr == ssa.Value(g) {
				return
			}
			u, is := in.(*ssa.UnOp)
			if !is {
				ok = false
				return
			}
			for _, r := range *u.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.IndexAddr:
					elem(r)
				case *ssa.Call:
					if b, is := r.Call.Value.(*ssa.Builtin); !is || b.Name() != "len" && b.Name() != "cap" {
						ok = false
					}
				default:
					ok = false
				}
			}
		})
	}
	return ok
}

// poolType is the type of the values a sync.Pool variable holds.
func (v *Verifier) poolType(p *PtrV) types.Type {
	if p.cell == nil {
		return nil
	}
	g := v.globals[p.cell]
	if g == nil {
		return nil
	}
	var out types.Type
	init, ok := g.Pkg.Members["init"].(*ssa.Function)
	if !ok {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != g {
				continue
			}
			val := s.Val
			if ct, ok := val.(*ssa.ChangeType); ok {
				val = ct.X
			}
			var f *ssa.Function
			switch a := val.(type) {
			case *ssa.Function:
				f = a
			case *ssa.MakeClosure:
				f = a.Fn.(*ssa.Function)
			}
			if f == nil {
				continue
			}
			for _, fb := range f.Blocks {
				if r, ok := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
						out = mi.X.Type()
					}
				}
			}
		}
	}
	return out
}

// ---- obligations ----

func (v *Verifier) submit(x *Exec, o *Obl) {
	body := standalone(o.facts.list(), o.goal, o.vals)
	name := fmt.Sprintf("%s_%s_%s_%d", o.Func, o.Kind, o.Label, len(x.obls))
	v.wg.Add(1)
	go func() {
		defer v.wg.Done()
		r := Portfolio(body, o.vals, v.portSecs, v.outDir, name)
		o.Secs += r.Secs
		if r.Res == "unsat" {
			o.Status, o.By = "proved", r.By
			os.Remove(r.File)
			os.Remove(strings.TrimSuffix(r.File, ".smt2") + ".model.smt2")
			return
		}
		o.Status = "failed"
		o.By = r.By
		o.Detail = r.Outputs
		o.File = r.File
		o.Model = r.Model
		v.failCount.Add(1)
	}()
}

// FnResult is what verifying one function (or lemma) gave.
type FnResult struct {
	Key     string
	Case    string
	Lemma   bool
	Obls    []*Obl
	Trivial int
	Err     string
	Needs   []string
	Lemmas  []string
	Axioms  []string
	Inlined []string
	Externs []string
	Used    []string
	Loops   []*loopStats
	Queries int
	SolverS float64
	Secs    float64
	Vacuous string
	Paths   int
	File    string
	Lines   int
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (v *Verifier) newExec(name string, con *Contract) *Exec {
	return &Exec{ver: v, s: NewSolver(), con: con, name: name, sp: map[string]SpecVal{}, dedup: map[string]bool{},
		unfolded: map[*Term]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, externs: map[string]bool{},
		loopInfo: map[string]*loopStats{}, ghostDecl: map[string]Sort{}, deadline: time.Now().Add(v.fnDeadline)}
}

func (v *Verifier) entryState() *State {
	a := Const("alloc0", SInt)
	setRange(a, pow2(0), pow2(60))
	epochAlloc["0"] = a
	return &State{cells: map[*Cell]*Term{}, fwd: map[*Cell]*PtrV{}, mem: map[string]*Term{}, epoch: "0", alloc: a, ghost: map[string]*Term{}}
}

// forProp says whether a clause belongs to the property that is checked.
func (v *Verifier) forProp(props []string) bool {
	if len(props) == 0 || v.prop == "" {
		return true
	}
	for _, p := range props {
		if p == v.prop {
			return true
		}
	}
	return false
}

// VerifyFn checks one function against its contract. A loop that is reached several times first
// skips the invariants it lost before; if that does not suffice the function is done once more without.
func (v *Verifier) VerifyFn(key string, con *Contract) *FnResult {
	v.loopDead, v.skipped = map[string]bool{}, 0
	res := v.verifyFn(key, con)
	failed := res.Err != "" || res.Vacuous != ""
	for _, o := range res.Obls {
		failed = failed || o.Status != "proved"
	}
	if failed && v.skipped > 0 {
		for _, o := range res.Obls {
			if o.Status != "proved" {
				dbg("FAILED first %s %s %s %s", o.Kind, o.Label, o.Pos, o.Text)
			}
		}
		dbg("once more, %s %s %d loop invariants were skipped", res.Err, res.Vacuous, v.skipped)
		v.loopDead = nil
		v.trivial = 0
		v.failCount.Store(0)
		secs, q := res.Secs, res.Queries
		res = v.verifyFn(key, con)
		res.Secs += secs
		res.Queries += q
	}
	v.loopDead = nil
	return res
}

func (v *Verifier) verifyFn(key string, con *Contract) (res *FnResult) {
	res = &FnResult{Key: key, Case: con.Case}
	t0 := time.Now()
	fn := v.funcs[key]
	if fn == nil || fn.Blocks == nil {
		res.Err = "function " + key + " not found in the program"
		return
	}
	ps := v.prog.Fset.Position(fn.Pos())
	res.File = strings.TrimPrefix(ps.Filename, v.repo+"/")
	if fn.Syntax() != nil {
		res.Lines = v.prog.Fset.Position(fn.Syntax().End()).Line - ps.Line + 1
	}
	x := v.newExec(key, con)
	x.fn = fn
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case VErr:
				res.Err = string(r)
				if p := x.pos(); p != "" {
					res.Err += " at " + p
				}
				if os.Getenv("GOCV_STACK") != "" {
					os.Stderr.Write(debug_stack())
				}
			case abortFn:
				res.Err = r.why
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug_stack())
			}
		}
		v.wg.Wait()
		x.s.Close()
		res.Obls = x.obls
		res.Trivial = v.trivial
		res.Needs = keysOf(v.needs)
		res.Lemmas = keysOf(v.needLemmas)
		res.Axioms = keysOf(v.usedAxioms)
		res.Inlined = keysOf(x.inlined)
		res.Externs = append(keysOf(x.externs), keysOf(v.initAssumes)...)
		res.Used = keysOf(x.usedCon)
		for _, l := range x.loopInfo {
			res.Loops = append(res.Loops, l)
		}
		sort.Slice(res.Loops, func(i, j int) bool { return res.Loops[i].Pos < res.Loops[j].Pos })
		res.Queries = x.s.Q
		res.SolverS = x.s.T.Seconds() + float64(solverSecs.Load())/1e6
		res.Paths = x.paths
		res.Secs = time.Since(t0).Seconds()
		if res.Err == "" && res.Vacuous == "" && !x.reachRet && con.Options["noreturn"] == "" {
			res.Vacuous = "no path reaches a return"
		}
	}()
	if con.Options["merge"] != "" {
		x.mergeOn = true
	}
	if ms := con.Options["paths"]; ms != "" {
		fmt.Sscan(ms, &v.maxPaths)
	}
	st := v.entryState()
	fr := x.newFrame(fn, 0)
	st.frame = fr
	if len(con.Params) > len(fn.Params) {
		res.Err = fmt.Sprintf("contract of %s names %d parameters, the function has %d", key, len(con.Params), len(fn.Params))
		return
	}
	for i, p := range fn.Params {
		t := typed(Const("p_"+sanitize(p.Name())+fmt.Sprint(i), sortOf(p.Type())), p.Type())
		x.assume(st, refsBelow(t, p.Type(), st.alloc))
		val := x.fromTerm(t, p.Type())
		fr.regs[p] = val
		if i < len(con.Params) {
			x.sp[con.Params[i]] = SpecVal{val, p.Type()}
		}
		x.inputs = append(x.inputs, namedTerm{p.Name(), t})
	}
	for i, fv := range fn.FreeVars {
		t := fv.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			c := &Cell{id: 1000 + i, name: fv.Name(), ty: pt.Elem()}
			val := typed(Const("fv_"+sanitize(fv.Name()), sortOf(c.ty)), c.ty)
			x.assume(st, refsBelow(val, c.ty, st.alloc))
			st.cells[c] = val
			p := &PtrV{cell: c}
			fr.bind = append(fr.bind, p)
			x.sp[fv.Name()] = SpecVal{p, t}
			x.inputs = append(x.inputs, namedTerm{fv.Name(), val})
		} else {
			val := typed(Const("fv_"+sanitize(fv.Name()), sortOf(t)), t)
			x.assume(st, refsBelow(val, t, st.alloc))
			vv := x.fromTerm(val, t)
			fr.bind = append(fr.bind, vv)
			x.sp[fv.Name()] = SpecVal{vv, t}
		}
	}
	for _, g := range con.Ghosts {
		env := &Env{x: x, st: st, old: st, vars: x.sp, pkg: x.pkg(), con: con}
		s, gt := env.sort(g.Type)
		t := Const("gp_"+g.Name, s)
		if gt != nil {
			x.sp[g.Name] = env.mk(t, gt)
			x.assume(st, refsBelow(t, gt, st.alloc))
		} else {
			x.sp[g.Name] = SpecVal{t, nil}
		}
		x.inputs = append(x.inputs, namedTerm{g.Name, t})
	}
	x.entry = st.clone()
	env := &Env{x: x, st: st, old: st, vars: x.sp, pkg: x.pkg(), con: con}
	x.axioms(st)
	for _, r := range con.Requires {
		if v.forProp(r.Props) {
			x.assume(st, env.B(r.E))
		}
	}
	for _, u := range con.Uses {
		if u.op == "call" && v.spec.Lemmas[u.s] != nil && x.usesResults(con, u) {
			continue
		}
		x.assume(st, env.B(u))
	}
	x.entry = st.clone()
	fs := &frameSpec{all: con.ModAll || con.Options["noframe"] != ""}
	eenv := &Env{x: x, st: x.entry, old: x.entry, vars: x.sp, pkg: x.pkg(), con: con}
	for _, m := range con.Modifies {
		fs.ts = append(fs.ts, x.targets(eenv, m)...)
	}
	x.frame = fs
	if x.s.Valid(st.fact, False, 3000) == "unsat" {
		res.Vacuous = "the precondition is contradictory"
		return
	}
	fr.ret = func(s *State, vs []Value) { x.atReturn(s, vs, fn, con) }
	x.goTo(st, fn.Blocks[0], nil)
	return
}

func debug_stack() []byte { return rdebug.Stack() }

// usesResults: the lemma instance talks about results and is assumed at the return.
func (x *Exec) usesResults(con *Contract, e *Expr) bool {
	rs := map[string]bool{"result": true}
	for _, r := range con.Results {
		rs[r] = true
	}
	var rec func(e *Expr) bool
	rec = func(e *Expr) bool {
		if e == nil {
			return false
		}
		if e.op == "id" && rs[e.s] || e.op == "call" && (e.s == "old" || e.s == "now") {
			return true
		}
		for _, a := range e.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

func (x *Exec) atReturn(s *State, vs []Value, fn *ssa.Function, con *Contract) {
	if s.dead {
		return
	}
	if !x.reachRet {
		if x.s.Valid(s.fact, False, 2000) != "unsat" {
			x.reachRet = true
		} else {
			return
		}
	}
	vars := map[string]SpecVal{}
	for k, v := range x.sp {
		vars[k] = v
	}
	res := fn.Signature.Results()
	if res.Len() > 0 {
		var r Value
		if res.Len() == 1 {
			r = vs[0]
		} else {
			r = &TupleV{vs}
		}
		x.bindResults(con, vars, r, res)
	}
	env := &Env{x: x, st: s, old: x.entry, vars: vars, pkg: x.pkg(), con: con}
	for _, u := range con.Uses {
		if u.op == "call" && x.ver.spec.Lemmas[u.s] != nil && x.usesResults(con, u) {
			x.assume(s, env.B(u))
		}
	}
	for _, gs := range con.Sets {
		x.setGhost(s, env, gs)
	}
	for _, c := range con.Ensures {
		if !x.ver.forProp(c.Props) {
			continue
		}
		x.check(s, env.B(c.E), "post", c.Label, c.Text, c.Props)
	}
	if con.Options["locks"] != "" {
		var ks []string
		for k := range s.ghost {
			if strings.HasPrefix(k, "held") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			t := s.ghost[k]
			e0 := Const(sanitize("held_"+k), t.sort)
			x.check(s, Eq(t, e0), "lock", "balance", "every mutex taken is released ("+k+")", nil)
		}
	}
}

// axioms assumes the axioms and automatic lemmas.
func (x *Exec) axioms(st *State) {
	env := &Env{x: x, st: st, old: st, vars: map[string]SpecVal{}, pkg: x.pkg(), con: &Contract{File: "axioms"}}
	want := x.con.Options["axioms"]
	for _, a := range x.ver.spec.Axioms {
		if want == "" || !strings.Contains(","+want+",", ","+a.Name+",") {
			continue
		}
		x.ver.usedAxioms[a.Name] = true
		x.assume(st, env.B(a.Ensures[0]))
	}
	auto := x.con.Options["lemmas"]
	for _, n := range strings.Split(auto, ",") {
		if n == "" {
			continue
		}
		l := x.ver.spec.Lemmas[n]
		if l == nil {
			panic(VErr("unknown lemma " + n))
		}
		x.ver.needLemmas[n] = true
		x.assume(st, x.lemmaForall(env, l))
	}
}

func (x *Exec) lemmaForall(env *Env, l *Lemma) *Term {
	var vs []*Term
	vars := map[string]SpecVal{}
	for _, p := range l.Params {
		s, gt := env.sort(p.Type)
		b := BVar("l_"+l.Name+"_"+p.Name, s)
		vs = append(vs, b)
		if gt != nil {
			vars[p.Name] = SpecVal{x.fromTerm(b, gt), gt}
		} else {
			vars[p.Name] = SpecVal{b, nil}
		}
	}
	c := *env
	c.vars = vars
	body := c.lemmaBody(l)
	var pats [][]*Term
	for _, ps := range l.Pats {
		var p []*Term
		for _, e := range ps {
			p = append(p, c.T(e))
		}
		pats = append(pats, p)
	}
	if pats == nil {
		pats = autoPats(vs, body)
	}
	return Forall(vs, body, pats...)
}

func (e *Env) lemmaBody(l *Lemma) *Term {
	var req, ens []*Term
	for _, r := range l.Requires {
		req = append(req, e.B(r))
	}
	for _, r := range l.Ensures {
		ens = append(ens, e.B(r))
	}
	return Implies(And(req...), And(ens...))
}

// VerifyLemma proves a lemma from the definitions and the lemmas it uses.
func (v *Verifier) VerifyLemma(name string) (res *FnResult) {
	res = &FnResult{Key: name, Lemma: true}
	t0 := time.Now()
	l := v.spec.Lemmas[name]
	x := v.newExec("lemma "+name, &Contract{Key: name, Options: map[string]string{}, File: l.File})
	x.isLemma = true
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case VErr:
				res.Err = string(r)
			case abortFn:
				res.Err = r.why
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug_stack())
			}
		}
		v.wg.Wait()
		x.s.Close()
		res.Obls = x.obls
		res.Lemmas = keysOf(v.needLemmas)
		res.Axioms = keysOf(v.usedAxioms)
		res.Queries = x.s.Q
		res.SolverS = x.s.T.Seconds() + float64(solverSecs.Load())/1e6
		res.Secs = time.Since(t0).Seconds()
	}()
	st := v.entryState()
	x.entry = st
	vars := map[string]SpecVal{}
	env := &Env{x: x, st: st, old: st, vars: vars, con: x.con}
	for _, p := range l.Params {
		s, gt := env.sort(p.Type)
		t := Const("l_"+p.Name, s)
		if gt != nil {
			vars[p.Name] = env.mk(t, gt)
		} else {
			vars[p.Name] = SpecVal{t, nil}
		}
		x.inputs = append(x.inputs, namedTerm{p.Name, t})
	}
	for _, r := range l.Requires {
		x.assume(st, env.B(r))
	}
	if l.Induct != "" {
		n := env.term(vars[l.Induct])
		hyp := *env
		hyp.vars = map[string]SpecVal{}
		var vs []*Term
		for _, p := range l.Params {
			if p.Name == l.Induct {
				hyp.vars[p.Name] = SpecVal{Sub(n, One), nil}
				continue
			}
			s, gt := env.sort(p.Type)
			b := BVar("ih_"+p.Name, s)
			vs = append(vs, b)
			if gt != nil {
				hyp.vars[p.Name] = SpecVal{x.fromTerm(b, gt), gt}
			} else {
				hyp.vars[p.Name] = SpecVal{b, nil}
			}
		}
		body := hyp.lemmaBody(l)
		// the same other parameters
		m := map[*Term]*Term{}
		i := 0
		for _, p := range l.Params {
			if p.Name != l.Induct {
				m[vs[i]] = env.term(vars[p.Name])
				i++
			}
		}
		x.assume(st, Implies(Lt(Zero, n), Subst(body, m)))
		if len(vs) > 0 {
			if ps := autoPats(vs, body); len(ps) > 0 {
				x.assume(st, Implies(Lt(Zero, n), Forall(vs, body, ps...)))
			}
		}
	}
	for _, u := range l.Uses {
		x.assume(st, env.B(u))
	}
	if x.s.Valid(st.fact, False, 2000) == "unsat" {
		res.Vacuous = "the premises of lemma " + name + " are contradictory"
		return
	}
	for _, e := range l.Ensures {
		x.check(st, env.B(e), "lemma", name, e.String(), nil)
	}
	return
}

func writeJSON(path string, v any) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
