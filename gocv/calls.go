package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contFn func(*State, Value)

var unit = &TupleV{}

// funcKey names a function the way contracts do: pkg.Func, pkg.Type.Method, pkg.Func$1.
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		return funcKey(top) + strings.TrimPrefix(n, top.Name())
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			p := pkg
			if nt.Obj().Pkg() != nil {
				p = nt.Obj().Pkg().Name()
			}
			return p + "." + nt.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

func ifaceKey(c *ssa.CallCommon) string {
	return typeName(c.Value.Type()) + "." + c.Method.Name()
}

// calleeVal evaluates the function (or receiver) value of a call.
func (x *Exec) calleeVal(st *State, c *ssa.CallCommon) Value {
	if c.IsInvoke() {
		return x.t(st, c.Value)
	}
	return x.val(st, c.Value)
}

func (x *Exec) call(st *State, in ssa.Instruction, c *ssa.CallCommon, k contFn) Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return x.callWith(st, in, c, x.calleeVal(st, c), args, k)
}

func (x *Exec) callWith(st *State, in ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value, k contFn) Value {
	x.curInstr = in
	if b, ok := fv.(*ssa.Builtin); ok {
		return x.builtin(st, in, c, b, args, k)
	}
	if c.IsInvoke() {
		recv := fv.(*Term)
		key := ifaceKey(c)
		// a known dynamic type
		if ty := x.dynType(st, recv); ty != nil {
			if m := x.ver.prog.LookupMethod(ty, c.Method.Pkg(), c.Method.Name()); m != nil {
				_, u, _ := boxNames(ty)
				var rv *Term
				if recv.op == 'a' && strings.HasPrefix(recv.name, "box_") {
					rv = recv.args[1]
				} else {
					rv = typed(UF(u, recv), ty)
				}
				return x.callFunc(st, in, m, nil, append([]Value{x.fromTerm(rv, ty)}, args...), k)
			}
		}
		x.check(st, Ne(recv, Zero), "nil", "nil", "interface is not nil", nil)
		sig := c.Signature()
		full := append([]Value{recv}, args...)
		tys := []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			tys = append(tys, sig.Params().At(i).Type())
		}
		if r, ok := x.onCall(st, key, full, tys, sig.Results()); ok {
			return r
		}
		if con := x.ver.contractFor(key); con != nil {
			return x.applyContract(st, con, key, full, tys, sig.Results(), nil)
		}
		if f, ok := intrinsics[key]; ok {
			return f(x, st, in, full, sig.Results(), k)
		}
		return x.unknownCall(st, key, full, tys, sig.Results())
	}
	t, ok := fv.(*Term)
	if !ok {
		panic(VErr(fmt.Sprintf("call of %T", fv)))
	}
	if f := funcOf(t); f != nil {
		return x.callFunc(st, in, f.fn, f.bind, args, k)
	}
	// an unknown function value
	sig := c.Signature()
	var tys []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	x.check(st, Ne(t, Zero), "nil", "nilfunc", "function value is not nil", nil)
	// alternatives of a merged value
	if t.isApp("ite") {
		s2 := st.clone()
		x.assume(st, t.args[0])
		x.assume(s2, Not(t.args[0]))
		for i, s := range []*State{st, s2} {
			if s.dead {
				continue
			}
			if r := x.callWith(s, in, c, t.args[1+i], args, k); r != nil {
				k(s, r)
			}
		}
		return nil
	}
	if r, ok := x.onCallDyn(st, t, args, tys, sig.Results()); ok {
		return r
	}
	key := typeName(c.Value.Type())
	if key == "" {
		key = typeKey(c.Value.Type())
	}
	if con := x.ver.contractFor(key); con != nil {
		full := append([]Value{t}, args...)
		return x.applyContract(st, con, key, full, append([]types.Type{c.Value.Type()}, tys...), sig.Results(), nil)
	}
	return x.unknownCall(st, "value of type "+key, args, tys, sig.Results())
}

// dynType is the dynamic type of an interface value when the facts determine it.
func (x *Exec) dynType(st *State, t *Term) types.Type {
	if t.op == 'a' && strings.HasPrefix(t.name, "box_") {
		if id, ok := t.args[0].i64(); ok {
			return ifaceTypes[id]
		}
	}
	for f := st.fact; f != nil; f = f.parent {
		if f.t.isApp("=") {
			for i := 0; i < 2; i++ {
				a, b := f.t.args[i], f.t.args[1-i]
				if a.isApp("ityp") && a.args[0] == t {
					if id, ok := b.i64(); ok {
						return ifaceTypes[id]
					}
				}
			}
		}
	}
	return nil
}

func sigTypes(fn *ssa.Function) []types.Type {
	var tys []types.Type
	for _, p := range fn.Params {
		tys = append(tys, p.Type())
	}
	return tys
}

func (x *Exec) callFunc(st *State, in ssa.Instruction, fn *ssa.Function, bind []Value, args []Value, k contFn) Value {
	key := funcKey(fn)
	if intrinsics[key] == nil {
		x.ver.ensureBuilt(fn)
	}
	tys := sigTypes(fn)
	if len(tys) == 0 && len(args) > 0 { // external functions have no parameters in SSA form
		if r := fn.Signature.Recv(); r != nil {
			tys = append(tys, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			tys = append(tys, fn.Signature.Params().At(i).Type())
		}
	}
	if r, ok := x.onCall(st, key, args, tys, fn.Signature.Results()); ok {
		return r
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method") {
		m := fn.Object().(*types.Func)
		target := x.ver.prog.FuncValue(m)
		if target != nil && target.Blocks != nil {
			return x.callFunc(st, in, target, nil, append(append([]Value{}, bind...), args...), k)
		}
	}
	if con := x.ver.contractFor(key); con != nil && !x.noContract(key) {
		x.callBind = bind
		return x.applyContract(st, con, key, args, tys, fn.Signature.Results(), fn)
	}
	if f, ok := intrinsics[key]; ok {
		return f(x, st, in, args, fn.Signature.Results(), k)
	}
	if isNoop(key) {
		return x.noopResult(st, key, fn.Signature.Results())
	}
	if fn.Blocks != nil && (x.ver.inModule(fn) || inlineStd[key] || fn.Synthetic != "" || inlinePkg[pkgPath(fn)]) {
		x.inline(st, in, fn, bind, args, k)
		return nil
	}
	return x.unknownCall(st, key, args, tys, fn.Signature.Results())
}

var inlinePkg = map[string]bool{"strings": true, "bytes": true, "strconv": true, "math": true, "math/bits": true, "unicode/utf8": true, "unicode/utf16": true, "slices": true, "maps": true, "cmp": true, "encoding/hex": true, "encoding/binary": true, "sort": true, "unicode": true}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// ensureBuilt makes the bodies of library functions available when they are needed.
func (v *Verifier) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks == nil && inlinePkg[pkgPath(fn)] {
		o := fn
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Origin() != nil {
			o = o.Origin()
		}
		if o.Pkg != nil {
			o.Pkg.Build()
		}
	}
}

func (x *Exec) noContract(key string) bool {
	if x.con.Options["inline_all"] != "" {
		return true
	}
	return x.con.Options["inline"] == key || x.ver.demoted[key]
}

var inlineStd = map[string]bool{"encoding/hex.Encode": true, "hex.Encode": true, "utf8.EncodeRune": true, "bytes.NewReader": true, "bytes.Reader.ReadByte": true, "bytes.Reader.Len": true, "binary.littleEndian.PutUint64": true, "hex.EncodedLen": true, "bytes.NewBuffer": true, "utf8.appendRuneNonASCII": true, "utf8.AppendRune": true, "utf8.appendRuneNonASCIIx": true}

func (x *Exec) inline(st *State, in ssa.Instruction, fn *ssa.Function, bind, args []Value, k contFn) {
	depth := 0
	if st.frame != nil {
		depth = st.frame.depth + 1
	}
	if depth > 24 {
		panic(VErr("inlining too deep (recursion without a contract?) at " + fn.Name()))
	}
	x.inlined[funcKey(fn)] = true
	saved := st.frame
	f := x.newFrame(fn, depth)
	f.bind = bind
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	f.ret = func(s *State, vs []Value) {
		s.frame = saved.clone()
		x.curInstr = in
		switch len(vs) {
		case 0:
			k(s, unit)
		case 1:
			k(s, vs[0])
		default:
			k(s, &TupleV{vs})
		}
	}
	st.frame = f
	x.goTo(st, fn.Blocks[0], nil)
}

func (x *Exec) newFrame(fn *ssa.Function, depth int) *Frame {
	x.instNo++
	return &Frame{fn: fn, regs: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopRun{}, unroll: map[*ssa.BasicBlock]int{}, depth: depth, inst: x.instNo}
}

// ---- contracts at call sites ----

func (x *Exec) results(st *State, key string, res *types.Tuple) Value {
	switch res.Len() {
	case 0:
		return unit
	case 1:
		return x.freshVal(st, "r_"+key, res.At(0).Type())
	}
	var vs []Value
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, x.freshVal(st, "r_"+key, res.At(i).Type()))
	}
	return &TupleV{vs}
}

func (x *Exec) bindArgs(con *Contract, args []Value, tys []types.Type) map[string]SpecVal {
	m := map[string]SpecVal{}
	for i, n := range con.Params {
		if i < len(args) {
			m[n] = SpecVal{args[i], tys[i]}
		}
	}
	return m
}

func (x *Exec) bindResults(con *Contract, m map[string]SpecVal, r Value, res *types.Tuple) {
	get := func(i int) Value {
		if res.Len() == 1 {
			return r
		}
		return r.(*TupleV).v[i]
	}
	for i := 0; i < res.Len(); i++ {
		v := SpecVal{get(i), res.At(i).Type()}
		if i < len(con.Results) {
			m[con.Results[i]] = v
		}
		if res.Len() == 1 {
			m["result"] = v
		}
		m[fmt.Sprintf("result%d", i)] = v
	}
}

func (x *Exec) applyContract(st *State, con *Contract, key string, args []Value, tys []types.Type, res *types.Tuple, fn *ssa.Function) Value {
	x.usedCon[key] = true
	if con.Extern {
		x.externs[key] = true
	} else {
		x.ver.need(key)
	}
	vars := x.bindArgs(con, args, tys)
	if bind := x.callBind; fn != nil && len(bind) == len(fn.FreeVars) {
		for i, fv := range fn.FreeVars {
			vars[fv.Name()] = SpecVal{bind[i], fv.Type()}
		}
	}
	x.callBind = nil
	pkg := x.ver.pkgOfKey(key, fn)
	env := &Env{x: x, st: st, old: st, vars: vars, pkg: pkg, con: con}
	x.ghostArgs(env, con)
	for _, r := range con.Requires {
		if x.ver.forProp(r.Props) {
			x.check(st, env.B(r.E), "pre", key+"."+r.Label, "precondition of "+key+": "+r.Text, r.Props)
		}
	}
	if con.Decr != nil && x.con.Decr != nil && x.entry != nil {
		cur := env.T(con.Decr)
		mine := (&Env{x: x, st: x.entry, old: x.entry, vars: x.sp, pkg: x.pkg(), con: x.con}).T(x.con.Decr)
		x.check(st, And(Le(Zero, mine), Lt(cur, mine)), "variant", "decreases", "the recursion measure decreases at the call of "+key, nil)
	}
	old := st.clone()
	env.old = old
	x.havocMods(st, con, env, old)
	if con.Options["noalloc"] == "" {
		a := Fresh("alloc", SInt)
		x.addFact(st, Le(st.alloc, a))
		setRange(a, bigZero, pow2(61))
		st.alloc = a
	}
	r := x.results(st, key, res)
	x.bindResults(con, vars, r, res)
	env.st = st
	// ghost assignments at the callee's exit come before its postconditions; a ghost that is also in its
	// frame is only known through the postconditions
	for _, gs := range con.Sets {
		inFrame := con.ModAll
		for _, m := range con.Modifies {
			inFrame = inFrame || m.String() == gs.Target.String()
		}
		if !inFrame {
			x.setGhost(st, env, gs)
		}
	}
	for _, c := range con.Ensures {
		if con.Extern || x.ver.forProp(c.Props) {
			x.assume(st, env.B(c.E))
		}
	}
	return r
}

// ghostArgs: ghost parameters of a callee are existentially chosen by the caller; they are only
// supported as fresh values constrained by "requires" being proved for a syntactic choice.
func (x *Exec) ghostArgs(env *Env, con *Contract) {
	for _, g := range con.Ghosts {
		panic(VErr("call of a contract with ghost parameters: " + con.Key + "." + g.Name))
	}
}

func (x *Exec) setGhost(st *State, env *Env, gs GhostSet) {
	v := env.T(gs.Val)
	x.assignGhost(st, env, gs.Target, v)
}

func (x *Exec) assignGhost(st *State, env *Env, target *Expr, v *Term) {
	switch target.op {
	case "id":
		env.ident(target)
		st.ghost["g:"+target.s] = v
		x.noteGhost("g:" + target.s)
	case "idx":
		cur := env.T(target.args[0])
		k := env.T(target.args[1])
		x.assignGhost(st, env, target.args[0], Store(cur, k, v))
	case "sel":
		if g, ok := x.ver.spec.GhostF[target.s]; ok {
			b := env.eval(target.args[0])
			env.ghostField(g, b, target)
			st.ghost["gf:"+g.Name] = Store(st.ghost["gf:"+g.Name], env.objOf(b), v)
			x.noteGhost("gf:" + g.Name)
			return
		}
		panic(VErr("ghost assignment to " + target.String()))
	default:
		panic(VErr("ghost assignment to " + target.String()))
	}
}

// wtarget is one location set of a modifies clause.
type wtarget struct {
	cell   *Cell
	path   []PathElem
	r      *regionInfo
	obj    *Term
	idx    *Term // nil: whole object
	hi     *Term // idx..hi range when not nil
	ghost  string
	gobj   *Term
	all    bool
	region bool // every object of the region
	ty     types.Type
}

// targets evaluates a modifies expression in env.
func (x *Exec) targets(env *Env, ex *Expr) []wtarget {
	st := env.st
	if ex.op == "call" {
		switch ex.s {
		case "elems": // all elements of the object behind a slice
			v := env.eval(ex.args[0])
			et := v.ty.Underlying().(*types.Slice).Elem()
			return []wtarget{{r: memRegion(et), obj: SlObj(env.term(v)), ty: et}}
		case "spare": // elements between len and cap
			v := env.eval(ex.args[0])
			s := env.term(v)
			et := v.ty.Underlying().(*types.Slice).Elem()
			return []wtarget{{r: memRegion(et), obj: SlObj(s), idx: Add(SlOff(s), SlLen(s)), hi: Add(SlOff(s), SlCap(s)), ty: et}}
		case "map":
			v := env.eval(ex.args[0])
			mt := v.ty.Underlying().(*types.Map)
			o := env.term(v)
			return []wtarget{{r: mapRegion(mt, "dom"), obj: o}, {r: mapRegion(mt, "val"), obj: o}, {r: mapRegion(mt, "card"), obj: o}}
		case "region": // region("T"): every object holding values of type T
			_, ty := env.sort(ex.args[0].s)
			if mt, ok := ty.Underlying().(*types.Map); ok {
				return []wtarget{{r: mapRegion(mt, "dom"), region: true}, {r: mapRegion(mt, "val"), region: true}, {r: mapRegion(mt, "card"), region: true}}
			}
			return []wtarget{{r: memRegion(ty), region: true, ty: ty}}
		case "ghost":
			return []wtarget{{ghost: "g:" + ex.args[0].s}}
		}
	}
	if ex.op == "slice" {
		v := env.eval(ex)
		if kindOf(v.ty) == kSlice {
			s := env.term(v)
			et := v.ty.Underlying().(*types.Slice).Elem()
			return []wtarget{{r: memRegion(et), obj: SlObj(s), idx: SlOff(s), hi: Add(SlOff(s), SlLen(s)), ty: et}}
		}
	}
	if ex.op == "sel" {
		if g, ok := x.ver.spec.GhostF[ex.s]; ok {
			b := env.eval(ex.args[0])
			env.ghostField(g, b, ex)
			return []wtarget{{ghost: "gf:" + g.Name, gobj: env.objOf(b)}}
		}
	}
	if ex.op == "id" {
		if _, ok := x.ver.spec.GhostV[ex.s]; ok {
			if _, shadow := env.vars[ex.s]; !shadow {
				env.ident(ex)
				return []wtarget{{ghost: "g:" + ex.s}}
			}
		}
	}
	a := env.addr(ex)
	pv := x.resolve(st, env.ptrv(a))
	et := a.ty.Underlying().(*types.Pointer).Elem()
	if pv.cell != nil {
		return []wtarget{{cell: pv.cell, path: pv.path, ty: et}}
	}
	if pv.arr && len(pv.path) == 0 {
		n := et.Underlying().(*types.Array).Len()
		return []wtarget{{r: memRegion(pv.root), obj: pv.obj, idx: pv.idx, hi: Add(pv.idx, IntT(n)), ty: pv.root}}
	}
	return []wtarget{{r: memRegion(pv.root), obj: pv.obj, idx: pv.idx, path: pv.path, ty: pv.root}}
}

func (x *Exec) havocMods(st *State, con *Contract, env *Env, old *State) {
	if con.ModAll {
		x.havocAll(st)
		return
	}
	oenv := *env
	oenv.st = old
	for _, m := range con.Modifies {
		for _, w := range x.targets(&oenv, m) {
			x.havocTarget(st, w)
		}
	}
}

func (x *Exec) havocTarget(st *State, w wtarget) {
	switch {
	case w.ghost != "":
		cur, ok := st.ghost[w.ghost]
		if !ok {
			panic(VErr("ghost " + w.ghost + " unknown"))
		}
		if w.gobj != nil {
			_, es := cur.sort.arrParts()
			st.ghost[w.ghost] = Store(cur, w.gobj, Fresh("gh", es))
		} else {
			st.ghost[w.ghost] = Fresh("gh", cur.sort)
		}
		x.noteGhost(w.ghost)
	case w.cell != nil:
		t := navType(w.cell.ty, w.path)
		v := x.fresh("hv_"+w.cell.name, t)
		x.addFact(st, refsBelow(v, t, IntB(pow2(61))))
		c, ok := st.cells[w.cell]
		if !ok {
			c = x.globalInit(st, w.cell)
		}
		st.cells[w.cell] = navSet(c, w.cell.ty, w.path, v)
		x.noteCellWrite(st, w.cell, w.path)
	case w.region:
		x.noteWrite(st, w.r, nil, nil, nil)
		x.freshRegion(st, w.r)
	case w.idx == nil:
		x.noteWrite(st, w.r, w.obj, nil, nil)
		m := st.region(w.r)
		_, es := m.sort.arrParts()
		na := x.freshArr(st, w.r, es)
		if w.r.kind != "mem" {
			// a nil map stays empty
			na = mergeIte(Eq(w.obj, Zero), Select(m, w.obj), na)
		} else if !w.obj.isInt() {
			// a nil slice has no elements
			x.addFact(st, Implies(Eq(w.obj, Zero), Eq(na, Select(m, w.obj))))
		}
		st.mem[w.r.key] = Store(m, w.obj, na)
	case w.hi != nil:
		// a range of elements
		x.noteRange(st, w.r, w.obj, w.idx, w.hi)
		m := st.region(w.r)
		oa := Select(m, w.obj)
		na := x.freshArr(st, w.r, oa.sort)
		i := BVar("i_rng", SInt)
		f := Forall([]*Term{i}, Implies(Or(Lt(i, w.idx), Le(w.hi, i)), Eq(App("select", mustElem(oa.sort), na, i), Select(oa, i))), []*Term{App("select", mustElem(oa.sort), na, i)})
		x.addFact(st, f)
		if !w.obj.isInt() {
			x.addFact(st, Implies(Eq(w.obj, Zero), Eq(na, oa)))
		}
		st.mem[w.r.key] = Store(m, w.obj, na)
	default:
		x.noteWrite(st, w.r, w.obj, w.idx, w.path)
		m := st.region(w.r)
		a := Select(m, w.obj)
		t := navType(w.r.elem, w.path)
		v := x.fresh("hv", t)
		st.mem[w.r.key] = Store(m, w.obj, Store(a, w.idx, navSet(Select(a, w.idx), w.r.elem, w.path, v)))
	}
}

func mustElem(s Sort) Sort { _, e := s.arrParts(); return e }

// freshArr is an unknown content for one object of region r.
func (x *Exec) freshArr(st *State, r *regionInfo, s Sort) *Term {
	a := Fresh("arr", s)
	if r.kind == "mem" {
		i := BVar("i", SInt)
		e := App("select", mustElem(s), a, i)
		f := And(refsBelow(e, r.elem, IntB(pow2(61))), wellTypedRefs(e, r.elem))
		if f != True {
			addTypeFact(a, Forall([]*Term{i}, f, []*Term{e}))
		}
	}
	if r.kind == "card" {
		setRange(a, bigZero, bigMaxLen)
	}
	return a
}

func (x *Exec) freshRegion(st *State, r *regionInfo) {
	n := Fresh("M_"+r.key, r.sort)
	// content of objects that do not exist yet is unconstrained, the rest is well formed
	a := st.alloc
	c := newRegionConst(r, n.name, a)
	st.mem[r.key] = c
}

var epochSeq int

// havocAll forgets everything that is reachable from outside.
func (x *Exec) havocAll(st *State) {
	epochSeq++
	x.noteAll(st)
	a := Fresh("alloc", SInt)
	setRange(a, bigZero, pow2(61))
	x.addFact(st, Le(st.alloc, a))
	st.alloc = a
	st.epoch = fmt.Sprintf("%d", epochSeq)
	epochAlloc[st.epoch] = a
	st.mem = map[string]*Term{}
	for c := range st.cells {
		if c.glob && x.ver.constGlobal(c) == nil {
			delete(st.cells, c)
		}
	}
}

// unknownCall is a call of a function without contract.
func (x *Exec) unknownCall(st *State, key string, args []Value, tys []types.Type, res *types.Tuple) Value {
	for i, a := range args {
		switch kindOf(tys[i]) {
		case kInt, kBool, kString, kFloat, kOpaque:
			_ = a
		default:
			panic(VErr("call of " + key + " (no contract)"))
		}
	}
	x.externs[key+" (arbitrary result)"] = true
	return x.results(st, key, res)
}

// ---- oncall clauses ----

func (x *Exec) onCall(st *State, key string, args []Value, tys []types.Type, res *types.Tuple) (Value, bool) {
	if x.con == nil || len(x.con.OnCall) == 0 {
		return nil, false
	}
	var apply func() Value
	if con := x.ver.contractFor(key); con != nil {
		apply = func() Value {
			fn := x.ver.funcs[key]
			if x.noContract(key) {
				panic(VErr("the contract of " + key + " is needed at its calls, but does not hold"))
			}
			return x.applyContract(st, con, key, args, tys, res, fn)
		}
	}
	return x.runOn(st, x.con.OnCall, func(s *SendSpec) bool { return s.Chan == key }, args, tys, res, key, apply)
}

func (x *Exec) onCallDyn(st *State, f *Term, args []Value, tys []types.Type, res *types.Tuple) (Value, bool) {
	if x.con == nil || len(x.con.OnCall) == 0 {
		return nil, false
	}
	return x.runOn(st, x.con.OnCall, func(s *SendSpec) bool {
		if v := x.namedTerm(st, s.Chan); v != nil {
			return v == f || x.proves(st, Eq(v, f), 200)
		}
		return false
	}, args, tys, res, "callback", nil)
}

// runOn processes clauses of the kind "requires", "assume", "set" for a call, send or receive.
func (x *Exec) runOn(st *State, specs []SendSpec, match func(*SendSpec) bool, args []Value, tys []types.Type, res *types.Tuple, key string, apply func() Value) (Value, bool) {
	var ms []*SendSpec
	for i := range specs {
		if match(&specs[i]) {
			ms = append(ms, &specs[i])
		}
	}
	if len(ms) == 0 {
		return nil, false
	}
	base := map[string]SpecVal{}
	for k, v := range x.sp {
		base[k] = v
	}
	mkEnv := func(s *SendSpec, r Value, cur, old *State) *Env {
		vars := map[string]SpecVal{}
		for k, v := range base {
			vars[k] = v
		}
		for i, n := range s.Vars {
			if i < len(args) {
				vars[n] = SpecVal{args[i], tys[i]}
			} else if res != nil && r != nil {
				j := i - len(args)
				if j < res.Len() {
					v := r
					if res.Len() > 1 {
						v = r.(*TupleV).v[j]
					}
					vars[n] = SpecVal{v, res.At(j).Type()}
				}
			}
		}
		return &Env{x: x, st: cur, old: old, vars: vars, pkg: x.pkg(), con: x.con}
	}
	for _, s := range ms {
		if s.Kind == "requires" {
			x.check(st, mkEnv(s, nil, st, x.entry).B(s.E), "pre", s.Label, "at "+key+": "+s.Text, s.Props)
		}
	}
	old := st.clone()
	skip := false
	for _, s := range ms {
		if s.Kind == "modifies" {
			for _, w := range x.targets(mkEnv(s, nil, old, x.entry), s.E) {
				x.havocTarget(st, w)
			}
		}
		if s.Kind == "havoc" {
			x.havocAll(st)
		}
	}
	_ = skip
	a := Fresh("alloc", SInt)
	x.addFact(st, Le(st.alloc, a))
	setRange(a, bigZero, pow2(61))
	st.alloc = a
	var r Value = unit
	if apply != nil {
		r = apply()
	} else if res != nil {
		r = x.results(st, key, res)
	}
	for _, s := range ms {
		switch s.Kind {
		case "assume":
			x.assume(st, mkEnv(s, r, st, old).B(s.E))
		}
	}
	// ghost updates see the values before the updates
	var ts []*Term
	for _, s := range ms {
		if s.Kind == "set" {
			ts = append(ts, mkEnv(s, r, st, old).T(s.E))
		}
	}
	i := 0
	for _, s := range ms {
		if s.Kind == "set" {
			x.assignGhost(st, mkEnv(s, r, st, old), s.Target, ts[i])
			i++
		}
	}
	return r, true
}

func (x *Exec) pkg() *types.Package {
	f := x.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

// ---- channels ----

func (x *Exec) makeChan(st *State, in *ssa.MakeChan) Value {
	n := x.t(st, in.Size)
	x.check(st, Le(Zero, n), "slice", "makechan", "channel size is not negative", nil)
	return x.newObj(st)
}

// namedTerm is the value of a parameter, or of a field path from a parameter (as in "c.callback").
func (x *Exec) namedTerm(st *State, name string) *Term {
	parts := strings.Split(name, ".")
	v, ok := x.sp[parts[0]]
	if !ok {
		return nil
	}
	if len(parts) == 1 {
		if p, ok := v.v.(*PtrV); ok && p.cell != nil && len(p.path) == 0 { // a captured variable
			t := st.cells[p.cell]
			return t
		}
		t, _ := v.v.(*Term)
		return t
	}
	e := &Expr{op: "id", s: parts[0]}
	for _, f := range parts[1:] {
		e = &Expr{op: "sel", s: f, args: []*Expr{e}}
	}
	t, _ := (&Env{x: x, st: x.entry, old: x.entry, vars: x.sp, pkg: x.pkg(), con: x.con}).eval(e).v.(*Term)
	return t
}

func (x *Exec) chanMatch(st *State, s *SendSpec, ch *Term, elem types.Type) bool {
	if s.Chan == "any" {
		return true
	}
	if t := x.namedTerm(st, s.Chan); t != nil {
		return t == ch || x.proves(st, Eq(t, ch), 200)
	}
	if strings.HasPrefix(s.Chan, "chan_") { // by element type
		return sanitize(typeKey(elem)) == s.Chan[5:]
	}
	return false
}

func (x *Exec) send(st *State, ch *Term, v Value, ty types.Type, chv ssa.Value, drop bool) {
	tys := []types.Type{ty}
	args := []Value{v}
	any := false
	var vars []SendSpec
	specs := x.con.OnSend
	if drop {
		specs = x.con.OnDrop
	}
	for _, s := range specs {
		if x.chanMatch(st, &s, ch, ty) {
			if s.Chan == "any" || strings.HasPrefix(s.Chan, "chan_") {
				any = true
			}
			vars = append(vars, s)
		}
	}
	if any {
		args = []Value{ch, v}
		tys = []types.Type{chv.Type(), ty}
	}
	x.runOn(st, vars, func(*SendSpec) bool { return true }, args, tys, nil, "send", nil)
	if len(vars) == 0 && !drop {
		x.externs["channel send (unspecified channel)"] = true
	}
}

func (x *Exec) recvFrom(st *State, ch *Term, elem types.Type, chv ssa.Value) (Value, *Term) {
	v := x.freshVal(st, "recv", elem)
	ok := Fresh("recvok", SBool)
	// a closed channel delivers the zero value
	x.addFact(st, Or(ok, Eq(x.term(st, v, elem), zeroOf(elem))))
	var vars []SendSpec
	for _, s := range x.con.OnRecv {
		if x.chanMatch(st, &s, ch, elem) {
			vars = append(vars, s)
		}
	}
	if len(vars) > 0 {
		for _, s := range vars {
			args := []Value{v, ok}
			tys := []types.Type{elem, tBool}
			if s.Chan == "any" || strings.HasPrefix(s.Chan, "chan_") {
				args = append([]Value{ch}, args...)
				tys = append([]types.Type{chv.Type()}, tys...)
			}
			x.runOn(st, []SendSpec{s}, func(*SendSpec) bool { return true }, args, tys, nil, "receive", nil)
		}
	}
	return v, ok
}

func (x *Exec) recvInstr(st *State, in *ssa.UnOp, k contFn) {
	ct := in.X.Type().Underlying().(*types.Chan)
	v, ok := x.recvFrom(st, x.t(st, in.X), ct.Elem(), in.X)
	if in.CommaOk {
		k(st, &TupleV{[]Value{v, ok}})
		return
	}
	k(st, v)
}

func (x *Exec) selectInstr(st *State, in *ssa.Select, k contFn) {
	tup := in.Type().(*types.Tuple)
	n := len(in.States)
	total := n
	if !in.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s := st
		if i < total-1 {
			s = st.clone()
		}
		x.curInstr = in
		idx := i
		if i == n {
			idx = -1
		}
		vs := []Value{IntT(int64(idx)), False}
		recvI := 0
		for j, sc := range in.States {
			if sc.Dir == types.RecvOnly {
				et := tup.At(2 + recvI).Type()
				recvI++
				if j == i {
					v, ok := x.recvFrom(s, x.t(s, sc.Chan), et, sc.Chan)
					vs[1] = ok
					vs = append(vs, v)
				} else {
					vs = append(vs, x.fromTerm(zeroOf(et), et))
				}
			} else if j == i {
				x.send(s, x.t(s, sc.Chan), x.val(s, sc.Send), sc.Send.Type(), sc.Chan, false)
			} else if idx < 0 {
				x.send(s, x.t(s, sc.Chan), x.val(s, sc.Send), sc.Send.Type(), sc.Chan, true)
			}
		}
		k(s, &TupleV{vs})
	}
}

func (x *Exec) goInstr(st *State, in *ssa.Go) {
	fv := x.calleeVal(st, &in.Call)
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, x.val(st, a))
	}
	if t, ok := fv.(*Term); ok {
		if f := funcOf(t); f != nil {
			key := "go." + funcKey(f.fn)
			if _, ok := x.onCall(st, key, args, sigTypes(f.fn), types.NewTuple()); ok {
				return
			}
			key = funcKey(f.fn)
			if con := x.ver.contractFor(key); con != nil && len(con.Requires) > 0 {
				env := &Env{x: x, st: st, old: st, vars: x.bindArgs(con, args, sigTypes(f.fn)), pkg: x.ver.pkgOfKey(key, f.fn), con: con}
				for _, r := range con.Requires {
					x.check(st, env.B(r.E), "pre", key+"."+r.Label, "precondition of "+key+": "+r.Text, r.Props)
				}
			}
			// variables shared with the goroutine may change at any time
			for _, b := range f.bind {
				if p, ok := b.(*PtrV); ok && p.cell != nil {
					x.shared = append(x.shared, p.cell)
				}
			}
		}
	}
	x.externs["go statement (interleaving not modelled)"] = true
}

// ---- builtins ----

func (x *Exec) builtin(st *State, in ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []Value, k contFn) Value {
	switch b.Name() {
	case "len", "cap":
		ty := c.Args[0].Type()
		switch kindOf(ty) {
		case kString:
			return SLen(x.term(st, args[0], ty))
		case kSlice:
			if b.Name() == "len" {
				return SlLen(x.term(st, args[0], ty))
			}
			return SlCap(x.term(st, args[0], ty))
		case kMap:
			return x.mapCard(st, ty.Underlying().(*types.Map), x.term(st, args[0], ty))
		case kArray:
			return IntT(ty.Underlying().(*types.Array).Len())
		case kPtr:
			return IntT(ty.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case kChan:
			return x.fresh("chanlen", types.Typ[types.Int])
		}
	case "append":
		return x.appendB(st, in, c, args, k)
	case "copy":
		return x.copyB(st, c, args)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, mt, x.term(st, args[0], c.Args[0].Type()), x.term(st, args[1], mt.Key()))
		return unit
	case "close":
		if r, ok := x.onCall(st, "close", args, []types.Type{c.Args[0].Type()}, types.NewTuple()); ok {
			return r
		}
		return unit
	case "min", "max":
		a := x.term(st, args[0], c.Args[0].Type())
		for i := 1; i < len(args); i++ {
			o := x.term(st, args[i], c.Args[i].Type())
			if b.Name() == "min" {
				a = Ite(Le(a, o), a, o)
			} else {
				a = Ite(Le(a, o), o, a)
			}
		}
		return a
	case "print", "println":
		return unit
	case "clear":
		ty := c.Args[0].Type()
		if kindOf(ty) == kMap {
			mt := ty.Underlying().(*types.Map)
			m := x.term(st, args[0], ty)
			d, cr := mapRegion(mt, "dom"), mapRegion(mt, "card")
			x.noteWrite(st, d, m, nil, nil)
			x.noteWrite(st, cr, m, nil, nil)
			st.mem[d.key] = Store(st.region(d), m, ConstArr(ArrS(sortOf(mt.Key()), SBool), False))
			st.mem[cr.key] = Store(st.region(cr), m, Zero)
			return unit
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok {
			x.nilCheck(st, p)
		}
		return args[0]
	case "String": // unsafe.String
	}
	panic(VErr("builtin " + b.Name()))
}

// appendB: append(s, t...) either in place or into a new object.
func (x *Exec) appendB(st *State, in ssa.Instruction, c *ssa.CallCommon, args []Value, k contFn) Value {
	ty := c.Args[0].Type()
	et := ty.Underlying().(*types.Slice).Elem()
	s := x.term(st, args[0], ty)
	r := memRegion(et)
	var tl *Term
	var get func(i *Term) *Term // element i of the appended part
	var src *Term
	var srcOff *Term
	if kindOf(c.Args[1].Type()) == kString {
		tv := x.term(st, args[1], c.Args[1].Type())
		tl = SLen(tv)
		get = func(i *Term) *Term { return SAt(tv, i) }
		src, srcOff = x.arrOfStr(tv), Zero
	} else {
		tv := x.term(st, args[1], c.Args[1].Type())
		tl = SlLen(tv)
		m0 := st.region(r)
		src, srcOff = Select(m0, SlObj(tv)), SlOff(tv)
		get = func(i *Term) *Term { return Select(src, Add(srcOff, i)) }
	}
	if tl == Zero {
		return s
	}
	nl := Add(SlLen(s), tl)
	fits := Le(nl, SlCap(s))
	f1 := x.feasible(st, fits)
	f2 := true
	if f1 {
		f2 = x.feasible(st, Not(fits))
	}
	n, conc := tl.i64()
	conc = conc && n <= 16
	inPlace := func(st *State) Value {
		m := st.region(r)
		base := Add(SlOff(s), SlLen(s))
		x.noteRange(st, r, SlObj(s), base, Add(base, tl))
		arr := Select(m, SlObj(s))
		if conc {
			for i := int64(0); i < n; i++ {
				arr = Store(arr, Add(base, IntT(i)), get(IntT(i)))
			}
		} else {
			arr = x.blit(st, arr, base, src, srcOff, tl)
		}
		st.mem[r.key] = Store(m, SlObj(s), arr)
		return MkSlice(SlObj(s), SlOff(s), nl, SlCap(s))
	}
	fresh := func(st *State) Value {
		x.check(st, Le(nl, IntT(maxLen)), "slice", "append", "append: length in range", nil)
		o := x.newObj(st)
		m := st.region(r)
		old := Select(m, SlObj(s))
		ncap := Fresh("cap", SInt)
		setRange(ncap, bigZero, bigMaxLen)
		x.addFact(st, Le(nl, ncap))
		x.allocHook(st, ncap, et)
		var arr *Term
		if SlOff(s) == Zero && conc {
			arr = old
		} else if l, ok := SlLen(s).i64(); ok && l <= 16 {
			arr = ConstArr(ArrS(SInt, sortOf(et)), zeroOf(et))
			for i := int64(0); i < l; i++ {
				arr = Store(arr, IntT(i), Select(old, Add(SlOff(s), IntT(i))))
			}
		} else {
			arr = x.blit(st, ConstArr(ArrS(SInt, sortOf(et)), zeroOf(et)), Zero, old, SlOff(s), SlLen(s))
		}
		if conc {
			for i := int64(0); i < n; i++ {
				arr = Store(arr, Add(SlLen(s), IntT(i)), get(IntT(i)))
			}
		} else {
			arr = x.blit(st, arr, SlLen(s), src, srcOff, tl)
		}
		st.mem[r.key] = Store(m, o, arr)
		return MkSlice(o, Zero, nl, ncap)
	}
	if f1 && f2 {
		s2 := st.clone()
		x.assume(st, fits)
		v1 := inPlace(st)
		k(st, v1)
		x.curInstr = in
		x.assume(s2, Not(fits))
		k(s2, fresh(s2))
		return nil
	}
	if f1 {
		x.assume(st, fits)
		return inPlace(st)
	}
	x.assume(st, Not(fits))
	return fresh(st)
}

// blit is arr with arr[at..at+n) replaced by src[off..off+n).
func (x *Exec) blit(st *State, arr, at, src, off, n *Term) *Term {
	es := mustElem(arr.sort)
	if src.sort != arr.sort {
		panic(VErr("copy between different element types"))
	}
	out := Fresh("blit", arr.sort)
	i := BVar("i_b", SInt)
	sel := func(a *Term) *Term { return App("select", es, a, i) }
	in := And(Le(at, i), Lt(i, Add(at, n)))
	d := Sub(off, at)
	body := Eq(sel(out), Ite(in, Select(src, Add(i, d)), Select(arr, i)))
	pats := [][]*Term{{sel(out)}}
	x.addFact(st, Forall([]*Term{i}, body, pats...))
	// the same in terms of the source, so that facts about the source carry over
	if d == Zero {
		if s := Select(src, i); s.isApp("select") && cleanPat(s) {
			x.addFact(st, Forall([]*Term{i}, Implies(in, Eq(sel(out), s)), []*Term{s}))
		}
	} else {
		j := BVar("j_b", SInt)
		sj := Select(src, j)
		if sj.isApp("select") && cleanPat(sj) {
			x.addFact(st, Forall([]*Term{j}, Implies(And(Le(off, j), Lt(j, Add(off, n))), Eq(App("select", es, out, Sub(j, d)), sj)), []*Term{sj}))
		}
	}
	if s := Select(arr, i); s.isApp("select") && s.bound && cleanPat(s) {
		x.addFact(st, Forall([]*Term{i}, Implies(Not(in), Eq(sel(out), s)), []*Term{s}))
	}
	return out
}

func (x *Exec) copyB(st *State, c *ssa.CallCommon, args []Value) Value {
	ty := c.Args[0].Type()
	et := ty.Underlying().(*types.Slice).Elem()
	d := x.term(st, args[0], ty)
	r := memRegion(et)
	var sl, src, off *Term
	if kindOf(c.Args[1].Type()) == kString {
		s := x.term(st, args[1], c.Args[1].Type())
		sl, src, off = SLen(s), x.arrOfStr(s), Zero
	} else {
		s := x.term(st, args[1], c.Args[1].Type())
		sl, src, off = SlLen(s), Select(st.region(r), SlObj(s)), SlOff(s)
	}
	n := Ite(Le(SlLen(d), sl), SlLen(d), sl)
	if n.isApp("ite") {
		if x.proves(st, Le(SlLen(d), sl), 300) {
			n = SlLen(d)
		} else if x.proves(st, Le(sl, SlLen(d)), 300) {
			n = sl
		}
	}
	if n == Zero {
		return n
	}
	m := st.region(r)
	x.noteRange(st, r, SlObj(d), SlOff(d), Add(SlOff(d), n))
	arr := Select(m, SlObj(d))
	if v, ok := n.i64(); ok && v <= 16 {
		for i := int64(0); i < v; i++ {
			arr = Store(arr, Add(SlOff(d), IntT(i)), Select(src, Add(off, IntT(i))))
		}
	} else {
		arr = x.blit(st, arr, SlOff(d), src, off, n)
	}
	st.mem[r.key] = Store(m, SlObj(d), arr)
	return n
}

// ---- frame conditions ----

type frameSpec struct {
	ts  []wtarget
	all bool
}

func (x *Exec) noteCellWrite(st *State, c *Cell, path []PathElem) {
	x.guardCell(st, c, path, "written")
	if x.disc != nil {
		x.disc.cell(c)
	}
	if !c.glob || x.noFrame || x.frame == nil || x.frame.all {
		return
	}
	for _, w := range x.frame.ts {
		if w.cell == c && pathCovers(w.path, path) {
			return
		}
	}
	x.check(st, False, "frame", "frame", "global "+c.name+" is not modified", nil)
}

func pathCovers(w, p []PathElem) bool {
	if len(w) > len(p) {
		return false
	}
	for i := range w {
		if w[i].idx != nil || p[i].idx != nil || w[i].field != p[i].field {
			return false
		}
	}
	return true
}

func (x *Exec) noteWrite(st *State, r *regionInfo, obj, idx *Term, path []PathElem) {
	x.noteRangeP(st, r, obj, idx, nil, path)
}
func (x *Exec) noteRange(st *State, r *regionInfo, obj, lo, hi *Term) {
	x.noteRangeP(st, r, obj, lo, hi, nil)
}

func (x *Exec) noteRangeP(st *State, r *regionInfo, obj, lo, hi *Term, path []PathElem) {
	if x.disc != nil {
		if hi != nil {
			x.disc.writeAt(st, r, obj, nil, nil)
		} else {
			x.disc.writeAt(st, r, obj, lo, path)
		}
	}
	if x.con != nil && r.kind == "mem" && obj != nil {
		x.frozenCheck(st, r, obj, lo, hi)
	}
	if x.noFrame || x.frame == nil || x.frame.all {
		return
	}
	if obj != nil && x.entry != nil {
		if d, ok := diffConst(obj, x.entry.alloc); ok && d.Sign() >= 0 {
			return
		}
	}
	var alts []*Term
	if obj != nil {
		alts = append(alts, Le(x.entry.alloc, obj))
		if r.kind != "mem" {
			alts = append(alts, Eq(obj, Zero)) // nothing is ever written to a nil map
		}
	}
	if hi != nil {
		alts = append(alts, Le(hi, lo))
	}
	for _, w := range x.frame.ts {
		if w.r != r {
			continue
		}
		if w.region {
			return
		}
		if obj == nil {
			continue
		}
		c := Eq(w.obj, obj)
		switch {
		case w.idx == nil:
		case lo == nil:
			continue
		case w.hi != nil:
			if hi == nil {
				c = And(c, Le(w.idx, lo), Lt(lo, w.hi))
			} else {
				c = And(c, Le(w.idx, lo), Le(hi, w.hi))
			}
		default:
			if hi != nil {
				c = And(c, Eq(w.idx, lo), Le(hi, Add(lo, One)))
			} else {
				c = And(c, Eq(w.idx, lo))
			}
			if !pathCovers(w.path, path) {
				continue
			}
		}
		alts = append(alts, c)
	}
	x.check(st, Or(alts...), "frame", "frame", "the write stays inside the modifies clause ("+r.key+")", nil)
}

func (x *Exec) noteGhost(k string) {
	if x.disc != nil {
		x.disc.ghost(k)
	}
}

func (x *Exec) noteAll(st *State) {
	if x.disc != nil {
		for e := x.disc; e != nil; e = e.outer {
			if !e.all {
				e.all, e.grew = true, true
			}
		}
	}
	if x.noFrame || x.frame == nil || x.frame.all {
		return
	}
	x.check(st, False, "frame", "frame", "nothing outside the modifies clause changes", nil)
}

// allocHook checks allocation bounds when the contract asks for it.
func (x *Exec) allocHook(st *State, n *Term, et types.Type) {
	if x.con == nil {
		return
	}
	for _, s := range x.con.OnCall {
		if s.Chan != "alloc" || s.Kind != "requires" {
			continue
		}
		vars := map[string]SpecVal{}
		for k, v := range x.sp {
			vars[k] = v
		}
		size := x.ver.sizes.Sizeof(et)
		vars[s.Var] = mathInt(Mul(n, IntT(size)))
		env := &Env{x: x, st: st, old: x.entry, vars: vars, pkg: x.pkg(), con: x.con}
		x.check(st, env.B(s.E), "assert", s.Label, "allocation: "+s.Text, s.Props)
	}
}

// ---- locks ----

func lockName(x *Exec, st *State, p *PtrV) (string, *Term) {
	p = x.resolve(st, p)
	if p.cell != nil {
		n := "cell:" + p.cell.name
		if !p.cell.glob {
			n += fmt.Sprint(p.cell.id)
		}
		for _, e := range p.path {
			n += fmt.Sprintf(".%d", e.field)
		}
		return "held:" + n, nil
	}
	n := "heldf:" + regionKey(p.root)
	for _, e := range p.path {
		n += fmt.Sprintf(".%d", e.field)
	}
	return n, p.obj
}

func (x *Exec) heldTerm(st *State, p *PtrV) *Term {
	n, o := lockName(x, st, p)
	t, ok := st.ghost[n]
	if o == nil {
		if !ok {
			t = Const(sanitize("held_"+n), SBool)
			st.ghost[n] = t
		}
		return t
	}
	if !ok {
		t = Const(sanitize("held_"+n), ArrS(SInt, SBool))
		st.ghost[n] = t
	}
	return Select(t, o)
}

func (x *Exec) setHeld(st *State, p *PtrV, v *Term) {
	x.heldTerm(st, p)
	n, o := lockName(x, st, p)
	if o == nil {
		st.ghost[n] = v
	} else {
		st.ghost[n] = Store(st.ghost[n], o, v)
	}
	x.noteGhost(n)
}

// guardCell checks that the lock protecting a global is held.
func (x *Exec) guardCell(st *State, c *Cell, path []PathElem, how string) {
	if !c.glob || x.con == nil || x.con.Options["locks"] == "" {
		return
	}
	for _, m := range x.ver.spec.Monitors {
		for _, e := range m.Mods {
			env := &Env{x: x, st: st, old: st, vars: x.sp, pkg: x.pkg(), con: x.con}
			g := env.globalOf(e)
			if g == nil || x.ver.globalCell(g) != c {
				continue
			}
			x.check(st, x.heldTerm(st, env.addrOf(m.LockE)), "lock", "locked", c.name+" is only "+how+" while "+m.Lock+" is held", nil)
		}
	}
}

// guardAccess checks that guarded memory is only accessed while its lock is held.
func (x *Exec) guardAccess(st *State, p *PtrV, how string) {
	if x.con == nil || x.entry == nil || len(x.con.Guards) == 0 {
		return
	}
	p = x.resolve(st, p)
	for _, g := range x.con.Guards {
		env := &Env{x: x, st: x.entry, old: x.entry, vars: x.sp, pkg: x.pkg(), con: x.con}
		held := func() *Term {
			now := &Env{x: x, st: st, old: x.entry, vars: x.sp, pkg: x.pkg(), con: x.con}
			return x.heldTerm(st, now.addrOf(g.Lock))
		}
		for _, m := range g.Mods {
			if gl := env.globalOf(m); gl != nil {
				if p.cell == x.ver.globalCell(gl) {
					x.check(st, held(), "lock", "guarded", m.String()+" is only "+how+" while "+g.Lock.String()+" is held", nil)
				}
				continue
			}
			for _, w := range x.targets(env, m) {
				if w.r == nil || w.cell != nil || p.cell != nil || p.root == nil || memRegion(p.root).key != w.r.key {
					continue
				}
				if n := len(w.path); n > 0 && len(p.path) > 0 && p.path[0].field != w.path[0].field {
					continue
				}
				c := True
				if w.obj != nil {
					c = Eq(p.obj, w.obj)
				}
				x.check(st, Implies(c, held()), "lock", "guarded", m.String()+" is only "+how+" while "+g.Lock.String()+" is held", nil)
			}
		}
	}
}

func (e *Env) globalOf(ex *Expr) *ssa.Global {
	switch ex.op {
	case "id":
		return e.globalID(ex.s)
	case "sel":
		return e.globalSel(ex)
	}
	return nil
}

func (x *Exec) frozenCheck(st *State, r *regionInfo, obj, lo, hi *Term) {
	fz, ok := st.ghost["gf:frozen"]
	if !ok || x.con.Options["frozen"] == "" {
		return
	}
	x.check(st, Not(Select(fz, obj)), "frame", "frozen", "bytes of a delivered string or message are not written again", nil)
}

var _ = token.ADD
