package main

import (
	"sync"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

// Value is a *Term, *PtrV, *TupleV, *IterV or *StrV.
type Value interface{}

type Cell struct {
	id   int
	name string
	ty   types.Type
	glob bool
	site ssa.Value
}

type PathElem struct {
	field int
	idx   *Term // array index when not nil
}

// PtrV is a pointer: into a local or global cell, or into the heap region of its root type.
type PtrV struct {
	cell     *Cell
	root     types.Type
	obj, idx *Term
	path     []PathElem
	arr      bool // points to an array whose elements are the region cells starting at idx
}

type TupleV struct{ v []Value }

// IterV is a map or string iterator.
type IterV struct {
	id   int
	m    *Term
	mt   *types.Map
	dom0 *Term
	card0 *Term
	order *Term // the number of keys visited before a key
	key  string // ghost key of the visited set
	str  *Term
	instr *ssa.Range
}

// StrV is a string whose bytes live in (mutable) object obj of the byte region.
type StrV struct {
	t   *Term
	obj *Term
}

type FuncV struct {
	id   int
	fn   *ssa.Function
	bind []Value
}

var funcVals []*FuncV

func newFuncV(fn *ssa.Function, bind []Value) *Term {
	if len(bind) == 0 {
		for _, f := range funcVals {
			if f.fn == fn && len(f.bind) == 0 {
				return IntT(int64(f.id))
			}
		}
	}
	f := &FuncV{1_000_000 + len(funcVals), fn, bind}
	funcVals = append(funcVals, f)
	return IntT(int64(f.id))
}

func funcOf(t *Term) *FuncV {
	if v, ok := t.i64(); ok {
		k := int(v) - 1_000_000
		if k >= 0 && k < len(funcVals) {
			return funcVals[k]
		}
	}
	return nil
}

// ---- state ----

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
	pos  ssa.Instruction
}

type stopPoint struct {
	block   *ssa.BasicBlock
	collect func(st *State, prev *ssa.BasicBlock)
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	defers []deferred
	bind   []Value
	ret    func(st *State, res []Value)
	stops  []stopPoint
	loops  map[*ssa.BasicBlock]*loopRun // loops currently being executed by invariant
	unroll map[*ssa.BasicBlock]int
	depth  int
	inst   int // frame instance number
	contract *Contract
	sp     map[string]SpecVal
	entry  *State
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]Value, len(f.regs)+8)
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		g.unroll[k] = v
	}
	g.loops = map[*ssa.BasicBlock]*loopRun{}
	for k, v := range f.loops {
		g.loops[k] = v
	}
	return &g
}

type State struct {
	cells map[*Cell]*Term
	fwd   map[*Cell]*PtrV
	mem   map[string]*Term
	epoch string
	alloc *Term
	ghost map[string]*Term
	fact  *Fact
	frame *Frame
	dead  bool
}

func (s *State) clone() *State {
	n := &State{epoch: s.epoch, alloc: s.alloc, fact: s.fact, dead: s.dead}
	n.cells = make(map[*Cell]*Term, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.fwd = make(map[*Cell]*PtrV, len(s.fwd))
	for k, v := range s.fwd {
		n.fwd[k] = v
	}
	n.mem = make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	if s.frame != nil {
		n.frame = s.frame.clone()
	}
	return n
}

// ---- regions ----

func regionKey(t types.Type) string {
	if kindOf(t) == kStruct || kindOf(t) == kOpaque {
		return typeKey(t)
	}
	u := types.Unalias(t).Underlying()
	if p, ok := u.(*types.Pointer); ok {
		return "*" + regionKey(p.Elem())
	}
	return typeKey(u)
}

type regionInfo struct {
	key  string
	sort Sort
	elem types.Type // nil for map regions
	mk, mv types.Type
	kind string // mem dom val card
}

var regions = map[string]*regionInfo{}

func memRegion(t types.Type) *regionInfo {
	k := regionKey(t)
	if r, ok := regions[k]; ok {
		return r
	}
	r := &regionInfo{key: k, sort: ArrS(SInt, ArrS(SInt, sortOf(t))), elem: t, kind: "mem"}
	regions[k] = r
	return r
}

func mapRegion(m *types.Map, kind string) *regionInfo {
	k := kind + ":" + regionKey(m.Key()) + ":" + regionKey(m.Elem())
	if r, ok := regions[k]; ok {
		return r
	}
	r := &regionInfo{key: k, kind: kind, mk: m.Key(), mv: m.Elem()}
	switch kind {
	case "dom":
		r.sort = ArrS(SInt, ArrS(sortOf(m.Key()), SBool))
	case "val":
		r.sort = ArrS(SInt, ArrS(sortOf(m.Key()), sortOf(m.Elem())))
	case "card":
		r.sort = ArrS(SInt, SInt)
	}
	regions[k] = r
	return r
}

var epochAlloc = map[string]*Term{}
var regionInit = map[*Term]bool{}

// newRegionConst makes a fresh content for region r; references in it are below bound.
func newRegionConst(r *regionInfo, name string, bound *Term) *Term {
	c := Const(name, r.sort)
	if regionInit[c] {
		return c
	}
	regionInit[c] = true
	o, i := BVar("o", SInt), BVar("i", SInt)
	switch r.kind {
	case "mem":
		e := App("select", sortOf(r.elem), App("select", ArrS(SInt, sortOf(r.elem)), c, o), i)
		f := refsBelow(e, r.elem, bound)
		if f != True {
			// the facts hold for allocated objects
			addTypeFact(c, Forall([]*Term{o, i}, Implies(Lt(o, bound), And(f, wellTypedRefs(e, r.elem))), []*Term{e}))
		}
	case "card":
		addTypeFact(c, Eq(App("select", SInt, c, Zero), Zero))
		addTypeFact(c, Forall([]*Term{o}, And(Le(Zero, App("select", SInt, c, o)), Le(App("select", SInt, c, o), IntT(maxLen))), []*Term{App("select", SInt, c, o)}))
	case "dom":
		k := BVar("k", sortOf(r.mk))
		e := App("select", SBool, App("select", ArrS(sortOf(r.mk), SBool), c, Zero), k)
		addTypeFact(c, Forall([]*Term{k}, Not(e), []*Term{e}))
	case "val":
		k := BVar("k", sortOf(r.mk))
		e := App("select", sortOf(r.mv), App("select", ArrS(sortOf(r.mk), sortOf(r.mv)), c, o), k)
		f := refsBelow(e, r.mv, bound)
		if f != True {
			addTypeFact(c, Forall([]*Term{o, k}, Implies(Lt(o, bound), And(f, wellTypedRefs(e, r.mv))), []*Term{e}))
		}
	}
	return c
}

// wellTypedRefs is the part of the type invariant about references and slices.
func wellTypedRefs(t *Term, ty types.Type) *Term {
	switch kindOf(ty) {
	case kSlice, kPtr, kMap, kChan:
		return wellTyped(t, ty)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		d := dtFor(ty)
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != "_" {
				cs = append(cs, wellTypedRefs(Sel(d, i, t), st.Field(i).Type()))
			}
		}
		return And(cs...)
	}
	return True
}

func (s *State) region(r *regionInfo) *Term {
	if t, ok := s.mem[r.key]; ok {
		return t
	}
	c := newRegionConst(r, "M"+s.epoch+"_"+sanitize(r.key), epochAlloc[s.epoch])
	s.mem[r.key] = c
	return c
}

func (s *State) peekRegion(r *regionInfo) *Term { return s.region(r) }

// ---- helpers on values ----

func (x *Exec) term(st *State, v Value, ty types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *StrV:
		return v.t
	case *PtrV:
		return x.ptrTerm(st, v)
	}
	panic(VErr(fmt.Sprintf("value %T has no term (%v)", v, ty)))
}

func (x *Exec) ptrTerm(st *State, p *PtrV) *Term {
	p = x.resolve(st, p)
	if p.cell != nil {
		if p.cell.glob {
			// a global whose address is stored
			p = x.materialise(st, p)
		} else {
			p = x.materialise(st, p)
		}
	}
	if len(p.path) > 0 {
		// interior pointers are represented by an injective code of object and path
		o := p.obj
		name := "intptr_" + sanitize(regionKey(p.root))
		args := []*Term{o, p.idx}
		var sorts = []Sort{SInt, SInt}
		for _, e := range p.path {
			if e.idx != nil {
				name += "_i"
				args = append(args, e.idx)
				sorts = append(sorts, SInt)
			} else {
				name += fmt.Sprintf("_%d", e.field)
			}
		}
		if !x.ver.interior {
			panic(VErr("pointer into the middle of an object is stored: " + name))
		}
		RegFun(name, SInt, sorts...)
		return Cons(ptrDT, UF(name, args...), Zero)
	}
	return Cons(ptrDT, p.obj, p.idx)
}

// materialise moves a cell to the heap.
func (x *Exec) materialise(st *State, p *PtrV) *PtrV {
	c := p.cell
	if c.glob {
		panic(VErr("address of global " + c.name + " escapes"))
	}
	v := st.cells[c]
	obj := x.newObj(st)
	var base *PtrV
	if kindOf(c.ty) == kArray {
		et := c.ty.Underlying().(*types.Array).Elem()
		r := memRegion(et)
		st.mem[r.key] = Store(st.region(r), obj, v)
		base = &PtrV{root: et, obj: obj, idx: Zero, arr: true}
	} else {
		r := memRegion(c.ty)
		arr := Store(ConstArr(ArrS(SInt, sortOf(c.ty)), zeroOf(c.ty)), Zero, v)
		st.mem[r.key] = Store(st.region(r), obj, arr)
		base = &PtrV{root: c.ty, obj: obj, idx: Zero}
	}
	x.noteFreshObj(st, obj)
	delete(st.cells, c)
	st.fwd[c] = base
	return x.resolve(st, p)
}

func (x *Exec) resolve(st *State, p *PtrV) *PtrV {
	if p.cell == nil {
		return p
	}
	f, ok := st.fwd[p.cell]
	if !ok {
		return p
	}
	if f.arr && len(p.path) > 0 && p.path[0].idx != nil {
		return &PtrV{root: f.root, obj: f.obj, idx: Add(f.idx, p.path[0].idx), path: p.path[1:]}
	}
	return &PtrV{root: f.root, obj: f.obj, idx: f.idx, path: p.path, arr: f.arr && len(p.path) == 0}
}

func (x *Exec) newObj(st *State) *Term {
	o := st.alloc
	st.alloc = Add(st.alloc, One)
	return o
}

func (x *Exec) noteFreshObj(st *State, o *Term) {}

// fromTerm makes a register value of a term.
func (x *Exec) fromTerm(t *Term, ty types.Type) Value {
	if kindOf(ty) == kPtr {
		p, ok := ty.Underlying().(*types.Pointer)
		if !ok { // unsafe.Pointer
			return &PtrV{obj: PObj(t), idx: PIdx(t)}
		}
		return ptrTo(p.Elem(), PObj(t), PIdx(t))
	}
	return t
}

func ptrTo(elem types.Type, obj, idx *Term) *PtrV {
	if kindOf(elem) == kArray {
		return &PtrV{root: elem.Underlying().(*types.Array).Elem(), obj: obj, idx: idx, arr: true}
	}
	return &PtrV{root: elem, obj: obj, idx: idx}
}

func isNilPtr(p *PtrV) *Term {
	if p.cell != nil {
		return False
	}
	if len(p.path) > 0 {
		return False
	}
	return Eq(p.obj, Zero)
}

// ---- load and store ----

func navType(t types.Type, path []PathElem) types.Type {
	for _, e := range path {
		if e.idx != nil {
			t = t.Underlying().(*types.Array).Elem()
		} else {
			t = t.Underlying().(*types.Struct).Field(e.field).Type()
		}
	}
	return t
}

func navGet(v *Term, t types.Type, path []PathElem) *Term {
	for _, e := range path {
		if e.idx != nil {
			v = Select(v, e.idx)
			t = t.Underlying().(*types.Array).Elem()
		} else {
			v = Sel(dtFor(t), e.field, v)
			t = t.Underlying().(*types.Struct).Field(e.field).Type()
		}
	}
	return v
}

func navSet(v *Term, t types.Type, path []PathElem, n *Term) *Term {
	if len(path) == 0 {
		return n
	}
	e := path[0]
	if e.idx != nil {
		et := t.Underlying().(*types.Array).Elem()
		return Store(v, e.idx, navSet(Select(v, e.idx), et, path[1:], n))
	}
	st := t.Underlying().(*types.Struct)
	d := dtFor(t)
	args := make([]*Term, len(d.Fields))
	for i := range args {
		args[i] = Sel(d, i, v)
	}
	args[e.field] = navSet(args[e.field], st.Field(e.field).Type(), path[1:], n)
	return Cons(d, args...)
}

func (x *Exec) pointee(p *PtrV) types.Type {
	if p.cell != nil {
		return navType(p.cell.ty, p.path)
	}
	if p.root == nil {
		return nil
	}
	return navType(p.root, p.path)
}

// loadT loads the value of type ty at p.
func (x *Exec) loadT(st *State, p *PtrV, ty types.Type) *Term {
	p = x.resolve(st, p)
	var v *Term
	if p.cell != nil {
		c, ok := st.cells[p.cell]
		if !ok {
			c = x.globalInit(st, p.cell)
		}
		v = navGet(c, p.cell.ty, p.path)
	} else {
		if p.root == nil {
			p.root = ty
		}
		if tb, ok := x.ver.tables[p.obj]; ok && !p.arr && len(tb) > 0 && tb[0].sort == sortOf(p.root) {
			v := tb[len(tb)-1]
			for i := len(tb) - 2; i >= 0; i-- {
				v = mergeIte(Eq(p.idx, IntT(int64(i))), tb[i], v)
			}
			v = navGet(v, p.root, p.path)
			if v.sort == sortOf(ty) {
				return typed(v, ty)
			}
		}
		m := st.region(memRegion(p.root))
		if p.arr && len(p.path) == 0 && kindOf(ty) == kArray {
			if p.idx != Zero {
				panic(VErr("load of an array in the middle of an object"))
			}
			return Select(m, p.obj)
		}
		v = navGet(Select(Select(m, p.obj), p.idx), p.root, p.path)
	}
	want := sortOf(ty)
	if v.sort != want {
		v = x.reinterpret(st, v, x.pointee(p), ty)
	}
	return typed(v, ty)
}

// aliased records which object a string made by an unsafe conversion shares its memory with.
var aliased sync.Map

func (x *Exec) aliasStr(st *State, s, obj *Term) *Term {
	c := Fresh("ucast", SStr)
	x.addFact(st, Eq(c, s))
	aliased.Store(c, obj)
	return c
}

// aliasOf is the object that a string shares its memory with, 0 if it was not made by an unsafe conversion.
func aliasOf(t *Term) *Term {
	if o, ok := aliased.Load(t); ok {
		return o.(*Term)
	}
	if t.isApp("ite") {
		return Ite(t.args[0], aliasOf(t.args[1]), aliasOf(t.args[2]))
	}
	if t.isApp("slen") || t.isApp("sat") {
		return Zero
	}
	r := Zero
	for _, a := range t.args {
		if o := aliasOf(a); o != Zero {
			r = o
		}
	}
	return r
}

// reinterpret views a value of type from as type to (conversions through unsafe.Pointer).
func (x *Exec) reinterpret(st *State, v *Term, from, to types.Type) *Term {
	if kindOf(from) == kSlice && kindOf(to) == kString {
		m := st.region(memRegion(from.Underlying().(*types.Slice).Elem()))
		return x.aliasStr(st, MkStr(Select(m, SlObj(v)), SlOff(v), SlLen(v)), SlObj(v))
	}
	if kindOf(from) == kStruct && kindOf(to) == kStruct {
		return x.convStruct(v, from, to)
	}
	panic(VErr(fmt.Sprintf("reinterpretation of %s as %s", typeKey(from), typeKey(to))))
}

func (x *Exec) convStruct(v *Term, from, to types.Type) *Term {
	if sortOf(from) == sortOf(to) {
		return v
	}
	switch kindOf(from) {
	case kStruct:
		fs, ts := from.Underlying().(*types.Struct), to.Underlying().(*types.Struct)
		df, dt := dtFor(from), dtFor(to)
		var as []*Term
		for i := range dt.Fields {
			if ts.NumFields() == 0 {
				as = append(as, Zero)
				break
			}
			as = append(as, x.convStruct(Sel(df, i, v), fs.Field(i).Type(), ts.Field(i).Type()))
		}
		return Cons(dt, as...)
	}
	panic(VErr("conversion between " + typeKey(from) + " and " + typeKey(to)))
}

func (x *Exec) storeT(st *State, p *PtrV, v *Term, ty types.Type) {
	p = x.resolve(st, p)
	if p.cell != nil {
		c, ok := st.cells[p.cell]
		if !ok {
			c = x.globalInit(st, p.cell)
		}
		if pt := navType(p.cell.ty, p.path); sortOf(pt) != v.sort {
			v = x.reinterpret(st, v, ty, pt)
		}
		st.cells[p.cell] = navSet(c, p.cell.ty, p.path, v)
		x.noteCellWrite(st, p.cell, p.path)
		return
	}
	if p.root == nil {
		p.root = ty
	}
	r := memRegion(p.root)
	m := st.region(r)
	if p.arr && len(p.path) == 0 && kindOf(ty) == kArray {
		x.noteWrite(st, r, p.obj, nil, nil)
		st.mem[r.key] = Store(m, p.obj, v)
		return
	}
	x.noteWrite(st, r, p.obj, p.idx, p.path)
	pt := navType(p.root, p.path)
	if sortOf(pt) != v.sort {
		v = x.reinterpret(st, v, ty, pt)
	}
	a := Select(m, p.obj)
	old := Select(a, p.idx)
	st.mem[r.key] = Store(m, p.obj, Store(a, p.idx, navSet(old, p.root, p.path, v)))
}

// globalInit gives a global its content at the entry of the verified function.
func (x *Exec) globalInit(st *State, c *Cell) *Term {
	if !c.glob {
		panic(VErr("uninitialised cell " + c.name))
	}
	if v := x.ver.constGlobal(c); v != nil {
		st.cells[c] = v
		return v
	}
	v := typed(Const("G"+st.epoch+"_"+sanitize(c.name), sortOf(c.ty)), c.ty)
	if f := refsBelow(v, c.ty, epochAlloc[st.epoch]); f != True {
		addTypeFact(v, f)
	}
	st.cells[c] = v
	return v
}
