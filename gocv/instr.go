package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		c := x.newCell(in.Comment, et, in)
		st.cells[c] = zeroOf(et)
		x.set(st, in, &PtrV{cell: c})
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in))
	case *ssa.ChangeInterface:
		x.set(st, in, x.val(st, in.X))
	case *ssa.ChangeType:
		x.set(st, in, x.changeType(st, in.X, in.Type()))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, in))
	case *ssa.MultiConvert:
		panic(VErr("multiconvert"))
	case *ssa.Extract:
		tv, ok := x.val(st, in.Tuple).(*TupleV)
		if !ok {
			panic(VErr("extract of a non-tuple"))
		}
		x.set(st, in, tv.v[in.Index])
	case *ssa.Field:
		v := x.t(st, in.X)
		f := Sel(dtFor(in.X.Type()), in.Field, v)
		x.set(st, in, x.fromTerm(typed(f, in.Type()), in.Type()))
	case *ssa.FieldAddr:
		p := x.ptr(st, in.X)
		x.nilCheck(st, p)
		x.set(st, in, &PtrV{cell: p.cell, root: p.root, obj: p.obj, idx: p.idx, path: append(append([]PathElem(nil), p.path...), PathElem{field: in.Field})})
	case *ssa.Index:
		i := x.t(st, in.Index)
		if kindOf(in.X.Type()) == kString {
			s := x.t(st, in.X)
			x.check(st, And(Le(Zero, i), Lt(i, SLen(s))), "index", "index", "string index in range", nil)
			x.set(st, in, typed(SAt(s, i), in.Type()))
			return
		}
		n := in.X.Type().Underlying().(*types.Array).Len()
		x.check(st, And(Le(Zero, i), Lt(i, IntT(n))), "index", "index", "array index in range", nil)
		x.set(st, in, x.fromTerm(typed(Select(x.t(st, in.X), i), in.Type()), in.Type()))
	case *ssa.IndexAddr:
		x.set(st, in, x.indexAddr(st, in))
	case *ssa.Lookup:
		x.set(st, in, x.lookup(st, in))
	case *ssa.MakeChan:
		x.set(st, in, x.makeChan(st, in))
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, x.val(st, v))
		}
		x.set(st, in, newFuncV(in.Fn.(*ssa.Function), b))
	case *ssa.MakeInterface:
		x.set(st, in, x.makeIface(st, x.val(st, in.X), in.X.Type()))
	case *ssa.MakeMap:
		x.set(st, in, x.makeMap(st, in.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		n, c := x.t(st, in.Len), x.t(st, in.Cap)
		x.check(st, And(Le(Zero, n), Le(n, c), Le(c, IntT(maxLen))), "slice", "makeslice", "make: length and capacity in range", nil)
		et := in.Type().Underlying().(*types.Slice).Elem()
		x.allocHook(st, c, et)
		o := x.newObj(st)
		r := memRegion(et)
		st.mem[r.key] = Store(st.region(r), o, ConstArr(ArrS(SInt, sortOf(et)), zeroOf(et)))
		x.set(st, in, MkSlice(o, Zero, n, c))
	case *ssa.MapUpdate:
		x.mapUpdate(st, in.Map.Type().Underlying().(*types.Map), x.t(st, in.Map), x.t(st, in.Key), x.t(st, in.Value))
	case *ssa.Range:
		x.rangeInstr(st, in)
	case *ssa.Send:
		x.send(st, x.t(st, in.Chan), x.val(st, in.X), in.X.Type(), in.Chan, false)
	case *ssa.Slice:
		x.set(st, in, x.sliceOp(st, in))
	case *ssa.Store:
		p := x.ptr(st, in.Addr)
		x.nilCheck(st, p)
		x.guardAccess(st, p, "written")
		x.storeT(st, p, x.t(st, in.Val), in.Val.Type())
	case *ssa.Defer:
		d := deferred{call: &in.Call, pos: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		d.fn = x.calleeVal(st, &in.Call)
		st.frame.defers = append(st.frame.defers, d)
	case *ssa.Go:
		x.goInstr(st, in)
	case *ssa.SliceToArrayPointer:
		panic(VErr("slice to array pointer"))
	default:
		panic(VErr(fmt.Sprintf("instruction %T", in)))
	}
}

var cellSeq int

func (x *Exec) newCell(name string, ty types.Type, site ssa.Value) *Cell {
	cellSeq++
	return &Cell{id: cellSeq, name: name, ty: ty, site: site}
}

func (x *Exec) nilCheck(st *State, p *PtrV) {
	p = x.resolve(st, p)
	if p.cell != nil || len(p.path) > 0 {
		return
	}
	x.check(st, Ne(p.obj, Zero), "nil", "nil", "pointer is not nil", nil)
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) Value {
	i := x.t(st, in.Index)
	if kindOf(in.X.Type()) == kSlice {
		s := x.t(st, in.X)
		x.check(st, And(Le(Zero, i), Lt(i, SlLen(s))), "index", "index", "slice index in range", nil)
		return &PtrV{root: in.X.Type().Underlying().(*types.Slice).Elem(), obj: SlObj(s), idx: Add(SlOff(s), i)}
	}
	p := x.ptr(st, in.X)
	at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	x.nilCheck(st, p)
	x.check(st, And(Le(Zero, i), Lt(i, IntT(at.Len()))), "index", "index", "array index in range", nil)
	p = x.resolve(st, p)
	if p.cell == nil && p.arr && len(p.path) == 0 {
		return &PtrV{root: p.root, obj: p.obj, idx: Add(p.idx, i)}
	}
	return &PtrV{cell: p.cell, root: p.root, obj: p.obj, idx: p.idx, path: append(append([]PathElem(nil), p.path...), PathElem{idx: i})}
}

func (x *Exec) sliceOp(st *State, in *ssa.Slice) Value {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.t(st, v)
	}
	if kindOf(in.X.Type()) == kString {
		s := x.t(st, in.X)
		lo := opt(in.Low, Zero)
		hi := opt(in.High, SLen(s))
		x.check(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, SLen(s))), "slice", "slice", "string slice bounds", nil)
		return SSub(s, lo, hi)
	}
	var obj, off, ln, cp *Term
	if kindOf(in.X.Type()) == kSlice {
		s := x.t(st, in.X)
		obj, off, ln, cp = SlObj(s), SlOff(s), SlLen(s), SlCap(s)
	} else {
		p := x.ptr(st, in.X)
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.nilCheck(st, p)
		p = x.resolve(st, p)
		if p.cell != nil {
			if len(p.path) > 0 {
				panic(VErr("slice of an array inside a struct"))
			}
			p = x.materialise(st, p)
		}
		if !p.arr || len(p.path) > 0 {
			panic(VErr("slice of an array inside a struct"))
		}
		obj, off, ln, cp = p.obj, p.idx, IntT(at.Len()), IntT(at.Len())
	}
	lo := opt(in.Low, Zero)
	hi := opt(in.High, ln)
	mx := opt(in.Max, cp)
	if in.Low == nil && in.High == nil && in.Max == nil {
		return MkSlice(obj, off, ln, cp)
	}
	x.check(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), "slice", "slice", "slice bounds", nil)
	// slicing nil gives nil: offsets are zero then
	return MkSlice(obj, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
}

// SSub is the substring [lo,hi) of s.
func SSub(s, lo, hi *Term) *Term {
	if lo == Zero && hi == SLen(s) {
		return s
	}
	if v, ok := litVal(s); ok {
		l, ok1 := lo.i64()
		h, ok2 := hi.i64()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(v) {
			return StrLit(v[l:h])
		}
	}
	if s.isApp("mkstr") {
		return MkStr(s.args[0], Add(s.args[1], lo), Sub(hi, lo))
	}
	return App("ssub", SStr, s, lo, hi)
}

func init() {
	RegFun("ssub", SStr, SStr, SInt, SInt)
	s, lo, hi, i := BVar("s", SStr), BVar("lo", SInt), BVar("hi", SInt), BVar("i", SInt)
	ss := App("ssub", SStr, s, lo, hi)
	AddAxiom("ssub-len", Forall([]*Term{s, lo, hi}, Implies(And(Le(Zero, lo), Le(lo, hi), Le(hi, App("slen", SInt, s))), Eq(App("slen", SInt, ss), Sub(hi, lo))), []*Term{ss}), "ssub")
	AddAxiom("ssub-at", Forall([]*Term{s, lo, hi, i}, Implies(And(Le(Zero, i), Lt(i, Sub(hi, lo))), Eq(App("sat", SInt, ss, i), App("sat", SInt, s, Add(lo, i)))), []*Term{App("sat", SInt, ss, i)}), "ssub", "sat")
}

func (x *Exec) changeType(st *State, v ssa.Value, to types.Type) Value {
	val := x.val(st, v)
	switch kindOf(to) {
	case kStruct:
		return x.convStruct(x.term(st, val, v.Type()), v.Type(), to)
	case kPtr:
		if p, ok := val.(*PtrV); ok && p.cell == nil && len(p.path) == 0 && p.root != nil {
			e := to.Underlying().(*types.Pointer).Elem()
			if !p.arr && kindOf(e) != kArray {
				return &PtrV{root: e, obj: p.obj, idx: p.idx}
			}
		}
	}
	return val
}

// ---- arithmetic ----

// norm brings an exact result into the range of type ty (wrap-around semantics).
func (x *Exec) norm(st *State, e *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return e
	}
	if inRange(e, lo, hi) {
		return e
	}
	if !e.bound && !x.ver.noProveRange {
		if x.proves(st, And(Le(IntB(lo), e), Le(e, IntB(hi))), 300) {
			return e
		}
	}
	return wrapTerm(e, ty)
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Value {
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.eqVals(st, x.val(st, in.X), x.val(st, in.Y), xt, in.Y.Type())
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return e
	}
	a, b := x.t(st, in.X), x.t(st, in.Y)
	if kindOf(xt) == kFloat {
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Fresh("fcmp", SBool)
		}
		return Fresh("float", SInt)
	}
	if kindOf(xt) == kString {
		switch in.Op {
		case token.ADD:
			return sconcat(a, b)
		case token.LSS:
			return UF("sless", a, b)
		case token.GTR:
			return UF("sless", b, a)
		case token.LEQ:
			return Not(UF("sless", b, a))
		case token.GEQ:
			return Not(UF("sless", a, b))
		}
	}
	switch in.Op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	}
	return x.arith(st, in.Op, a, b, in.Type(), in.Y.Type())
}

func sconcat(a, b *Term) *Term {
	la, ok1 := litVal(a)
	lb, ok2 := litVal(b)
	if ok1 && ok2 {
		return StrLit(la + lb)
	}
	if ok1 && la == "" {
		return b
	}
	if ok2 && lb == "" {
		return a
	}
	return App("sconcat", SStr, a, b)
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, ty, yty types.Type) *Term {
	switch op {
	case token.ADD:
		return x.norm(st, Add(a, b), ty)
	case token.SUB:
		return x.norm(st, Sub(a, b), ty)
	case token.MUL:
		return x.norm(st, Mul(a, b), ty)
	case token.QUO, token.REM:
		x.check(st, Ne(b, Zero), "div", "div", "divisor is not zero", nil)
		q := x.tdiv(st, a, b)
		if op == token.QUO {
			return x.norm(st, q, ty)
		}
		if x.nonneg(st, a) && x.nonneg(st, b) {
			return Mod(a, b)
		}
		return Sub(a, Mul(b, q))
	case token.SHL:
		if lo, _ := rangeOf(b, 0); lo == nil || lo.Sign() < 0 {
			x.check(st, Le(Zero, b), "panic", "shift", "shift count is not negative", nil)
		}
		if k, ok := b.i64(); ok {
			if k >= 64 {
				return Zero
			}
			return x.norm(st, Mul(a, IntB(pow2(uint(k)))), ty)
		}
		return x.norm(st, Mul(a, x.p2(st, b)), ty)
	case token.SHR:
		if lo, _ := rangeOf(b, 0); lo == nil || lo.Sign() < 0 {
			x.check(st, Le(Zero, b), "panic", "shift", "shift count is not negative", nil)
		}
		if k, ok := b.i64(); ok {
			if k > 64 {
				k = 64
			}
			return Div(a, IntB(pow2(uint(k))))
		}
		return Div(a, x.p2(st, b))
	case token.AND:
		return x.bitAnd(st, a, b, ty)
	case token.OR:
		return x.bitOr(st, a, b, ty)
	case token.XOR:
		return x.bitXor(st, a, b, ty)
	case token.AND_NOT:
		return Sub(a, x.bitAnd(st, a, b, ty))
	}
	panic(VErr("operator " + op.String()))
}

func (x *Exec) nonneg(st *State, a *Term) bool {
	if lo, _ := rangeOf(a, 0); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if a.bound {
		return false
	}
	return x.proves(st, Le(Zero, a), 300)
}

// tdiv is Go's truncated division.
func (x *Exec) tdiv(st *State, a, b *Term) *Term {
	if x.nonneg(st, b) {
		if x.nonneg(st, a) {
			return Div(a, b)
		}
		return Ite(Le(Zero, a), Div(a, b), Neg(Div(Neg(a), b)))
	}
	abs := func(t *Term) *Term { return Ite(Le(Zero, t), t, Neg(t)) }
	q := Div(abs(a), abs(b))
	return Ite(Eq(Le(Zero, a), Le(Zero, b)), q, Neg(q))
}

// p2 is 2^k for a symbolic k >= 0.
func (x *Exec) p2(st *State, k *Term) *Term {
	if v, ok := k.i64(); ok {
		return IntB(pow2(uint(v)))
	}
	l := linOf(k)
	if l.c.Sign() > 0 && l.c.IsInt64() && l.c.Int64() < 4096 {
		c := uint(l.c.Int64())
		u := Sub(k, IntB(l.c))
		if x.proves(st, Le(Zero, u), 300) {
			return Mul(IntB(pow2(c)), x.p2(st, u))
		}
	}
	return UF("p2", k)
}

// trailing zero bits that the term certainly has
func tz(t *Term) int {
	switch {
	case t.op == 'i':
		if t.iv.Sign() == 0 {
			return 4096
		}
		return int(t.iv.TrailingZeroBits())
	case t.isApp("+"):
		m := 4096
		for _, a := range t.args {
			if k := tz(a); k < m {
				m = k
			}
		}
		return m
	case t.isApp("*"):
		return tz(t.args[0]) + tz(t.args[1])
	case t.isApp("mod"):
		a, b := tz(t.args[0]), tz(t.args[1])
		if b < a {
			return b
		}
		return a
	case t.isApp("ite"):
		a, b := tz(t.args[1]), tz(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

func (x *Exec) below2k(st *State, t *Term, k int) bool {
	if k > 4000 {
		return true
	}
	h := new(big.Int).Sub(pow2(uint(k)), big.NewInt(1))
	if inRange(t, big.NewInt(0), h) {
		return true
	}
	if t.bound {
		return false
	}
	return x.proves(st, And(Le(Zero, t), Le(t, IntB(h))), 300)
}

func (x *Exec) bitAnd(st *State, a, b *Term, ty types.Type) *Term {
	if a.isInt() {
		a, b = b, a
	}
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).And(a.iv, b.iv))
	}
	if b.isInt() {
		m := b.iv
		if m.Sign() < 0 {
			// a & m = a - (a & ^m)
			return Sub(a, x.bitAnd(st, a, IntB(new(big.Int).Not(m)), ty))
		}
		// sum of runs of ones
		var parts []*Term
		n := m.BitLen()
		for i := 0; i < n; {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && m.Bit(j) == 1 {
				j++
			}
			parts = append(parts, Mul(IntB(pow2(uint(i))), Mod(Div(a, IntB(pow2(uint(i)))), IntB(pow2(uint(j-i))))))
			i = j
		}
		if len(parts) == 0 {
			return Zero
		}
		// drop the modulus when the value is small enough
		if len(parts) == 1 && m.Bit(0) == 1 {
			if inRange(a, big.NewInt(0), m) {
				return a
			}
		}
		return Add(parts...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return typed(UF("bvand", a, b), ty)
}

func (x *Exec) bitOr(st *State, a, b *Term, ty types.Type) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Or(a.iv, b.iv))
	}
	if a == Zero {
		return b
	}
	if b == Zero {
		return a
	}
	ka, kb := tz(a), tz(b)
	if ka > 0 && x.below2k(st, b, ka) || kb > 0 && x.below2k(st, a, kb) {
		return Add(a, b)
	}
	if a.isInt() || b.isInt() {
		return Sub(Add(a, b), x.bitAnd(st, a, b, ty))
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := typed(UF("bvor", a, b), ty)
	// x | (y << k) for symbolic k: the operands do not overlap when x < 2^k
	for _, pr := range [][2]*Term{{a, b}, {b, a}} {
		if k := shiftedBy(pr[1]); k != nil {
			x.addFact(st, Implies(And(Le(Zero, pr[0]), Lt(pr[0], k)), Eq(r, Add(pr[0], pr[1]))))
		}
	}
	return r
}

// shiftedBy finds p2(k) when t is a multiple of it (possibly reduced modulo 2^n).
func shiftedBy(t *Term) *Term {
	if t.isApp("p2") {
		return t
	}
	if t.isApp("*") {
		for _, a := range t.args {
			if r := shiftedBy(a); r != nil {
				if t.args[0].isInt() {
					return Mul(t.args[0], r)
				}
				return r
			}
		}
	}
	if t.isApp("mod") {
		return shiftedBy(t.args[0])
	}
	return nil
}

func (x *Exec) bitXor(st *State, a, b *Term, ty types.Type) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Xor(a.iv, b.iv))
	}
	m1, z := big.NewInt(-1), big.NewInt(0)
	_, hi, _ := intRange(ty)
	for _, pr := range [][2]*Term{{a, b}, {b, a}} {
		if inRange(pr[1], m1, z) {
			return Ite(Eq(pr[1], Zero), pr[0], Sub(IntT(-1), pr[0]))
		}
		// all ones of an unsigned type
		if pr[1].isInt() && pr[1].iv.Cmp(hi) == 0 && !isSigned(ty) {
			return Sub(pr[1], pr[0])
		}
	}
	if a.isInt() || b.isInt() {
		return Sub(Add(a, b), Mul(IntT(2), x.bitAnd(st, a, b, ty)))
	}
	ka, kb := tz(a), tz(b)
	if ka > 0 && x.below2k(st, b, ka) || kb > 0 && x.below2k(st, a, kb) {
		return Add(a, b)
	}
	// unsigned view of 0 / -1
	if !isSigned(ty) {
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			if x.proves(st, Or(Eq(pr[1], Zero), Eq(pr[1], IntB(hi))), 300) {
				return Ite(Eq(pr[1], Zero), pr[0], Sub(IntB(hi), pr[0]))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return typed(UF("bvxor", a, b), ty)
}

func isSigned(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	_, s := intBits(b)
	return s
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Value {
	switch in.Op {
	case token.MUL:
		p := x.ptr(st, in.X)
		x.nilCheck(st, p)
		return x.load(st, p, in.Type())
	case token.NOT:
		return Not(x.t(st, in.X))
	case token.SUB:
		if kindOf(in.Type()) == kFloat {
			return Fresh("float", SInt)
		}
		return x.norm(st, Neg(x.t(st, in.X)), in.Type())
	case token.XOR:
		a := x.t(st, in.X)
		if isSigned(in.Type()) {
			return Sub(IntT(-1), a)
		}
		_, hi, _ := intRange(in.Type())
		return Sub(IntB(hi), a)
	}
	panic(VErr("unary " + in.Op.String()))
}

func (x *Exec) load(st *State, p *PtrV, ty types.Type) Value {
	x.guardAccess(st, p, "read")
	// string view of a byte slice: remember the backing object
	rp := x.resolve(st, p)
	if kindOf(ty) == kString {
		if pt := x.pointee(rp); pt != nil && kindOf(pt) == kSlice {
			s := x.loadT(st, rp, pt)
			return &StrV{x.loadT(st, rp, ty), SlObj(s)}
		}
	}
	v := x.loadT(st, p, ty)
	x.loadedRefs(st, v, ty)
	return x.fromTerm(v, ty)
}

// loadedRefs: references found in memory denote allocated objects.
func (x *Exec) loadedRefs(st *State, v *Term, ty types.Type) {
	if v.bound {
		return
	}
	f := refsBelow(v, ty, st.alloc)
	for _, c := range conjuncts(f) {
		if c != True && !st.fact.has(c) {
			x.addFact(st, c)
		}
	}
}

func (x *Exec) eqVals(st *State, a, b Value, ta, tb types.Type) *Term {
	if kindOf(ta) == kIface && kindOf(tb) != kIface {
		b = x.makeIface(st, b, tb)
	} else if kindOf(tb) == kIface && kindOf(ta) != kIface {
		a = x.makeIface(st, a, ta)
	}
	pa, ok1 := a.(*PtrV)
	pb, ok2 := b.(*PtrV)
	if ok1 && ok2 {
		return x.ptrEq(st, pa, pb)
	}
	switch kindOf(ta) {
	case kFloat:
		return Fresh("fcmp", SBool)
	case kSlice, kFunc:
		// only comparison with nil is possible
		t1, t2 := x.term(st, a, ta), x.term(st, b, tb)
		if kindOf(ta) == kSlice {
			if t2 == nilSlice {
				return Eq(SlObj(t1), Zero)
			}
			if t1 == nilSlice {
				return Eq(SlObj(t2), Zero)
			}
		}
		return Eq(t1, t2)
	case kStruct:
		return x.structEq(x.term(st, a, ta), x.term(st, b, tb), ta)
	}
	return Eq(x.term(st, a, ta), x.term(st, b, tb))
}

func (x *Exec) structEq(a, b *Term, ty types.Type) *Term {
	if kindOf(ty) != kStruct {
		return Eq(a, b)
	}
	s := ty.Underlying().(*types.Struct)
	d := dtFor(ty)
	var cs []*Term
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "_" {
			continue
		}
		cs = append(cs, x.structEq(Sel(d, i, a), Sel(d, i, b), s.Field(i).Type()))
	}
	return And(cs...)
}

func (x *Exec) ptrEq(st *State, a, b *PtrV) *Term {
	a, b = x.resolve(st, a), x.resolve(st, b)
	if a.cell != nil || b.cell != nil {
		if a.cell != b.cell {
			return False
		}
		if len(a.path) != len(b.path) {
			return False
		}
		return pathEq(a.path, b.path)
	}
	if len(a.path) != len(b.path) {
		return False
	}
	return And(Eq(a.obj, b.obj), Eq(a.idx, b.idx), pathEq(a.path, b.path))
}

func pathEq(a, b []PathElem) *Term {
	var cs []*Term
	for i := range a {
		if a[i].idx != nil && b[i].idx != nil {
			cs = append(cs, Eq(a[i].idx, b[i].idx))
		} else if a[i].field != b[i].field {
			return False
		}
	}
	return And(cs...)
}

// ---- conversions ----

func (x *Exec) convert(st *State, in *ssa.Convert) Value {
	from, to := in.X.Type(), in.Type()
	kf, kt := kindOf(from), kindOf(to)
	v := x.val(st, in.X)
	switch {
	case kf == kInt && kt == kInt:
		return x.norm(st, x.term(st, v, from), to)
	case kf == kPtr && kt == kPtr:
		p := v.(*PtrV)
		tp, ok := to.Underlying().(*types.Pointer)
		if ok && p.cell == nil && p.root == nil {
			return ptrTo(tp.Elem(), p.obj, p.idx)
		}
		if ok && p.cell == nil && len(p.path) == 0 && !p.arr && p.root != nil && kindOf(tp.Elem()) != kArray && sortOf(p.root) == sortOf(tp.Elem()) && regionKey(p.root) == regionKey(tp.Elem()) {
			return &PtrV{root: tp.Elem(), obj: p.obj, idx: p.idx}
		}
		return p
	case kf == kPtr && kt == kInt, kf == kInt && kt == kPtr:
		panic(VErr("pointer arithmetic through uintptr"))
	case kf == kSlice && kt == kString:
		s := x.term(st, v, from)
		et := from.Underlying().(*types.Slice).Elem()
		if regionKey(et) != "uint8" {
			return x.fresh("str", to)
		}
		return MkStr(Select(st.region(memRegion(et)), SlObj(s)), SlOff(s), SlLen(s))
	case kf == kString && kt == kSlice:
		et := to.Underlying().(*types.Slice).Elem()
		if regionKey(et) != "uint8" {
			return x.freshVal(st, "runes", to)
		}
		return x.bytesOfStr(st, x.term(st, v, from), et)
	case kt == kFloat:
		return Fresh("float", SInt)
	case kf == kFloat && kt == kInt:
		return x.fresh("fromfloat", to)
	case kf == kInt && kt == kString:
		return x.fresh("runestr", to)
	}
	return v
}

// bytesOfStr allocates a byte slice with the content of s.
func (x *Exec) bytesOfStr(st *State, s *Term, et types.Type) *Term {
	r := memRegion(et)
	o := x.newObj(st)
	arr := x.arrOfStr(s)
	st.mem[r.key] = Store(st.region(r), o, arr)
	n := SLen(s)
	return MkSlice(o, Zero, n, n)
}

// arrOfStr is a byte array holding the string from index 0.
func (x *Exec) arrOfStr(s *Term) *Term {
	if v, ok := litVal(s); ok && len(v) <= 64 {
		a := ConstArr(ArrS(SInt, SInt), Zero)
		for i := 0; i < len(v); i++ {
			a = Store(a, IntT(int64(i)), IntT(int64(v[i])))
		}
		return a
	}
	return App("strarr", ArrS(SInt, SInt), s)
}

func init() {
	RegFun("strarr", ArrS(SInt, SInt), SStr)
	s, i := BVar("s", SStr), BVar("i", SInt)
	sa := App("strarr", ArrS(SInt, SInt), s)
	e := App("select", SInt, sa, i)
	AddAxiom("strarr-at", Forall([]*Term{s, i}, Implies(And(Le(Zero, i), Lt(i, App("slen", SInt, s))), Eq(e, App("sat", SInt, s, i))), []*Term{e}), "strarr")
	AddAxiom("strarr-at2", Forall([]*Term{s, i}, Implies(And(Le(Zero, i), Lt(i, App("slen", SInt, s))), Eq(e, App("sat", SInt, s, i))), []*Term{sa, App("sat", SInt, s, i)}), "strarr", "sat")
	ms := App("mkstr", SStr, sa, Zero, App("slen", SInt, s))
	AddAxiom("mkstr-strarr", Forall([]*Term{s}, Eq(ms, s), []*Term{ms}), "strarr", "mkstr")
}

// ---- interfaces ----

var ifaceTypeIDs = map[string]int64{}
var ifaceTypes = map[int64]types.Type{}

func ifaceTypeID(t types.Type) *Term {
	k := typeKey(t)
	if _, ok := ifaceTypeIDs[k]; !ok {
		ifaceTypeIDs[k] = int64(len(ifaceTypeIDs) + 1)
		ifaceTypes[ifaceTypeIDs[k]] = t
	}
	return IntT(ifaceTypeIDs[k])
}

func init() {
	RegFun("ityp", SInt, SInt)
}

func boxNames(ty types.Type) (string, string, Sort) {
	s := sortOf(ty)
	k := sanitize(string(s))
	RegFun("box_"+k, SInt, SInt, s)
	RegFun("unbox_"+k, s, SInt)
	return "box_" + k, "unbox_" + k, s
}

func (x *Exec) makeIface(st *State, v Value, ty types.Type) *Term {
	if kindOf(ty) == kIface {
		return x.term(st, v, ty)
	}
	t := x.term(st, v, ty)
	if kindOf(ty) == kPtr && t == nilPtr {
		// typed nil: not a nil interface
	}
	b, u, _ := boxNames(ty)
	r := UF(b, ifaceTypeID(ty), t)
	if !r.bound {
		addTypeFact(r, And(Lt(Zero, r), Eq(UF("ityp", r), ifaceTypeID(ty)), Eq(UF(u, r), t)))
	}
	return r
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, k func(*State, Value)) bool {
	v := x.t(st, in.X)
	if kindOf(in.AssertedType) == kIface {
		if in.CommaOk {
			ok := Fresh("impl", SBool)
			x.set(st, in, &TupleV{[]Value{Ite(ok, v, Zero), ok}})
		} else {
			x.set(st, in, v)
			if !x.ver.trustAsserts[typeKey(in.AssertedType)] {
				x.check(st, Fresh("impl", SBool), "panic", "typeassert", "type assertion to "+typeKey(in.AssertedType)+" succeeds", nil)
			}
		}
		return false
	}
	_, u, _ := boxNames(in.AssertedType)
	is := And(Ne(v, Zero), Eq(UF("ityp", v), ifaceTypeID(in.AssertedType)))
	val := typed(UF(u, v), in.AssertedType)
	if !in.CommaOk {
		if !x.ver.trustedAssert(x, st, in) {
			x.check(st, is, "panic", "typeassert", "type assertion to "+typeKey(in.AssertedType)+" succeeds", nil)
		}
		x.loadedRefs(st, val, in.AssertedType)
		x.set(st, in, x.fromTerm(val, in.AssertedType))
		return false
	}
	if x.feasible(st, is) {
		s1 := st.clone()
		x.assume(s1, is)
		x.loadedRefs(s1, val, in.AssertedType)
		k(s1, &TupleV{[]Value{x.fromTerm(val, in.AssertedType), True}})
	}
	if x.feasible(st, Not(is)) {
		x.assume(st, Not(is))
		k(st, &TupleV{[]Value{x.fromTerm(zeroOf(in.AssertedType), in.AssertedType), False}})
	}
	return true
}

// ---- maps ----

func (x *Exec) makeMap(st *State, m *types.Map) *Term {
	o := x.newObj(st)
	d, c := mapRegion(m, "dom"), mapRegion(m, "card")
	st.mem[d.key] = Store(st.region(d), o, ConstArr(ArrS(sortOf(m.Key()), SBool), False))
	st.mem[c.key] = Store(st.region(c), o, Zero)
	return o
}

func (x *Exec) mapDom(st *State, m *types.Map, o *Term) *Term {
	return Select(st.region(mapRegion(m, "dom")), o)
}
func (x *Exec) mapVal(st *State, m *types.Map, o *Term) *Term {
	return Select(st.region(mapRegion(m, "val")), o)
}
func (x *Exec) mapCard(st *State, m *types.Map, o *Term) *Term {
	c := Select(st.region(mapRegion(m, "card")), o)
	if !c.bound && !c.isInt() {
		setRange(c, big.NewInt(0), big.NewInt(maxLen))
	}
	return c
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) Value {
	if kindOf(in.X.Type()) == kString {
		s, i := x.t(st, in.X), x.t(st, in.Index)
		x.check(st, And(Le(Zero, i), Lt(i, SLen(s))), "index", "index", "string index in range", nil)
		return typed(SAt(s, i), in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m, k := x.t(st, in.X), x.t(st, in.Index)
	has := Select(x.mapDom(st, mt, m), k)
	raw := Select(x.mapVal(st, mt, m), k)
	typed(raw, mt.Elem())
	x.loadedRefs(st, raw, mt.Elem())
	// facts linking the cardinality
	if !has.bound && has != True && has != False {
		x.addFact(st, Implies(has, Lt(Zero, x.mapCard(st, mt, m))))
	}
	v := mergeIte(has, raw, zeroOf(mt.Elem()))
	val := x.fromTerm(v, mt.Elem())
	if in.CommaOk {
		return &TupleV{[]Value{val, has}}
	}
	return val
}

// mergeIte pushes a choice into constructors.
func mergeIte(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	return mergeTerm(c, a, b)
}

func (x *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term) {
	x.check(st, Ne(m, Zero), "nil", "nilmap", "map is not nil", nil)
	d, vr, c := mapRegion(mt, "dom"), mapRegion(mt, "val"), mapRegion(mt, "card")
	x.noteWrite(st, d, m, nil, nil)
	x.noteWrite(st, vr, m, nil, nil)
	x.noteWrite(st, c, m, nil, nil)
	dom := Select(st.region(d), m)
	has := Select(dom, k)
	card := x.mapCard(st, mt, m)
	st.mem[c.key] = Store(st.region(c), m, Add(card, Ite(has, Zero, One)))
	st.mem[d.key] = Store(st.region(d), m, Store(dom, k, True))
	st.mem[vr.key] = Store(st.region(vr), m, Store(Select(st.region(vr), m), k, v))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	d, c := mapRegion(mt, "dom"), mapRegion(mt, "card")
	x.noteWrite(st, d, m, nil, nil)
	x.noteWrite(st, c, m, nil, nil)
	dom := Select(st.region(d), m)
	has := Select(dom, k)
	card := x.mapCard(st, mt, m)
	if !has.bound {
		x.addFact(st, Implies(has, Lt(Zero, card)))
	}
	st.mem[c.key] = Store(st.region(c), m, Sub(card, Ite(has, One, Zero)))
	st.mem[d.key] = Store(st.region(d), m, Store(dom, k, False))
}

var iterSeq int

func (x *Exec) rangeInstr(st *State, in *ssa.Range) {
	iterSeq++
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(VErr("range over string"))
	}
	m := x.t(st, in.X)
	it := &IterV{id: iterSeq, order: Fresh("iterorder", ArrS(sortOf(mt.Key()), SInt)), m: m, mt: mt, dom0: x.mapDom(st, mt, m), card0: x.mapCard(st, mt, m), key: fmt.Sprintf("iter%d", iterSeq), instr: in}
	st.ghost[it.key] = ConstArr(ArrS(sortOf(mt.Key()), SBool), False)
	st.ghost[it.key+"#n"] = Zero
	x.set(st, in, it)
}

func (x *Exec) nextInstr(st *State, in *ssa.Next, k func(*State, Value)) {
	it, ok := x.val(st, in.Iter).(*IterV)
	if !ok {
		panic(VErr("iterator lost"))
	}
	vis := st.ghost[it.key]
	ks := sortOf(it.mt.Key())
	// exhausted
	s2 := st.clone()
	kv := BVar("kk", ks)
	dom := x.mapDom(s2, it.mt, it.m)
	done := Forall([]*Term{kv}, Implies(And(Select(dom, kv), Select(it.dom0, kv)), Select(vis, kv)), domPats(dom, it.dom0, vis, kv)...)
	x.assume(s2, done)
	// the number of visited keys: what is visited is a part of what was there, and the other way around
	subset := func(st *State, a, b *Term, n, m *Term) {
		w := x.fresh("key", it.mt.Key())
		x.assume(st, Or(And(Select(a, w), Not(Select(b, w))), Le(n, m)))
	}
	cnt := st.ghost[it.key+"#n"]
	x.assume(s2, Le(Zero, cnt))
	subset(s2, vis, it.dom0, cnt, it.card0)
	subset(s2, it.dom0, vis, it.card0, cnt)
	if !s2.dead {
		x.assume(s2, True)
		k(s2, &TupleV{[]Value{False, x.fromTerm(zeroOf(it.mt.Key()), it.mt.Key()), x.fromTerm(zeroOf(it.mt.Elem()), it.mt.Elem())}})
	}
	// another element
	key := x.fresh("key", it.mt.Key())
	has := Select(x.mapDom(st, it.mt, it.m), key)
	x.assume(st, has)
	x.assume(st, Not(Select(vis, key)))
	x.assume(st, Eq(Select(it.order, key), cnt))
	x.assume(st, Lt(Zero, x.mapCard(st, it.mt, it.m)))
	x.assume(st, Ne(it.m, Zero))
	raw := typed(Select(x.mapVal(st, it.mt, it.m), key), it.mt.Elem())
	x.loadedRefs(st, raw, it.mt.Elem())
	if !x.feasible(st, has) {
		return
	}
	st.ghost[it.key] = Store(vis, key, True)
	st.ghost[it.key+"#n"] = Add(cnt, One)
	x.assume(st, Le(Zero, cnt))
	subset(st, st.ghost[it.key], it.dom0, Add(cnt, One), it.card0)
	x.noteGhost(it.key)
	x.noteGhost(it.key + "#n")
	k(st, &TupleV{[]Value{True, x.fromTerm(key, it.mt.Key()), x.fromTerm(raw, it.mt.Elem())}})
}

func domPats(dom, dom0, vis, k *Term) [][]*Term {
	var ps [][]*Term
	for _, a := range []*Term{dom, dom0, vis} {
		e := Select(a, k)
		if e.bound && e.isApp("select") {
			ps = append(ps, []*Term{e})
		}
	}
	return ps
}
