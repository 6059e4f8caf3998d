package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SpecVal is a value of the specification language; ty is nil for mathematical integers and spec-only sorts.
type SpecVal struct {
	v  Value
	ty types.Type
}

// Env is an evaluation environment for specification expressions.
type Env struct {
	x     *Exec
	st    *State
	old   *State
	pre   *State
	vars  map[string]SpecVal
	pkg   *types.Package
	con   *Contract
	depth int
	res   *State // state after the call in "ensures" evaluated inside old()
	preVars func() map[string]SpecVal
}

func (e *Env) with(n string, v SpecVal) *Env {
	m := make(map[string]SpecVal, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	c := *e
	c.vars = m
	return &c
}

type specErr struct{ msg string }

func (e *Env) fail(ex *Expr, f string, a ...any) {
	where := ""
	if e.con != nil {
		where = e.con.File + ":"
	}
	panic(VErr(fmt.Sprintf("spec %s%d: %s in %s", where, ex.line, fmt.Sprintf(f, a...), ex)))
}

func (e *Env) term(sv SpecVal) *Term {
	if t, ok := sv.v.(*Term); ok {
		return t
	}
	return e.x.term(e.st, sv.v, sv.ty)
}

func (e *Env) T(ex *Expr) *Term { return e.term(e.eval(ex)) }

func (e *Env) B(ex *Expr) *Term {
	t := e.T(ex)
	if t.sort != SBool {
		e.fail(ex, "boolean expected")
	}
	return t
}

func mathInt(t *Term) SpecVal { return SpecVal{t, nil} }

var tString = types.Typ[types.String]
var tBool = types.Typ[types.Bool]

// mk gives a term of type ty as a spec value.
func (e *Env) mk(t *Term, ty types.Type) SpecVal {
	if ty == nil {
		return SpecVal{t, nil}
	}
	typed(t, ty)
	return SpecVal{e.x.fromTerm(t, ty), ty}
}

func (e *Env) eval(ex *Expr) SpecVal {
	switch ex.op {
	case "num":
		n := new(big.Int)
		if _, ok := n.SetString(ex.s, 0); !ok {
			e.fail(ex, "bad number")
		}
		return mathInt(IntB(n))
	case "str":
		return SpecVal{StrLit(ex.s), tString}
	case "id":
		return e.ident(ex)
	case "sel":
		return e.sel(ex)
	case "idx":
		return e.index(ex)
	case "slice":
		return e.slice(ex)
	case "un":
		switch ex.s {
		case "!":
			return SpecVal{Not(e.B(ex.args[0])), tBool}
		case "-":
			return mathInt(Neg(e.T(ex.args[0])))
		case "*":
			v := e.eval(ex.args[0])
			return e.deref(ex, v)
		case "&":
			return e.addr(ex.args[0])
		}
	case "bin":
		return e.bin(ex)
	case "let":
		return e.with(ex.s, e.eval(ex.args[0])).eval(ex.args[1])
	case "forall", "exists":
		return SpecVal{e.quant(ex), tBool}
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.op)
	return SpecVal{}
}

func (e *Env) deref(ex *Expr, v SpecVal) SpecVal {
	p, ok := v.ty.Underlying().(*types.Pointer)
	if !ok {
		e.fail(ex, "not a pointer")
	}
	pv, ok := v.v.(*PtrV)
	if !ok {
		pv = e.x.fromTerm(v.v.(*Term), v.ty).(*PtrV)
	}
	return e.mk(e.x.loadT(e.st, pv, p.Elem()), p.Elem())
}

// addr evaluates an addressable expression to a pointer.
func (e *Env) addr(ex *Expr) SpecVal {
	switch ex.op {
	case "un":
		if ex.s == "*" {
			return e.eval(ex.args[0])
		}
	case "sel":
		if g := e.globalSel(ex); g != nil {
			return SpecVal{&PtrV{cell: e.x.ver.globalCell(g)}, g.Type()}
		}
		var base SpecVal
		b := e.eval0(ex.args[0])
		if b != nil && b.ty != nil && kindOf(b.ty) == kPtr {
			base = *b
		} else {
			base = e.addr(ex.args[0])
		}
		pv := e.ptrv(base)
		et := base.ty.Underlying().(*types.Pointer).Elem()
		st, ok := et.Underlying().(*types.Struct)
		if !ok {
			e.fail(ex, "not a struct")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == ex.s {
				return SpecVal{&PtrV{cell: pv.cell, root: pv.root, obj: pv.obj, idx: pv.idx, path: append(append([]PathElem(nil), pv.path...), PathElem{field: i})}, types.NewPointer(st.Field(i).Type())}
			}
		}
	case "idx":
		b := e.eval(ex.args[0])
		i := e.T(ex.args[1])
		if b.ty != nil && kindOf(b.ty) == kSlice {
			et := b.ty.Underlying().(*types.Slice).Elem()
			s := e.term(b)
			return SpecVal{&PtrV{root: et, obj: SlObj(s), idx: Add(SlOff(s), i)}, types.NewPointer(et)}
		}
		a := e.addr(ex.args[0])
		pv := e.ptrv(a)
		at, ok := a.ty.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ok {
			pv = e.x.resolve(e.st, pv)
			if pv.cell == nil && pv.arr && len(pv.path) == 0 {
				return SpecVal{&PtrV{root: pv.root, obj: pv.obj, idx: Add(pv.idx, i)}, types.NewPointer(at.Elem())}
			}
			return SpecVal{&PtrV{cell: pv.cell, root: pv.root, obj: pv.obj, idx: pv.idx, path: append(append([]PathElem(nil), pv.path...), PathElem{idx: i})}, types.NewPointer(at.Elem())}
		}
	case "id":
		if g := e.globalID(ex.s); g != nil {
			return SpecVal{&PtrV{cell: e.x.ver.globalCell(g)}, g.Type()}
		}
	}
	e.fail(ex, "not addressable")
	return SpecVal{}
}

func (e *Env) eval0(ex *Expr) (r *SpecVal) {
	if ex.op == "id" {
		if _, ok := e.vars[ex.s]; !ok && e.globalID(ex.s) == nil {
			return nil
		}
	}
	v := e.eval(ex)
	return &v
}

func (e *Env) ptrv(v SpecVal) *PtrV {
	if p, ok := v.v.(*PtrV); ok {
		return p
	}
	return e.x.fromTerm(v.v.(*Term), v.ty).(*PtrV)
}

func (e *Env) globalID(n string) *ssa.Global {
	if e.pkg == nil {
		return nil
	}
	p := e.x.ver.prog.Package(e.pkg)
	if p == nil {
		return nil
	}
	g, _ := p.Members[n].(*ssa.Global)
	return g
}

func (e *Env) globalSel(ex *Expr) *ssa.Global {
	if ex.args[0].op != "id" {
		return nil
	}
	if _, ok := e.vars[ex.args[0].s]; ok {
		return nil
	}
	p := e.x.ver.pkgs[ex.args[0].s]
	if p == nil {
		return nil
	}
	g, _ := p.Members[ex.s].(*ssa.Global)
	return g
}

func (e *Env) member(p *ssa.Package, n string, ex *Expr) *SpecVal {
	switch m := p.Members[n].(type) {
	case *ssa.Global:
		pt := m.Type().Underlying().(*types.Pointer).Elem()
		pv := &PtrV{cell: e.x.ver.globalCell(m)}
		r := e.mk(e.x.loadT(e.st, pv, pt), pt)
		return &r
	case *ssa.NamedConst:
		if kindOf(m.Type()) == kInt && m.Value.Value.Kind() != constant.Float {
			v := e.x.constVal(ssa.NewConst(m.Value.Value, m.Type()))
			return &SpecVal{v, nil}
		}
		v := e.x.constVal(ssa.NewConst(m.Value.Value, m.Type()))
		return &SpecVal{v, m.Type()}
	case *ssa.Function:
		return &SpecVal{newFuncV(m, nil), m.Type()}
	}
	return nil
}

func (e *Env) ident(ex *Expr) SpecVal {
	if v, ok := e.vars[ex.s]; ok {
		return v
	}
	switch ex.s {
	case "true":
		return SpecVal{True, tBool}
	case "false":
		return SpecVal{False, tBool}
	case "nil":
		return SpecVal{nil, types.Typ[types.UntypedNil]}
	}
	if ty, ok := e.x.ver.spec.GhostV[ex.s]; ok {
		return e.ghost(e.st, ex.s, ty)
	}
	if e.pkg != nil {
		if p := e.x.ver.prog.Package(e.pkg); p != nil {
			if r := e.member(p, ex.s, ex); r != nil {
				return *r
			}
		}
	}
	e.fail(ex, "unknown name %s", ex.s)
	return SpecVal{}
}

func (e *Env) ghost(st *State, n, ty string) SpecVal {
	s, gt := e.sort(ty)
	k := "g:" + n
	t, ok := st.ghost[k]
	if !ok {
		t = Const("ghost_"+n+"_"+st.epoch0(), s)
		st.ghost[k] = t
	}
	if gt != nil {
		return e.mk(t, gt)
	}
	return SpecVal{t, nil}
}

func (s *State) epoch0() string { return "0" }

// sort resolves the name of a spec type.
func (e *Env) sort(n string) (Sort, types.Type) {
	switch n {
	case "int":
		return SInt, nil
	case "bool":
		return SBool, tBool
	case "string", "str":
		return SStr, tString
	}
	if strings.HasPrefix(n, "arr(") || strings.HasPrefix(n, "set(") {
		in := n[4 : len(n)-1]
		parts := splitTop(in)
		ks, _ := e.sort(parts[0])
		if n[:3] == "set" {
			return ArrS(ks, SBool), nil
		}
		vs := SInt
		if len(parts) > 1 {
			vs, _ = e.sort(parts[1])
			return ArrS(ks, vs), nil
		}
		return ArrS(SInt, ks), nil
	}
	t := e.x.ver.resolveType(n, e.pkg)
	if t == nil {
		panic(VErr("spec: unknown type " + n))
	}
	return sortOf(t), t
}

func splitTop(s string) []string {
	var out []string
	d, b := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[b:i])
				b = i + 1
			}
		}
	}
	return append(out, s[b:])
}

func (e *Env) sel(ex *Expr) SpecVal {
	if ex.args[0].op == "id" {
		if _, ok := e.vars[ex.args[0].s]; !ok {
			if p := e.x.ver.pkgs[ex.args[0].s]; p != nil {
				if r := e.member(p, ex.s, ex); r != nil {
					return *r
				}
				e.fail(ex, "no member %s", ex.s)
			}
		}
	}
	b := e.eval(ex.args[0])
	if b.ty == nil {
		e.fail(ex, "field of a value without type")
	}
	if g, ok := e.x.ver.spec.GhostF[ex.s]; ok {
		return e.ghostField(g, b, ex)
	}
	return e.field(b, ex.s, ex)
}

func (e *Env) ghostField(g *GhostField, b SpecVal, ex *Expr) SpecVal {
	s, gt := e.sort(g.FT)
	k := "gf:" + g.Name
	t, ok := e.st.ghost[k]
	if !ok {
		t = Const("gfield_"+g.Name, ArrS(SInt, s))
		e.st.ghost[k] = t
	}
	v := Select(t, e.objOf(b))
	if gt != nil {
		return e.mk(v, gt)
	}
	return SpecVal{v, nil}
}

// isCell says whether v points to a variable of this function that nothing else has seen.
func (e *Env) isCell(v SpecVal) bool {
	if v.ty == nil || kindOf(v.ty) != kPtr || v.v == nil {
		return false
	}
	p, ok := v.v.(*PtrV)
	return ok && e.x.resolve(e.st, p).cell != nil
}

// objOf is the identity of the object a reference denotes.
func (e *Env) objOf(b SpecVal) *Term {
	switch kindOf(b.ty) {
	case kPtr:
		pv := e.x.resolve(e.st, e.ptrv(b))
		if pv.cell != nil {
			return IntT(-int64(pv.cell.id))
		}
		return pv.obj
	case kSlice:
		return SlObj(e.term(b))
	}
	return e.term(b)
}

func (e *Env) field(b SpecVal, name string, ex *Expr) SpecVal {
	ty := b.ty
	if kindOf(ty) == kPtr {
		pt, ok := ty.Underlying().(*types.Pointer)
		if !ok {
			e.fail(ex, "field of an unsafe pointer")
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			e.fail(ex, "not a struct pointer")
		}
		pv := e.ptrv(b)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == name {
				fp := &PtrV{cell: pv.cell, root: pv.root, obj: pv.obj, idx: pv.idx, path: append(append([]PathElem(nil), pv.path...), PathElem{field: i})}
				return e.mk(e.x.loadT(e.st, fp, f.Type()), f.Type())
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				fp := &PtrV{cell: pv.cell, root: pv.root, obj: pv.obj, idx: pv.idx, path: append(append([]PathElem(nil), pv.path...), PathElem{field: i})}
				return e.field(SpecVal{fp, types.NewPointer(f.Type())}, name, ex)
			}
		}
		e.fail(ex, "no field %s", name)
	}
	st, ok := ty.Underlying().(*types.Struct)
	if !ok {
		e.fail(ex, "field %s of a non-struct %s", name, ty)
	}
	d := dtFor(ty)
	t := e.term(b)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.mk(Sel(d, i, t), st.Field(i).Type())
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			return e.field(e.mk(Sel(d, i, t), st.Field(i).Type()), name, ex)
		}
	}
	e.fail(ex, "no field %s", name)
	return SpecVal{}
}

func (e *Env) index(ex *Expr) SpecVal {
	b := e.eval(ex.args[0])
	if b.ty == nil {
		t := e.term(b)
		k := e.T(ex.args[1])
		r := Select(t, k)
		if r.sort == SBool {
			return SpecVal{r, tBool}
		}
		if r.sort == SStr {
			return SpecVal{r, tString}
		}
		if gt, ok := structOf[string(r.sort)]; ok {
			return SpecVal{r, gt}
		}
		return SpecVal{r, nil}
	}
	switch kindOf(b.ty) {
	case kPtr:
		if at, ok := b.ty.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			_ = at
			return e.index(&Expr{op: "idx", args: []*Expr{{op: "un", s: "*", args: []*Expr{ex.args[0]}, line: ex.line}, ex.args[1]}, line: ex.line})
		}
	case kString:
		return mathInt(SAt(e.term(b), e.T(ex.args[1])))
	case kSlice:
		et := b.ty.Underlying().(*types.Slice).Elem()
		s := e.term(b)
		m := e.st.region(memRegion(et))
		return e.mk(Select(Select(m, SlObj(s)), Add(SlOff(s), e.T(ex.args[1]))), et)
	case kArray:
		et := b.ty.Underlying().(*types.Array).Elem()
		return e.mk(Select(e.term(b), e.T(ex.args[1])), et)
	case kMap:
		mt := b.ty.Underlying().(*types.Map)
		m := e.term(b)
		return e.mk(Select(e.x.mapVal(e.st, mt, m), e.coerce(e.eval(ex.args[1]), mt.Key())), mt.Elem())
	}
	e.fail(ex, "cannot index %s", b.ty)
	return SpecVal{}
}

func (e *Env) slice(ex *Expr) SpecVal {
	b := e.eval(ex.args[0])
	lo := Zero
	if ex.args[1] != nil {
		lo = e.T(ex.args[1])
	}
	switch kindOf(b.ty) {
	case kString:
		s := e.term(b)
		hi := SLen(s)
		if ex.args[2] != nil {
			hi = e.T(ex.args[2])
		}
		return SpecVal{SSub(s, lo, hi), tString}
	case kSlice:
		s := e.term(b)
		hi := SlLen(s)
		if ex.args[2] != nil {
			hi = e.T(ex.args[2])
		}
		return SpecVal{MkSlice(SlObj(s), Add(SlOff(s), lo), Sub(hi, lo), Sub(SlCap(s), lo)), b.ty}
	}
	e.fail(ex, "cannot slice")
	return SpecVal{}
}

// coerce turns a spec value into a term of type ty (nil literals, interfaces).
func (e *Env) coerce(v SpecVal, ty types.Type) *Term {
	if v.v == nil {
		if ty == nil {
			return Zero
		}
		return zeroOf(ty)
	}
	if ty != nil && v.ty != nil && kindOf(ty) == kIface && kindOf(v.ty) != kIface {
		return e.x.makeIface(e.st, v.v, v.ty)
	}
	return e.term(v)
}

func (e *Env) eq(ex *Expr, a, b SpecVal) *Term {
	if a.v == nil && b.v == nil {
		return True
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil {
		switch kindOf(a.ty) {
		case kSlice:
			return Eq(SlObj(e.term(a)), Zero)
		case kPtr:
			return isNilPtr(e.x.resolve(e.st, e.ptrv(a)))
		}
		return Eq(e.term(a), Zero)
	}
	pa, ok1 := a.v.(*PtrV)
	pb, ok2 := b.v.(*PtrV)
	if ok1 && ok2 {
		return e.x.ptrEq(e.st, pa, pb)
	}
	if a.ty != nil && b.ty != nil && (kindOf(a.ty) == kIface) != (kindOf(b.ty) == kIface) {
		if kindOf(a.ty) == kIface {
			return Eq(e.term(a), e.coerce(b, a.ty))
		}
		return Eq(e.coerce(a, b.ty), e.term(b))
	}
	ta, tb := e.term(a), e.term(b)
	if ta.sort != tb.sort {
		e.fail(ex, "comparison of %s and %s", ta.sort, tb.sort)
	}
	if a.ty != nil && kindOf(a.ty) == kStruct && b.ty != nil && !types.Identical(a.ty, b.ty) {
		e.fail(ex, "comparison of different structs")
	}
	if a.ty != nil && kindOf(a.ty) == kStruct && hasBlank(a.ty) {
		return e.x.structEq(ta, tb, a.ty)
	}
	return Eq(ta, tb)
}

func (e *Env) bin(ex *Expr) SpecVal {
	switch ex.s {
	case "==":
		return SpecVal{e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1])), tBool}
	case "!=":
		return SpecVal{Not(e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1]))), tBool}
	case "&&":
		return SpecVal{And(e.B(ex.args[0]), e.B(ex.args[1])), tBool}
	case "||":
		return SpecVal{Or(e.B(ex.args[0]), e.B(ex.args[1])), tBool}
	case "==>":
		a := e.B(ex.args[0])
		if a == False {
			return SpecVal{True, tBool}
		}
		return SpecVal{Implies(a, e.B(ex.args[1])), tBool}
	case "<==>":
		return SpecVal{Eq(e.B(ex.args[0]), e.B(ex.args[1])), tBool}
	}
	va, vb := e.eval(ex.args[0]), e.eval(ex.args[1])
	a, b := e.term(va), e.term(vb)
	if a.sort == SStr && ex.s == "+" {
		return SpecVal{sconcat(a, b), tString}
	}
	if a.sort != SInt || b.sort != SInt {
		e.fail(ex, "integers expected (%s, %s)", a.sort, b.sort)
	}
	switch ex.s {
	case "<":
		return SpecVal{Lt(a, b), tBool}
	case "<=":
		return SpecVal{Le(a, b), tBool}
	case ">":
		return SpecVal{Gt(a, b), tBool}
	case ">=":
		return SpecVal{Ge(a, b), tBool}
	case "+":
		return mathInt(Add(a, b))
	case "-":
		return mathInt(Sub(a, b))
	case "*":
		return mathInt(Mul(a, b))
	case "/":
		return mathInt(Div(a, b))
	case "%":
		return mathInt(Mod(a, b))
	}
	e.fail(ex, "operator")
	return SpecVal{}
}

// literalRange finds literal bounds lo <= v < hi among the conjuncts of ex.
func (e *Env) literalRange(ex *Expr, v string) (lo, hi int64, ok bool) {
	var lok, hok bool
	num := func(x *Expr) (int64, bool) {
		switch x.op {
		case "num":
			t := e.T(x)
			return t.i64()
		}
		return 0, false
	}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x.op != "bin" {
			return
		}
		if x.s == "&&" {
			rec(x.args[0])
			rec(x.args[1])
			return
		}
		a, b := x.args[0], x.args[1]
		isV := func(y *Expr) bool { return y.op == "id" && y.s == v }
		switch {
		case x.s == "<=" && isV(b):
			if n, k := num(a); k {
				lo, lok = n, true
			}
		case x.s == "<" && isV(b):
			if n, k := num(a); k {
				lo, lok = n+1, true
			}
		case x.s == "<" && isV(a):
			if n, k := num(b); k {
				hi, hok = n, true
			}
		case x.s == "<=" && isV(a):
			if n, k := num(b); k {
				hi, hok = n+1, true
			}
		}
	}
	rec(ex)
	return lo, hi, lok && hok
}

func (e *Env) quant(ex *Expr) *Term {
	c := *e
	if len(ex.vars) == 1 && ex.vars[0].Type == "int" && len(ex.pats) == 0 {
		b := ex.args[0]
		var dom *Expr
		if b.op == "bin" && b.s == "==>" && ex.op == "forall" {
			dom = b.args[0]
		} else if ex.op == "exists" {
			dom = b
		}
		if dom != nil {
			if lo, hi, ok := e.literalRange(dom, ex.vars[0].Name); ok && hi-lo <= 64 {
				var ts []*Term
				for i := lo; i < hi; i++ {
					c := *e
					c.vars = make(map[string]SpecVal, len(e.vars)+1)
					for k, v := range e.vars {
						c.vars[k] = v
					}
					c.vars[ex.vars[0].Name] = SpecVal{IntT(i), nil}
					ts = append(ts, c.B(b))
				}
				if ex.op == "exists" {
					return Or(ts...)
				}
				return And(ts...)
			}
		}
	}
	c.vars = make(map[string]SpecVal, len(e.vars)+len(ex.vars))
	for k, v := range e.vars {
		c.vars[k] = v
	}
	c.depth++
	var vs []*Term
	var guards []*Term
	for _, p := range ex.vars {
		s, gt := e.sort(p.Type)
		bv := BVar(fmt.Sprintf("%s_%d", p.Name, c.depth), s)
		vs = append(vs, bv)
		if gt != nil {
			c.vars[p.Name] = SpecVal{e.x.fromTerm(bv, gt), gt}
			if kindOf(gt) == kInt {
				guards = append(guards, wellTyped(bv, gt))
			}
		} else {
			c.vars[p.Name] = SpecVal{bv, nil}
		}
	}
	body := c.B(ex.args[0])
	if body == True || body == False {
		return body
	}
	if ex.op == "exists" {
		return Exists(vs, And(append(guards, body)...))
	}
	g := And(guards...)
	if g != True {
		if body.isApp("=>") {
			body = Implies(And(g, body.args[0]), body.args[1])
		} else {
			body = Implies(g, body)
		}
	}
	var pats [][]*Term
	for _, p := range ex.pats {
		var q []*Term
		for _, a := range p {
			q = append(q, c.T(a))
		}
		pats = append(pats, q)
	}
	return mkForall(vs, body, pats)
}

// mkForall builds a universal quantifier with usable triggers.
func mkForall(vs []*Term, body *Term, pats [][]*Term) *Term {
	if len(pats) > 0 {
		return Forall(vs, body, pats...)
	}
	if body.isApp("and") {
		var cs []*Term
		for _, b := range body.args {
			cs = append(cs, mkForall(vs, b, nil))
		}
		return And(cs...)
	}
	if body.isApp("=>") && body.args[1].isApp("and") {
		var cs []*Term
		for _, b := range body.args[1].args {
			cs = append(cs, mkForall(vs, Implies(body.args[0], b), nil))
		}
		return And(cs...)
	}
	// rebase indices: k = off + i
	for vi, v := range vs {
		if v.sort != SInt {
			continue
		}
		direct, rests := indexUses(body, v, vs)
		if len(rests) == 0 || direct && len(vs) > 1 {
			continue
		}
		var forms []*Term
		if direct {
			forms = append(forms, Forall(vs, body, autoPats(vs, body)...))
		}
		for n, r := range rests {
			if n >= 2 {
				break
			}
			k := BVar(v.name+"r", SInt)
			nb := Subst(body, map[*Term]*Term{v: Sub(k, r)})
			nvs := append([]*Term(nil), vs...)
			nvs[vi] = k
			if direct {
				forms = append(forms, Forall(nvs, nb, autoPats(nvs, nb)...))
			} else {
				forms = append(forms, mkForall(nvs, nb, nil))
			}
		}
		return And(forms...)
	}
	return Forall(vs, body, autoPats(vs, body)...)
}

// indexUses finds the ways the bound variable v occurs as an array index or argument.
func indexUses(body, v *Term, vs []*Term) (direct bool, rests []*Term) {
	seen := map[*Term]bool{}
	isB := map[*Term]bool{}
	for _, b := range vs {
		isB[b] = true
	}
	var walk func(t *Term)
	use := func(a *Term) {
		if a == v {
			direct = true
			return
		}
		if !a.isApp("+") {
			return
		}
		l := linOf(a)
		c := l.co[v]
		if c == nil || c.Cmp(big.NewInt(1)) != 0 {
			return
		}
		for k := range l.co {
			if k != v && k.bound {
				return
			}
		}
		r := Sub(a, v)
		if r == Zero {
			direct = true
			return
		}
		for _, o := range rests {
			if o == r {
				return
			}
		}
		rests = append(rests, r)
	}
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == 'a' {
			if t.isApp("select") {
				use(t.args[1])
			} else if _, ok := funTab[t.name]; ok {
				for _, a := range t.args {
					if a.sort == SInt {
						use(a)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	// constant offsets around a direct use are fine
	return
}

func cleanPat(t *Term) bool {
	// no arithmetic or logic on bound variables inside
	if !t.bound {
		return true
	}
	switch t.op {
	case 'v':
		return true
	case 'a':
		switch t.name {
		case "+", "*", "div", "mod", "<=", "=", "not", "and", "or", "=>", "ite":
			return false
		}
		for _, a := range t.args {
			if !cleanPat(a) {
				return false
			}
		}
		return true
	}
	return false
}

func boundVarsIn(t *Term, vs []*Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		for _, v := range vs {
			if v == t {
				out[v] = true
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func autoPats(vs []*Term, body *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var inner []*Term
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == 'q' {
			if t.name == "exists" {
				inner = append(inner, t.args[:len(t.args)-1]...)
				walk(t.args[len(t.args)-1])
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if len(boundVarsIn(t, inner)) > 0 {
			return
		}
		if t.op == 'a' && len(t.args) > 0 {
			ok := false
			if t.isApp("select") {
				ok = true
			} else if _, is := funTab[t.name]; is {
				ok = true
			}
			if ok && cleanPat(t) {
				cands = append(cands, t)
			}
		}
	}
	walk(body)
	var pats [][]*Term
	full := map[*Term]bool{}
	for _, c := range cands {
		if len(boundVarsIn(c, vs)) == len(vs) {
			// skip a term containing a smaller full pattern
			sub := false
			for f := range full {
				if f != c && contains(c, f) {
					sub = true
				}
			}
			if !sub {
				full[c] = true
				pats = append(pats, []*Term{c})
			}
		}
	}
	if len(pats) > 6 {
		pats = pats[:6]
	}
	if len(pats) > 0 {
		return pats
	}
	// multi-patterns: the first candidates, and if those have a truth value, which the solver does not
	// always match, also the first ones that do not
	build := func(bools bool) []*Term {
		var mp []*Term
		got := map[*Term]bool{}
		for _, c := range cands {
			if c.sort == SBool && !bools {
				continue
			}
			n := 0
			for v := range boundVarsIn(c, vs) {
				if !got[v] {
					n++
				}
			}
			if n > 0 {
				mp = append(mp, c)
				for v := range boundVarsIn(c, vs) {
					got[v] = true
				}
			}
		}
		if len(got) < len(vs) {
			return nil
		}
		return mp
	}
	mp := build(true)
	if len(mp) == 0 {
		return nil
	}
	pats = append(pats, mp)
	for _, c := range mp {
		if c.sort == SBool {
			if mp := build(false); len(mp) > 0 {
				pats = append(pats, mp)
			}
			break
		}
	}
	return pats
}

func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.args {
		if contains(a, s) {
			return true
		}
	}
	return false
}

func (e *Env) call(ex *Expr) SpecVal {
	n := ex.s
	arg := func(i int) *Term { return e.T(ex.args[i]) }
	need := func(k int) {
		if len(ex.args) != k {
			e.fail(ex, "%s takes %d arguments", n, k)
		}
	}
	switch n {
	case "old":
		need(1)
		c := *e
		c.st = e.old
		if e.res == nil {
			c.res = e.st
		}
		return freeze(&c, c.eval(ex.args[0]))
	case "pre":
		need(1)
		if e.pre == nil {
			e.fail(ex, "pre() outside a loop")
		}
		c := *e
		c.st = e.pre
		if e.preVars != nil {
			pv := e.preVars()
			m := map[string]SpecVal{}
			for k, v := range e.vars {
				m[k] = v
			}
			for k, v := range pv {
				m[k] = v
			}
			c.vars = m
			c.preVars = nil
		}
		return freeze(&c, c.eval(ex.args[0]))
	case "now": // the current state inside old()
		c := *e
		if e.res != nil {
			c.st = e.res
		}
		return c.eval(ex.args[0])
	case "len":
		v := e.eval(ex.args[0])
		switch kindOf(v.ty) {
		case kString:
			return mathInt(SLen(e.term(v)))
		case kSlice:
			return mathInt(SlLen(e.term(v)))
		case kMap:
			return mathInt(e.x.mapCard(e.st, v.ty.Underlying().(*types.Map), e.term(v)))
		case kArray:
			return mathInt(IntT(v.ty.Underlying().(*types.Array).Len()))
		}
		e.fail(ex, "len")
	case "cap":
		return mathInt(SlCap(arg(0)))
	case "off":
		return mathInt(SlOff(arg(0)))
	case "obj":
		return mathInt(e.objOf(e.eval(ex.args[0])))
	case "idx":
		return mathInt(e.ptrv(e.eval(ex.args[0])).idx)
	case "has":
		v := e.eval(ex.args[0])
		mt, ok := v.ty.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "has: map expected")
		}
		return SpecVal{Select(e.x.mapDom(e.st, mt, e.term(v)), e.coerce(e.eval(ex.args[1]), mt.Key())), tBool}
	case "dom":
		v := e.eval(ex.args[0])
		return SpecVal{e.x.mapDom(e.st, v.ty.Underlying().(*types.Map), e.term(v)), nil}
	case "vals":
		v := e.eval(ex.args[0])
		return SpecVal{e.x.mapVal(e.st, v.ty.Underlying().(*types.Map), e.term(v)), nil}
	case "visited":
		// visited(it) or visited(it, k)
		v := e.eval(ex.args[0])
		it, ok := v.v.(*IterV)
		if !ok {
			e.fail(ex, "iterator expected")
		}
		g := e.st.ghost[it.key]
		if len(ex.args) == 1 {
			return SpecVal{g, nil}
		}
		return SpecVal{Select(g, arg(1)), tBool}
	case "visits": // the number of visited keys
		v := e.eval(ex.args[0])
		return SpecVal{e.st.ghost[v.v.(*IterV).key+"#n"], nil}
	case "order": // order(it, k): the number of keys that are visited before the key k
		v := e.eval(ex.args[0])
		return SpecVal{Select(v.v.(*IterV).order, arg(1)), nil}
	case "ranged": // the map an iterator ranges over
		v := e.eval(ex.args[0])
		it := v.v.(*IterV)
		return SpecVal{it.m, it.mt}
	case "dom0":
		v := e.eval(ex.args[0])
		it := v.v.(*IterV)
		return SpecVal{it.dom0, nil}
	case "str":
		v := e.eval(ex.args[0])
		if kindOf(v.ty) == kString {
			return v
		}
		s := e.term(v)
		et := v.ty.Underlying().(*types.Slice).Elem()
		return SpecVal{MkStr(Select(e.st.region(memRegion(et)), SlObj(s)), SlOff(s), SlLen(s)), tString}
	case "elems": // content array of the object behind a slice
		v := e.eval(ex.args[0])
		et := v.ty.Underlying().(*types.Slice).Elem()
		return SpecVal{Select(e.st.region(memRegion(et)), SlObj(e.term(v))), nil}
	case "mkstr":
		return SpecVal{MkStr(arg(0), arg(1), arg(2)), tString}
	case "fresh":
		v := e.eval(ex.args[0])
		if e.isCell(v) {
			return SpecVal{True, tBool}
		}
		o := e.objOf(v)
		return SpecVal{Le(e.old.alloc, o), tBool}
	case "alias":
		return mathInt(aliasOf(e.coerce(e.eval(ex.args[0]), tString)))
	case "fresh0":
		return SpecVal{Le(e.old.alloc, e.T(ex.args[0])), tBool}
	case "allocated":
		v := e.eval(ex.args[0])
		if e.isCell(v) {
			return SpecVal{True, tBool}
		}
		return SpecVal{Lt(e.objOf(v), e.st.alloc), tBool}
	case "ite":
		need(3)
		c := e.B(ex.args[0])
		a, b := e.eval(ex.args[1]), e.eval(ex.args[2])
		ty := a.ty
		if ty == nil && b.ty != nil && a.v != nil {
			ty = nil
		}
		if a.v == nil {
			ty = b.ty
		}
		var ta, tb *Term
		ta, tb = e.coerce(a, ty), e.coerce(b, ty)
		r := mergeIte(c, ta, tb)
		if ty == nil {
			return SpecVal{r, nil}
		}
		return SpecVal{e.x.fromTerm(r, ty), ty}
	case "min":
		a, b := arg(0), arg(1)
		return mathInt(Ite(Le(a, b), a, b))
	case "max":
		a, b := arg(0), arg(1)
		return mathInt(Ite(Le(a, b), b, a))
	case "abs":
		a := arg(0)
		return mathInt(Ite(Le(Zero, a), a, Neg(a)))
	case "tdiv": // division truncating towards zero
		a, b := arg(0), arg(1)
		return mathInt(Ite(Le(Zero, a), Div(a, b), Neg(Div(Neg(a), b))))
	case "wrapi64":
		return mathInt(wrapTerm(arg(0), types.Typ[types.Int64]))
	case "wrapu64":
		return mathInt(wrapTerm(arg(0), types.Typ[types.Uint64]))
	case "wrapi32":
		return mathInt(wrapTerm(arg(0), types.Typ[types.Int32]))
	case "p2":
		if k, ok := arg(0).i64(); ok && k >= 0 && k < 4096 {
			return mathInt(IntB(pow2(uint(k))))
		}
		return mathInt(UF("p2", arg(0)))
	case "store":
		return SpecVal{Store(arg(0), arg(1), arg(2)), nil}
	case "emptyset":
		s, _ := e.sort(typeText(ex.args[0]))
		return SpecVal{ConstArr(ArrS(s, SBool), False), nil}
	case "iface": // iface(v): v as an interface value
		v := e.eval(ex.args[0])
		return SpecVal{e.x.makeIface(e.st, v.v, v.ty), types.NewInterfaceType(nil, nil)}
	case "typeis": // typeis(i, "T")
		v := arg(0)
		_, ty := e.sort(ex.args[1].s)
		return SpecVal{And(Ne(v, Zero), Eq(UF("ityp", v), ifaceTypeID(ty))), tBool}
	case "unbox":
		v := arg(0)
		_, ty := e.sort(ex.args[1].s)
		_, u, _ := boxNames(ty)
		return e.mk(UF(u, v), ty)
	case "zero":
		_, ty := e.sort(ex.args[0].s)
		return e.mk(zeroOf(ty), ty)
	case "as": // as(e, "T"): reinterpret the type of an expression
		v := e.eval(ex.args[0])
		_, ty := e.sort(ex.args[1].s)
		if p, ok := v.v.(*PtrV); ok && kindOf(ty) == kPtr {
			if p.cell == nil && len(p.path) == 0 {
				return SpecVal{ptrTo(ty.Underlying().(*types.Pointer).Elem(), p.obj, p.idx), ty}
			}
			return SpecVal{p, ty}
		}
		return e.mk(e.term(v), ty)
	case "held":
		return SpecVal{e.x.heldTerm(e.st, e.addrOf(ex.args[0])), tBool}
	case "heldonly", "heldsame":
		// the locks that are held are those at the entry, with (heldonly) or without (heldsame) this one
		p := e.addrOf(ex.args[0])
		h := e.x.heldTerm(e.st, p)
		key, o := lockName(e.x, e.st, p)
		if o == nil {
			return SpecVal{Eq(h, map[bool]*Term{true: True, false: Const(sanitize("held_"+key), SBool)}[n == "heldonly"]), tBool}
		}
		t := e.st.ghost[key]
		h0 := Const(sanitize("held_"+key), t.sort)
		if n == "heldonly" {
			h0 = Store(h0, o, True)
		}
		return SpecVal{Eq(t, h0), tBool}
	case "app": // app("f", args): result of a known pure function value
	}
	if m, ok := e.x.ver.spec.Macros[n]; ok {
		if len(m.Params) != len(ex.args) {
			e.fail(ex, "macro %s takes %d arguments", n, len(m.Params))
		}
		c := *e
		c.vars = map[string]SpecVal{}
		for i, p := range m.Params {
			c.vars[p.Name] = e.eval(ex.args[i])
		}
		return c.eval(m.Body)
	}
	if l, ok := e.x.ver.spec.Lemmas[n]; ok {
		e.x.ver.needLemmas[n] = true
		if len(l.Params) != len(ex.args) {
			e.fail(ex, "lemma %s takes %d arguments", n, len(l.Params))
		}
		c := *e
		c.vars = map[string]SpecVal{}
		for i, p := range l.Params {
			_, gt := e.sort(p.Type)
			v := e.eval(ex.args[i])
			if gt != nil {
				v = e.mk(e.coerce(v, gt), gt)
			} else {
				v = SpecVal{e.coerce(v, nil), nil}
			}
			c.vars[p.Name] = v
		}
		return SpecVal{c.lemmaBody(l), tBool}
	}
	if r, ok := e.x.ver.spec.Recs[n]; ok {
		return e.applyRec(r, ex, true)
	}
	if r, ok := e.x.ver.spec.UFuns[n]; ok {
		return e.applyRec(r, ex, false)
	}
	e.fail(ex, "unknown function %s", n)
	return SpecVal{}
}

func typeText(x *Expr) string { return x.s }

func (e *Env) addrOf(ex *Expr) *PtrV { return e.ptrv(e.addr(ex)) }

// freeze fixes a value read in another state (pointers to cells stay symbolic).
func freeze(e *Env, v SpecVal) SpecVal {
	if p, ok := v.v.(*PtrV); ok && p.cell == nil {
		return v
	}
	return v
}

func (e *Env) applyRec(r *RecFun, ex *Expr, isRec bool) SpecVal {
	e.x.ver.declareRec(e, r, isRec)
	if len(ex.args) != len(r.Params) {
		e.fail(ex, "%s takes %d arguments", r.Name, len(r.Params))
	}
	var as []*Term
	for i, a := range ex.args {
		_, pt := e.sort(r.Params[i].Type)
		as = append(as, e.coerce(e.eval(a), pt))
	}
	t := UF("sf_"+r.Name, as...)
	_, gt := e.sort(r.Ret)
	if gt != nil {
		return e.mk(t, gt)
	}
	return SpecVal{t, nil}
}

type recDef struct {
	name   string
	opaque bool
	params []*Term
	body   *Term
}

var recDefs = map[string]*recDef{}

func (v *Verifier) declareRec(e *Env, r *RecFun, isRec bool) {
	name := "sf_" + r.Name
	if v.declared[name] {
		return
	}
	v.declared[name] = true
	var ss []Sort
	for _, p := range r.Params {
		s, _ := e.sort(p.Type)
		ss = append(ss, s)
	}
	rs, _ := e.sort(r.Ret)
	RegFun(name, rs, ss...)
	if !isRec {
		return
	}
	c := &Env{x: e.x, st: e.st, old: e.old, vars: map[string]SpecVal{}, pkg: e.pkg, depth: 100, con: &Contract{File: "rec " + r.Name}}
	d := &recDef{}
	for i, p := range r.Params {
		bv := BVar("rp_"+r.Name+"_"+p.Name, ss[i])
		_, gt := e.sort(p.Type)
		d.params = append(d.params, bv)
		if gt != nil {
			c.vars[p.Name] = SpecVal{e.x.fromTerm(bv, gt), gt}
		} else {
			c.vars[p.Name] = SpecVal{bv, nil}
		}
	}
	recDefs[name] = d
	d.opaque = r.Opaque
	d.name = r.Name
	_, rt := e.sort(r.Ret)
	d.body = c.coerce(c.eval(r.Body), rt)
	if d.body.sort != rs {
		panic(VErr("rec " + r.Name + ": body has sort " + string(d.body.sort)))
	}
}

// ---- ground instances of definitions ----

var instDone = map[*Term]bool{}

// instances makes definitions available for the ground applications in t.
func (x *Exec) instances(t *Term) []*Term {
	x.unfold(t, 0)
	return nil
}

var instSeen = map[*Term]bool{}

func (x *Exec) unfold(t *Term, depth int) {
	if instSeen[t] {
		return
	}
	if t.op != 'q' {
		instSeen[t] = true
	}
	for _, a := range t.args {
		x.unfold(a, depth)
	}
	if t.op == 'q' || t.bound || t.op != 'a' {
		return
	}
	if t.name == "=" && t.args[0].sort == SStr {
		strExt(t)
		return
	}
	if rd, ok := recDefs[t.name]; ok && !instDone[t] {
		if rd.opaque && !strings.HasPrefix(x.con.Key, "lemma ") && !strings.Contains(","+x.con.Options["reveal"]+",", ","+rd.name+",") && !x.isLemma {
			delete(instSeen, t)
			return
		}
		instDone[t] = true
		m := map[*Term]*Term{}
		for i, p := range rd.params {
			m[p] = t.args[i]
		}
		body := Subst(rd.body, m)
		eq := Eq(t, body)
		addTypeFact(t, eq)
		if depth < 40 && !body.isApp("ite") {
			x.unfold(body, depth+1)
		} else {
			// boolean connectives etc. inside are processed only for string equalities
			x.strEqs(body)
		}
	}
}

func (x *Exec) strEqs(t *Term) {
	if t.op == 'q' || t.bound {
		return
	}
	if t.isApp("=") && t.args[0].sort == SStr {
		if !strExtSeen[t] {
			strExt(t)
		}
	}
	for _, a := range t.args {
		x.strEqs(a)
	}
}

var strExtSeen = map[*Term]bool{}

// strExt: strings that differ have different lengths or differ at some position.
func strExt(t *Term) {
	if strExtSeen[t] {
		return
	}
	strExtSeen[t] = true
	a, b := t.args[0], t.args[1]
	d := UF("strext", a, b)
	addTypeFact(t, Or(t, Ne(SLen(a), SLen(b)), And(Le(Zero, d), Lt(d, SLen(a)), Ne(SAt(a, d), SAt(b, d)))))
}

// hasBlank reports whether a struct type has blank fields, which comparisons ignore.
func hasBlank(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "_" || hasBlank(s.Field(i).Type()) {
			return true
		}
	}
	return false
}
