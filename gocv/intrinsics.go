package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bigZero = big.NewInt(0)
var bigMaxLen = big.NewInt(maxLen)

type intrinsic func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value

var intrinsics map[string]intrinsic

var noopPrefixes = []string{"logrus.", "metrics.", "log."}

func isNoop(key string) bool {
	for _, p := range noopPrefixes {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	switch key {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Printf", "fmt.Println", "strconv.Itoa", "strconv.FormatInt", "strings.Repeat", "strings.Join", "error.Error", "rand.Float64", "time.Ticker.Stop", "time.NewTicker":
		return true
	}
	return false
}

func (x *Exec) noopResult(st *State, key string, res *types.Tuple) Value {
	x.externs[key+" (assumed to have no effect on verified state)"] = true
	v := x.results(st, key, res)
	if p, ok := v.(*PtrV); ok && res.Len() == 1 {
		x.addFact(st, Lt(Zero, p.obj))
	}
	return v
}

func nonNilErr(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
	r := x.results(st, "err", res)
	x.addFact(st, Lt(Zero, r.(*Term)))
	return r
}

func wrapErr(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
	r := x.results(st, "err", res).(*Term)
	e := args[0].(*Term)
	x.addFact(st, Eq(Eq(e, Zero), Eq(r, Zero)))
	return r
}

func init() {
	RegFun("eqfold", SBool, SStr, SStr)
	RegFun("scontains", SBool, SStr, SStr)
	noopM := func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
		return x.noopResult(st, "method", res)
	}
	intrinsics = map[string]intrinsic{
		"errors.New": nonNilErr, "errors.Errorf": nonNilErr, "fmt.Errorf": nonNilErr,
		"errors.WithMessage": wrapErr, "errors.WithMessagef": wrapErr, "errors.Wrap": wrapErr, "errors.Wrapf": wrapErr, "errors.WithStack": wrapErr,
		"metrics.Meter.Mark": noopM, "metrics.Histogram.Update": noopM, "metrics.Gauge.Update": noopM, "error.Error": noopM,
		"metrics.Timer.Update": noopM, "reflect2.Type.String": noopM, "reflect2.ArrayType.String": noopM, "reflect2.SliceType.String": noopM,
		"strings.EqualFold": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return UF("eqfold", x.term(st, args[0], tString), x.term(st, args[1], tString))
		},
		"strings.Contains": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return UF("scontains", x.term(st, args[0], tString), x.term(st, args[1], tString))
		},
		"time.Now": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			t := Fresh("now", SInt)
			x.addFact(st, And(Le(IntB(zeroTimeNs), t), Le(t, IntB(pow2(80)))))
			return t
		},
		"time.Since": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return x.fresh("since", types.Typ[types.Int64])
		},
		"time.Unix": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Add(Mul(IntT(1e9), args[0].(*Term)), args[1].(*Term))
		},
		"time.Time.UnixNano": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return x.norm(st, args[0].(*Term), types.Typ[types.Int64])
		},
		"time.Time.Add": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Add(args[0].(*Term), args[1].(*Term))
		},
		"time.Time.After": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Gt(args[0].(*Term), args[1].(*Term))
		},
		"time.Time.Before": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Lt(args[0].(*Term), args[1].(*Term))
		},
		"time.Time.Equal": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Eq(args[0].(*Term), args[1].(*Term))
		},
		"time.Time.IsZero": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return Eq(args[0].(*Term), IntB(zeroTimeNs))
		},
		"time.Time.Sub": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			d := Sub(args[0].(*Term), args[1].(*Term))
			lo, hi := IntB(new(big.Int).Neg(pow2(63))), IntB(new(big.Int).Sub(pow2(63), big.NewInt(1)))
			return Ite(Le(d, lo), lo, Ite(Le(hi, d), hi, d))
		},
		"time.Duration.Nanoseconds": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return args[0]
		},
		"reflect2.NoEscape": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return args[0]
		},
		"reflect2.UnsafeCastString": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			return x.bytesOfStr(st, x.term(st, args[0], tString), types.Typ[types.Uint8])
		},
		"atomic.AddUint64":  atomicOp,
		"atomic.SwapUint64": atomicOp,
		"atomic.LoadUint64": atomicOp,
		"sync.Mutex.Lock": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			p := args[0].(*PtrV)
			h := x.heldTerm(st, p)
			if x.con.Options["locks"] != "" {
				x.check(st, Not(h), "lock", "locktwice", "the mutex is not already held", nil)
			}
			x.setHeld(st, p, True)
			x.monitor(st, p, true)
			return unit
		},
		"sync.Mutex.Unlock": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			p := args[0].(*PtrV)
			h := x.heldTerm(st, p)
			if x.con.Options["locks"] != "" {
				x.check(st, h, "lock", "unlock", "the mutex is held when it is released", nil)
			}
			x.monitor(st, p, false)
			x.setHeld(st, p, False)
			return unit
		},
		"sync.Pool.Get": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			ty := x.ver.poolType(args[0].(*PtrV))
			if ty == nil {
				panic(VErr("sync.Pool without a known element type"))
			}
			if kindOf(ty) != kPtr {
				panic(VErr("sync.Pool of " + typeKey(ty)))
			}
			// an object nobody else refers to, with arbitrary content
			o := x.newObj(st)
			et := ty.Underlying().(*types.Pointer).Elem()
			if kindOf(et) == kArray {
				// element content is arbitrary
				return x.makeIface(st, ptrTo(et, o, Zero), ty)
			}
			r := memRegion(et)
			m := st.region(r)
			v := x.fresh("pooled", et)
			x.addFact(st, refsBelow(v, et, o))
			st.mem[r.key] = Store(m, o, Store(Select(m, o), Zero, v))
			x.externs["sync.Pool.Get returns an object owned by the caller, with arbitrary content"] = true
			return x.makeIface(st, ptrTo(et, o, Zero), ty)
		},
		"sync.Pool.Put": func(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
			ty := x.ver.poolType(args[0].(*PtrV))
			if ty != nil {
				x.check(st, Eq(UF("ityp", args[1].(*Term)), ifaceTypeID(ty)), "panic", "pooltype", "values put into the pool have the pool's type", nil)
			}
			return unit
		},
		"sort.Search": sortSearch,
		"sort.Slice":  sortSlice,
	}
	intrinsics["sort.SliceStable"] = sortSlice
}

func atomicOp(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
	p := args[0].(*PtrV)
	x.nilCheck(st, p)
	u := types.Typ[types.Uint64]
	v := x.fresh("atomic", u)
	nf := x.noFrame
	x.noFrame = true // statistics counters
	x.storeT(st, p, x.fresh("atomic", u), u)
	x.noFrame = nf
	return v
}

// monitor: acquiring a lock forgets what it protects and brings its invariant, releasing proves it.
func (x *Exec) monitor(st *State, p *PtrV, acquire bool) {
	for _, m := range x.ver.spec.Monitors {
		env := &Env{x: x, st: st, old: st, vars: map[string]SpecVal{}, pkg: x.pkg(), con: x.con}
		var q *PtrV
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(VErr); !ok {
						panic(r)
					}
				}
			}()
			q = env.addrOf(m.LockE)
		}()
		if q == nil {
			continue
		}
		n1, _ := lockName(x, st, p)
		n2, _ := lockName(x, st, q)
		if n1 != n2 {
			continue
		}
		if acquire {
			for _, e := range m.Mods {
				for _, w := range x.targets(env, e) {
					nf := x.noFrame
					x.noFrame = true
					x.havocTarget(st, w)
					x.noFrame = nf
				}
			}
		}
		for _, c := range m.Conds {
			if acquire {
				x.assume(st, env.B(c.E))
			} else {
				x.check(st, env.B(c.E), "inv", "monitor."+c.Label, "lock invariant of "+m.Lock+": "+c.Text, c.Props)
			}
		}
	}
}

// closureOf finds the function behind a function value.
func closureOf(v Value) *FuncV {
	if t, ok := v.(*Term); ok {
		return funcOf(t)
	}
	return nil
}

func sortSearch(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
	n := args[0].(*Term)
	f := closureOf(args[1])
	if f == nil {
		panic(VErr("sort.Search with an unknown function"))
	}
	// the predicate is safe for every index
	h := x.fresh("probe", types.Typ[types.Int])
	s0 := st.clone()
	x.assume(s0, And(Le(Zero, h), Lt(h, n)))
	if !s0.dead {
		if r := x.callFunc(s0, in, f.fn, f.bind, []Value{h}, func(*State, Value) {}); r != nil {
			_ = r
		}
		x.curInstr = in
	}
	r := x.fresh("found", types.Typ[types.Int])
	x.assume(st, And(Le(Zero, r), Or(Le(r, n), And(Lt(n, Zero), Eq(r, Zero)))))
	x.externs["sort.Search (result r in [0,n], predicate true at r, false at r-1)"] = true
	below := func(s *State, k2 func(*State)) {
		if x.feasible(s, Lt(Zero, r)) {
			s1 := s.clone()
			x.assume(s1, Lt(Zero, r))
			after := func(s *State, v Value) {
				x.assume(s, Not(v.(*Term)))
				if !s.dead {
					k2(s)
				}
			}
			if v := x.callFunc(s1, in, f.fn, f.bind, []Value{Sub(r, One)}, after); v != nil {
				after(s1, v)
			}
		}
		if x.feasible(s, Eq(r, Zero)) {
			x.assume(s, Eq(r, Zero))
			k2(s)
		}
	}
	if x.feasible(st, Lt(r, n)) {
		s1 := st.clone()
		x.assume(s1, Lt(r, n))
		after := func(s *State, v Value) {
			x.assume(s, v.(*Term))
			if !s.dead {
				below(s, func(s *State) { x.curInstr = in; k(s, r) })
			}
		}
		if v := x.callFunc(s1, in, f.fn, f.bind, []Value{r}, after); v != nil {
			after(s1, v)
		}
	}
	if x.feasible(st, Le(n, r)) {
		x.assume(st, Le(n, r))
		below(st, func(s *State) { x.curInstr = in; k(s, r) })
	}
	return nil
}

// evalPure runs a pure function value and returns its boolean result as one term.
func (x *Exec) evalPure(st *State, in ssa.Instruction, f *FuncV, args []Value) *Term {
	base := st.fact
	var out []*Term
	var single *Term
	s := st.clone()
	fin := func(s *State, v Value) {
		var cs []*Term
		for fa := s.fact; fa != base; fa = fa.parent {
			cs = append(cs, fa.t)
		}
		single = v.(*Term)
		out = append(out, And(append(cs, single)...))
	}
	if v := x.callFunc(s, in, f.fn, f.bind, args, fin); v != nil {
		fin(s, v)
	}
	if len(out) == 1 {
		return single
	}
	return Or(out...)
}

func sortSlice(x *Exec, st *State, in ssa.Instruction, args []Value, res *types.Tuple, k contFn) Value {
	iv := args[0].(*Term)
	f := closureOf(args[1])
	ty := x.dynType(st, iv)
	if f == nil || ty == nil || !strings.HasPrefix(iv.name, "box_") {
		panic(VErr("sort.Slice with an unknown argument"))
	}
	s := iv.args[1]
	et := ty.Underlying().(*types.Slice).Elem()
	r := memRegion(et)
	x.noteRange(st, r, SlObj(s), SlOff(s), Add(SlOff(s), SlLen(s)))
	m := st.region(r)
	old := Select(m, SlObj(s))
	n := SlLen(s)
	off := SlOff(s)
	na := x.freshArr(st, r, old.sort)
	P, Q := Fresh("perm", ArrS(SInt, SInt)), Fresh("perminv", ArrS(SInt, SInt))
	i := BVar("i_p", SInt)
	es := mustElem(old.sort)
	inR := And(Le(Zero, i), Lt(i, n))
	inA := And(Le(off, i), Lt(i, Add(off, n)))
	sel := func(a, i *Term) *Term { return App("select", mustElem(a.sort), a, i) }
	pi := sel(P, Sub(i, off))
	_ = pi
	// positions are absolute indices into the array
	x.addFact(st, Forall([]*Term{i}, Implies(inA, And(Le(off, sel(P, i)), Lt(sel(P, i), Add(off, n)), Eq(sel(Q, sel(P, i)), i), Eq(sel(na, i), App("select", es, old, sel(P, i))))), []*Term{sel(P, i)}, []*Term{sel(na, i)}))
	x.addFact(st, Forall([]*Term{i}, Implies(inA, And(Le(off, sel(Q, i)), Lt(sel(Q, i), Add(off, n)), Eq(sel(P, sel(Q, i)), i))), []*Term{sel(Q, i)}))
	if o := App("select", es, old, i); true {
		x.addFact(st, Forall([]*Term{i}, Implies(inA, Eq(sel(na, sel(Q, i)), o)), []*Term{o}))
	}
	x.addFact(st, Forall([]*Term{i}, Implies(Not(inA), Eq(sel(na, i), App("select", es, old, i))), []*Term{sel(na, i)}))
	_ = inR
	st.mem[r.key] = Store(m, SlObj(s), na)
	// order: no later element is less than an earlier one
	ci, cj := x.fresh("si", types.Typ[types.Int]), x.fresh("sj", types.Typ[types.Int])
	s2 := st.clone()
	x.assume(s2, And(Le(Zero, ci), Lt(ci, n), Le(Zero, cj), Lt(cj, n)))
	less := x.evalPure(s2, in, f, []Value{cj, ci})
	x.curInstr = in
	bi, bj := BVar("si_b", SInt), BVar("sj_b", SInt)
	lb := Subst(less, map[*Term]*Term{ci: bi, cj: bj})
	body := Implies(And(Le(Zero, bi), Lt(bi, bj), Lt(bj, n)), Not(lb))
	x.addFact(st, mkForall2(bi, bj, body))
	x.externs["sort.Slice (result is a permutation ordered by the less function, which is assumed to be a strict weak order)"] = true
	return unit
}

// mkForall2 rebases both indices.
func mkForall2(a, b, body *Term) *Term {
	for _, v := range []*Term{a, b} {
		direct, rests := indexUses(body, v, []*Term{a, b})
		if direct || len(rests) == 0 {
			continue
		}
		k := BVar(v.name+"r", SInt)
		body = Subst(body, map[*Term]*Term{v: Sub(k, rests[0])})
		if v == a {
			a = k
		} else {
			b = k
		}
	}
	return Forall([]*Term{a, b}, body, autoPats([]*Term{a, b}, body)...)
}
