package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort is an SMT sort in its textual form.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SReal Sort = "Real"
)

func ArrS(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

// elemSort returns the element sort of an array sort.
func (s Sort) arrParts() (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic(VErr("not an array sort: " + str))
	}
	in := str[7 : len(str)-1]
	// split first sort
	depth := 0
	for i, c := range in {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return Sort(in[:i]), Sort(in[i+1:])
		}
	}
	panic(VErr("bad sort " + str))
}

// VErr is a panic payload for "this construct is outside the verifier's reach".
type VErr string

func (e VErr) Error() string { return string(e) }

type Term struct {
	id    int
	op    byte // 'i' int literal, 'v' bound variable, 'c' constant, 'a' application, 'q' quantifier
	name  string
	args  []*Term
	sort  Sort
	iv    *big.Int
	pats  [][]*Term
	bound bool
	size  int
	def   *Term // definition of a constant (for looking through stores)
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
	freshNo = map[string]int{}
)

func intern(t *Term, key string) *Term {
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[key]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.bound {
			t.bound = true
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	termTab[key] = t
	return t
}

func IntB(v *big.Int) *Term {
	return intern(&Term{op: 'i', iv: v, sort: SInt}, "i"+v.String())
}
func IntT(v int64) *Term { return IntB(big.NewInt(v)) }

func app0(name string, s Sort) *Term {
	return intern(&Term{op: 'a', name: name, sort: s}, "a0:"+name+":"+string(s))
}

var True = app0("true", SBool)
var False = app0("false", SBool)
var Zero = IntT(0)
var One = IntT(1)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Const makes (or returns) the named constant.
func Const(name string, s Sort) *Term {
	return intern(&Term{op: 'c', name: name, sort: s}, "c:"+name+":"+string(s))
}

func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	termMu.Lock()
	freshNo[prefix]++
	n := freshNo[prefix]
	termMu.Unlock()
	return Const(fmt.Sprintf("%s!%d", prefix, n), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func BVar(name string, s Sort) *Term {
	t := intern(&Term{op: 'v', name: name, sort: s, bound: true}, "v:"+name+":"+string(s))
	return t
}

// App builds an application without any simplification.
func App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return app0(name, s)
	}
	var k strings.Builder
	k.WriteString("a:")
	k.WriteString(name)
	k.WriteByte(':')
	k.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&k, ",%d", a.id)
	}
	return intern(&Term{op: 'a', name: name, args: append([]*Term(nil), args...), sort: s}, k.String())
}

func (t *Term) isInt() bool { return t.op == 'i' }
func (t *Term) isApp(n string) bool {
	return t.op == 'a' && t.name == n
}
func (t *Term) i64() (int64, bool) {
	if t.op == 'i' && t.iv.IsInt64() {
		return t.iv.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic ----

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.op == 'i':
		l.c.Add(l.c, new(big.Int).Mul(t.iv, k))
	case t.isApp("+"):
		for _, a := range t.args {
			l.add(a, k)
		}
	case t.isApp("*") && len(t.args) == 2 && t.args[0].op == 'i':
		l.add(t.args[1], new(big.Int).Mul(k, t.args[0].iv))
	default:
		o := l.co[t]
		if o == nil {
			o = new(big.Int)
			l.co[t] = o
		}
		o.Add(o, k)
		if o.Sign() == 0 {
			delete(l.co, t)
		}
	}
}

func (l lin) term() *Term {
	var ks []*Term
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, k := range ks {
		c := l.co[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, App("*", SInt, IntB(c), k))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, IntB(new(big.Int).Set(l.c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return App("+", SInt, args...)
}

func Add(ts ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Zero, a) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		l.add(b, a.iv)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("*", SInt, a, b)
}

// Div is SMT-LIB (Euclidean) division.
func Div(a, b *Term) *Term {
	if b.isInt() && b.iv.Sign() != 0 {
		if b.iv.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.isInt() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.iv, b.iv, m)
			return IntB(q)
		}
		if a.isApp("div") && a.args[1].isInt() && a.args[1].iv.Sign() > 0 && b.iv.Sign() > 0 {
			return Div(a.args[0], IntB(new(big.Int).Mul(a.args[1].iv, b.iv)))
		}
		if b.iv.Sign() > 0 {
			if a.isApp("mod") && a.args[1].isInt() && a.args[1].iv.Sign() > 0 && new(big.Int).Mod(a.args[1].iv, b.iv).Sign() == 0 {
				return Mod(Div(a.args[0], b), IntB(new(big.Int).Div(a.args[1].iv, b.iv)))
			}
			// pull out multiples of the divisor
			l := linOf(a)
			out := lin{new(big.Int), map[*Term]*big.Int{}}
			for k, c := range l.co {
				if new(big.Int).Mod(c, b.iv).Sign() == 0 {
					out.co[k] = new(big.Int).Div(c, b.iv)
					delete(l.co, k)
				}
			}
			if q, m := new(big.Int).DivMod(l.c, b.iv, new(big.Int)); q.Sign() != 0 {
				out.c = q
				l.c = m
			}
			if len(out.co) > 0 || out.c.Sign() != 0 {
				return Add(out.term(), Div(l.term(), b))
			}
		}
	}
	return App("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.iv.Sign() > 0 {
		if a.isInt() {
			return IntB(new(big.Int).Mod(a.iv, b.iv))
		}
		if b.iv.Cmp(big.NewInt(1)) == 0 {
			return Zero
		}
		// drop multiples of the modulus
		l := linOf(a)
		ch := false
		for k, c := range l.co {
			m := new(big.Int).Mod(c, b.iv)
			if m.Sign() == 0 {
				delete(l.co, k)
				ch = true
			}
		}
		if c := new(big.Int).Mod(l.c, b.iv); c.Cmp(l.c) != 0 {
			l.c = c
			ch = true
		}
		for k, c := range l.co {
			// a remainder modulo a multiple of b is as good as the number itself
			if k.isApp("mod") && k.args[1].isInt() && k.args[1].iv.Sign() > 0 && new(big.Int).Mod(k.args[1].iv, b.iv).Sign() == 0 {
				delete(l.co, k)
				return Mod(Add(l.term(), Mul(IntB(c), k.args[0])), b)
			}
		}
		if ch {
			return Mod(l.term(), b)
		}
		if a.isApp("mod") && a.args[1].isInt() && a.args[1].iv.Sign() > 0 && new(big.Int).Mod(a.args[1].iv, b.iv).Sign() == 0 {
			return Mod(a.args[0], b)
		}
	}
	if b.isInt() {
		return App("mod", SInt, a, b)
	}
	t := UF("umod", a, b)
	if !t.bound {
		// the facts about an unknown modulus that are needed; the solvers do badly on mod itself
		addTypeFact(t, And(Implies(Lt(Zero, b), And(Le(Zero, t), Lt(t, b))),
			Implies(And(Le(Zero, a), Lt(a, b)), Eq(t, a)),
			Implies(And(Lt(Zero, b), Le(b, a), Lt(a, Add(b, b))), Eq(t, Sub(a, b)))))
	}
	return t
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func diffConst(a, b *Term) (*big.Int, bool) {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	if len(l.co) == 0 {
		return l.c, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := diffConst(a, b); ok {
		return BoolT(d.Sign() <= 0)
	}
	// canonical: move everything so that constants are on the right
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return cmpLin("<=", l)
}
func Lt(a, b *Term) *Term { return Le(Add(a, One), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// cmpLin prints sum(co) + c <= 0 as pos <= neg.
func cmpLin(op string, l lin) *Term {
	p := lin{new(big.Int), map[*Term]*big.Int{}}
	n := lin{new(big.Int), map[*Term]*big.Int{}}
	for k, c := range l.co {
		if c.Sign() > 0 {
			p.co[k] = c
		} else {
			n.co[k] = new(big.Int).Neg(c)
		}
	}
	if l.c.Sign() > 0 {
		p.c.Set(l.c)
	} else {
		n.c.Neg(l.c)
	}
	return App(op, SBool, p.term(), n.term())
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.isApp("not"):
		return a.args[0]
	case a.isApp("<="):
		return Lt(a.args[1], a.args[0])
	}
	return App("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.isApp("and") {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return False
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True {
			return True
		}
		if t == False || seen[t] {
			continue
		}
		if t.isApp("or") {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return App("ite", a.sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(VErr(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.sort, b, b.sort)))
	}
	switch a.sort {
	case SInt:
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		if len(l.co) == 0 {
			return BoolT(l.c.Sign() == 0)
		}
		t := cmpLin("=", l)
		if t.args[0].id > t.args[1].id {
			t = App("=", SBool, t.args[1], t.args[0])
		}
		return t
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SStr:
		if isLit(a) && isLit(b) {
			return False
		}
	}
	if dt, ok := dtOfCons(a); ok {
		if dt2, ok := dtOfCons(b); ok && dt == dt2 {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- arrays ----

// provDistinct reports that a and b are certainly different integers.
func provDistinct(a, b *Term) bool {
	if a.sort != SInt {
		return a.sort == SStr && isLit(a) && isLit(b) && a != b
	}
	d, ok := diffConst(a, b)
	return ok && d.Sign() != 0
}

func Select(arr, i *Term) *Term {
	_, es := arr.sort.arrParts()
	a := arr
	for {
		d := a
		for d.op == 'c' && d.def != nil {
			d = d.def
		}
		if d.isApp("store") {
			if d.args[1] == i {
				return d.args[2]
			}
			if provDistinct(d.args[1], i) {
				a = d.args[0]
				continue
			}
		}
		if d.op == 'a' && strings.HasPrefix(d.name, "(as const") {
			return d.args[0]
		}
		break
	}
	return App("select", es, a, i)
}

func Store(arr, i, v *Term) *Term {
	_, es := arr.sort.arrParts()
	if v.sort != es {
		panic(VErr(fmt.Sprintf("store sort mismatch: %s into %s", v.sort, arr.sort)))
	}
	// overwrite of the same index
	d := arr
	for d.op == 'c' && d.def != nil {
		d = d.def
	}
	if d.isApp("store") && d.args[1] == i {
		arr = d.args[0]
	}
	if v.isApp("select") && v.args[0] == arr && v.args[1] == i {
		return arr
	}
	return App("store", arr.sort, arr, i, v)
}

func ConstArr(s Sort, v *Term) *Term {
	return App("(as const "+string(s)+")", s, v)
}

// ---- quantifiers ----

func Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var k strings.Builder
	k.WriteString("q:" + kind)
	for _, v := range vars {
		fmt.Fprintf(&k, ",%d", v.id)
	}
	fmt.Fprintf(&k, ":%d", body.id)
	for _, p := range pats {
		k.WriteString("|")
		for _, x := range p {
			fmt.Fprintf(&k, ",%d", x.id)
		}
	}
	t := &Term{op: 'q', name: kind, args: append(append([]*Term(nil), vars...), body), sort: SBool, pats: pats}
	t = intern(t, k.String())
	// recompute bound: free bound variables outside vars
	t.bound = hasFree(t, map[*Term]bool{}, map[*Term]bool{})
	return t
}
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return Quant("exists", vars, body, nil) }

func hasFree(t *Term, bnd map[*Term]bool, memo map[*Term]bool) bool {
	if !t.bound && t.op != 'q' {
		return false
	}
	if t.op == 'v' {
		return !bnd[t]
	}
	if t.op == 'q' {
		nb := map[*Term]bool{}
		for k := range bnd {
			nb[k] = true
		}
		for _, v := range t.args[:len(t.args)-1] {
			nb[v] = true
		}
		return hasFree(t.args[len(t.args)-1], nb, map[*Term]bool{})
	}
	if r, ok := memo[t]; ok {
		return r
	}
	for _, a := range t.args {
		if hasFree(a, bnd, memo) {
			memo[t] = true
			return true
		}
	}
	memo[t] = false
	return false
}

// Subst replaces bound variables / constants.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		if !ch && t.op != 'q' {
			r = t
		} else if t.op == 'q' {
			n := len(t.args) - 1
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				pats = append(pats, q)
			}
			r = Quant(t.name, t.args[:n], args[n], pats)
		} else {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.name {
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod", "umod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	if s, ok := selInfo[t.name]; ok {
		return Sel(s.dt, s.idx, a[0])
	}
	return App(t.name, t.sort, a...)
}

// ---- datatypes ----

type DTField struct {
	Sel  string
	Sort Sort
}
type Datatype struct {
	Name   string
	Cons   string
	Fields []DTField
}

var (
	dtMu    sync.Mutex
	dts     = map[string]*Datatype{}
	consTab = map[string]*Datatype{}
	selInfo = map[string]struct {
		dt  *Datatype
		idx int
	}{}
)

func RegDT(name string, fields []DTField) *Datatype {
	dtMu.Lock()
	defer dtMu.Unlock()
	if d, ok := dts[name]; ok {
		return d
	}
	d := &Datatype{name, "mk_" + name, fields}
	dts[name] = d
	consTab[d.Cons] = d
	for i, f := range fields {
		selInfo[f.Sel] = struct {
			dt  *Datatype
			idx int
		}{d, i}
	}
	return d
}

func dtOfCons(t *Term) (*Datatype, bool) {
	if t.op != 'a' || !strings.HasPrefix(t.name, "mk_") {
		return nil, false
	}
	dtMu.Lock()
	defer dtMu.Unlock()
	d, ok := consTab[t.name]
	return d, ok
}

func Cons(d *Datatype, args ...*Term) *Term {
	// mk(sel0(x), sel1(x), ...) == x
	var base *Term
	same := len(args) > 0
	for i, a := range args {
		if a.op == 'a' && len(a.args) == 1 && a.name == d.Fields[i].Sel {
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				same = false
				break
			}
		} else {
			same = false
			break
		}
	}
	if same && base != nil {
		return base
	}
	for i, a := range args {
		if a.sort != d.Fields[i].Sort {
			panic(VErr(fmt.Sprintf("constructor %s field %d: sort %s, want %s", d.Name, i, a.sort, d.Fields[i].Sort)))
		}
	}
	return App(d.Cons, Sort(d.Name), args...)
}

func Sel(d *Datatype, i int, t *Term) *Term {
	x := t
	for x.op == 'c' && x.def != nil {
		x = x.def
	}
	if x.isApp(d.Cons) {
		return x.args[i]
	}
	if x.isApp("ite") {
		_, ok1 := dtOfCons(x.args[1])
		_, ok2 := dtOfCons(x.args[2])
		if ok1 || ok2 {
			return Ite(x.args[0], Sel(d, i, x.args[1]), Sel(d, i, x.args[2]))
		}
	}
	return App(d.Fields[i].Sel, d.Fields[i].Sort, t)
}

// ---- string literals ----

var (
	litMu  sync.Mutex
	litTab = map[string]*Term{}
	litOf  = map[*Term]string{}
	litIdx []string
)

func StrLit(s string) *Term {
	litMu.Lock()
	defer litMu.Unlock()
	if t, ok := litTab[s]; ok {
		return t
	}
	name := fmt.Sprintf("lit!%d", len(litIdx))
	t := Const(name, SStr)
	litTab[s] = t
	litOf[t] = s
	litIdx = append(litIdx, s)
	return t
}
func isLit(t *Term) bool {
	if t.op != 'c' {
		return false
	}
	litMu.Lock()
	defer litMu.Unlock()
	_, ok := litOf[t]
	return ok
}
func litVal(t *Term) (string, bool) {
	litMu.Lock()
	defer litMu.Unlock()
	s, ok := litOf[t]
	return s, ok
}

func SLen(s *Term) *Term {
	if v, ok := litVal(s); ok {
		return IntT(int64(len(v)))
	}
	return App("slen", SInt, s)
}
func SAt(s, i *Term) *Term {
	if v, ok := litVal(s); ok {
		if k, ok := i.i64(); ok && k >= 0 && int(k) < len(v) {
			return IntT(int64(v[k]))
		}
	}
	return App("sat", SInt, s, i)
}

// MkStr is the string with the n bytes of array a starting at offset o.
func MkStr(a, o, n *Term) *Term {
	if n == Zero {
		return StrLit("")
	}
	return App("mkstr", SStr, a, o, n)
}

// ---- printing ----

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil)
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func smtName(n string) string { return n }

func printTerm(b *strings.Builder, t *Term, named map[*Term]string) {
	if named != nil {
		if n, ok := named[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case 'i':
		if t.iv.Sign() < 0 {
			b.WriteString("(- " + new(big.Int).Neg(t.iv).String() + ")")
		} else {
			b.WriteString(t.iv.String())
		}
	case 'v', 'c':
		b.WriteString(t.name)
	case 'a':
		if len(t.args) == 0 {
			b.WriteString(t.name)
			return
		}
		b.WriteByte('(')
		b.WriteString(t.name)
		for _, a := range t.args {
			b.WriteByte(' ')
			printTerm(b, a, named)
		}
		b.WriteByte(')')
	case 'q':
		n := len(t.args) - 1
		b.WriteString("(" + t.name + " (")
		for _, v := range t.args[:n] {
			b.WriteString("(" + v.name + " " + string(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[n], named)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					printTerm(b, x, named)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	}
}
