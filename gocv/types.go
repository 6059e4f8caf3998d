package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"
)

// ---- encoding of Go types as SMT sorts ----

var ptrDT = RegDT("Ptr", []DTField{{"p_obj", SInt}, {"p_idx", SInt}})
var sliceDT = RegDT("Slice", []DTField{{"sl_obj", SInt}, {"sl_off", SInt}, {"sl_len", SInt}, {"sl_cap", SInt}})

const SPtr Sort = "Ptr"
const SSlice Sort = "Slice"

var nilPtr = Cons(ptrDT, Zero, Zero)
var nilSlice = Cons(sliceDT, Zero, Zero, Zero, Zero)

func PObj(p *Term) *Term { return Sel(ptrDT, 0, p) }
func PIdx(p *Term) *Term { return Sel(ptrDT, 1, p) }
func SlObj(s *Term) *Term { return Sel(sliceDT, 0, s) }
func SlOff(s *Term) *Term { return Sel(sliceDT, 1, s) }
func SlLen(s *Term) *Term { return Sel(sliceDT, 2, s) }
func SlCap(s *Term) *Term { return Sel(sliceDT, 3, s) }
func MkSlice(o, off, l, c *Term) *Term { return Cons(sliceDT, o, off, l, c) }

type tkind int

const (
	kInt tkind = iota
	kBool
	kString
	kFloat
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kOpaque // modelled as an Int without structure
	kTuple
)

// opaque named types modelled by a single integer
var opaqueTypes = map[string]bool{
	"time.Time": true, "sync.Mutex": true, "sync.Pool": true, "sync.RWMutex": true, "sync.Once": true,
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Name() + "." + o.Name()
	}
	return ""
}

func kindOf(t types.Type) tkind {
	t = types.Unalias(t)
	if opaqueTypes[typeName(t)] {
		return kOpaque
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return kPtr
		case u.Info()&types.IsInteger != 0:
			return kInt
		case u.Info()&types.IsBoolean != 0:
			return kBool
		case u.Info()&types.IsString != 0:
			return kString
		case u.Info()&types.IsFloat != 0:
			return kFloat
		case u.Kind() == types.UntypedNil:
			return kPtr
		}
		return kOpaque
	case *types.Pointer:
		return kPtr
	case *types.Slice:
		return kSlice
	case *types.Map:
		return kMap
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kIface
	case *types.Struct:
		return kStruct
	case *types.Array:
		return kArray
	case *types.Tuple:
		return kTuple
	}
	return kOpaque
}

var sortMu sync.Mutex
var structDTs = map[string]*Datatype{}
var structOf = map[string]types.Type{} // datatype name -> Go type

func qual(p *types.Package) string { return p.Name() }

// typeKey is a canonical short text of a type.
func typeKey(t types.Type) string {
	return normType(types.TypeString(types.Unalias(t), qual))
}

var byteRe = regexp.MustCompile(`\bbyte\b`)
var runeRe = regexp.MustCompile(`\brune\b`)
var anyRe = regexp.MustCompile(`\bany\b`)

func normType(s string) string {
	if strings.Contains(s, "byte") {
		s = byteRe.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = runeRe.ReplaceAllString(s, "int32")
	}
	if strings.Contains(s, "any") {
		s = anyRe.ReplaceAllString(s, "interface{}")
	}
	return s
}

func sortOf(t types.Type) Sort {
	switch kindOf(t) {
	case kBool:
		return SBool
	case kString:
		return SStr
	case kPtr:
		return SPtr
	case kSlice:
		return SSlice
	case kStruct:
		return Sort(dtFor(t).Name)
	case kArray:
		return ArrS(SInt, sortOf(t.Underlying().(*types.Array).Elem()))
	}
	return SInt
}

func dtFor(t types.Type) *Datatype {
	// named types sharing an underlying struct are converted field by field
	key := typeKey(t)
	sortMu.Lock()
	if d, ok := structDTs[key]; ok {
		sortMu.Unlock()
		return d
	}
	sortMu.Unlock()
	st := t.Underlying().(*types.Struct)
	name := "S_" + sanitize(key)
	if len(name) > 60 {
		name = fmt.Sprintf("S_anon%d", len(structDTs))
	}
	var fs []DTField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := SInt
		if f.Name() != "_" {
			s = sortOf(f.Type())
		}
		fs = append(fs, DTField{fmt.Sprintf("%s$%d_%s", name, i, sanitize(f.Name())), s})
	}
	if len(fs) == 0 {
		fs = append(fs, DTField{name + "$unit", SInt})
	}
	d := RegDT(name, fs)
	sortMu.Lock()
	structDTs[key] = d
	structOf[name] = t
	sortMu.Unlock()
	return d
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return nil, nil, false
	}
	if signed {
		return new(big.Int).Neg(pow2(uint(bits - 1))), new(big.Int).Sub(pow2(uint(bits-1)), big.NewInt(1)), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(uint(bits)), big.NewInt(1)), true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

const maxLen = int64(1) << 47

// ---- facts that hold of every well-typed value ----

var (
	tfMu     sync.Mutex
	typeFact = map[*Term][]*Term{} // asserted by the emitter whenever the term is declared
	termRng  = map[*Term][2]*big.Int{}
	tfLog    []*Term // terms in the order facts were added
)

func setRange(t *Term, lo, hi *big.Int) {
	if t.op == 'i' || t.bound {
		return
	}
	if t.op == 'a' {
		switch t.name {
		case "+", "*", "div", "mod", "ite":
			return
		}
	}
	tfMu.Lock()
	defer tfMu.Unlock()
	if old, ok := termRng[t]; ok {
		if old[0].Cmp(lo) >= 0 && old[1].Cmp(hi) <= 0 {
			return
		}
		if old[0].Cmp(lo) > 0 {
			lo = old[0]
		}
		if old[1].Cmp(hi) < 0 {
			hi = old[1]
		}
	}
	termRng[t] = [2]*big.Int{lo, hi}
	f := And(Le(IntB(lo), t), Le(t, IntB(hi)))
	if f != True {
		typeFact[t] = append(typeFact[t], f)
		tfLog = append(tfLog, t)
	}
}

func addTypeFact(t *Term, f *Term) {
	if f == True || t.bound {
		return
	}
	tfMu.Lock()
	defer tfMu.Unlock()
	for _, o := range typeFact[t] {
		if o == f {
			return
		}
	}
	typeFact[t] = append(typeFact[t], f)
	tfLog = append(tfLog, t)
}

// typed registers the type invariants of term t of Go type ty and returns t.
func typed(t *Term, ty types.Type) *Term {
	if t.bound {
		return t
	}
	if ty == nil {
		return t
	}
	switch kindOf(ty) {
	case kInt:
		if lo, hi, ok := intRange(ty); ok {
			setRange(t, lo, hi)
		}
	case kSlice:
		if _, isc := dtOfCons(t); !isc && !(t.isApp("ite")) {
			o, f, l, c := SlObj(t), SlOff(t), SlLen(t), SlCap(t)
			z, m := big.NewInt(0), big.NewInt(maxLen)
			setRange(o, z, pow2(62))
			setRange(f, z, m)
			setRange(l, z, m)
			setRange(c, z, m)
			addTypeFact(l, Le(l, c))
			addTypeFact(o, Implies(Eq(o, Zero), Eq(c, Zero)))
			addTypeFact(o, Implies(Eq(o, Zero), Eq(f, Zero)))
		}
	case kPtr:
		if _, isc := dtOfCons(t); !isc && !(t.isApp("ite")) {
			setRange(PObj(t), big.NewInt(0), pow2(62))
			setRange(PIdx(t), big.NewInt(0), big.NewInt(maxLen))
			addTypeFact(PObj(t), Implies(Eq(PObj(t), Zero), Eq(PIdx(t), Zero)))
		}
	case kMap, kChan, kIface:
		setRange(t, big.NewInt(0), pow2(62))
	case kStruct:
		if t.isApp("ite") {
			break
		}
		st := ty.Underlying().(*types.Struct)
		d := dtFor(ty)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			typed(Sel(d, i, t), st.Field(i).Type())
		}
	}
	return t
}

// wellTyped is the type invariant as a formula (used under quantifiers).
func wellTyped(t *Term, ty types.Type) *Term {
	switch kindOf(ty) {
	case kInt:
		if lo, hi, ok := intRange(ty); ok {
			return And(Le(IntB(lo), t), Le(t, IntB(hi)))
		}
	case kSlice:
		return And(Le(Zero, SlObj(t)), Le(Zero, SlOff(t)), Le(Zero, SlLen(t)), Le(SlLen(t), SlCap(t)), Le(SlCap(t), IntT(maxLen)), Le(SlOff(t), IntT(maxLen)), Implies(Eq(SlObj(t), Zero), And(Eq(SlCap(t), Zero), Eq(SlOff(t), Zero))))
	case kPtr:
		return And(Le(Zero, PObj(t)), Le(Zero, PIdx(t)), Implies(Eq(PObj(t), Zero), Eq(PIdx(t), Zero)))
	case kMap, kChan, kIface:
		return Le(Zero, t)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		d := dtFor(ty)
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, wellTyped(Sel(d, i, t), st.Field(i).Type()))
		}
		return And(cs...)
	}
	return True
}

// refsBelow says that every reference inside t denotes an object below bound.
func refsBelow(t *Term, ty types.Type, a *Term) *Term {
	switch kindOf(ty) {
	case kSlice:
		return Lt(SlObj(t), a)
	case kPtr:
		return Lt(PObj(t), a)
	case kMap, kChan:
		return Lt(t, a)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		d := dtFor(ty)
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, refsBelow(Sel(d, i, t), st.Field(i).Type(), a))
		}
		return And(cs...)
	}
	return True
}

func zeroOf(ty types.Type) *Term {
	switch kindOf(ty) {
	case kBool:
		return False
	case kString:
		return StrLit("")
	case kPtr:
		return nilPtr
	case kSlice:
		return nilSlice
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		d := dtFor(ty)
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				as = append(as, Zero)
			} else {
				as = append(as, zeroOf(st.Field(i).Type()))
			}
		}
		if st.NumFields() == 0 {
			as = append(as, Zero)
		}
		return Cons(d, as...)
	case kArray:
		return ConstArr(sortOf(ty), zeroOf(ty.Underlying().(*types.Array).Elem()))
	case kOpaque:
		if typeName(ty) == "time.Time" {
			return IntB(zeroTimeNs)
		}
	}
	return Zero
}

var zeroTimeNs, _ = new(big.Int).SetString("-62135596800000000000", 10)

// ---- interval analysis on terms ----

func rangeOf(t *Term, depth int) (lo, hi *big.Int) {
	if t.op == 'i' {
		return t.iv, t.iv
	}
	if depth > 12 {
		return nil, nil
	}
	tfMu.Lock()
	r, ok := termRng[t]
	tfMu.Unlock()
	if ok {
		return r[0], r[1]
	}
	switch {
	case t.op == 'c' && t.def != nil && t.def != t:
		return rangeOf(t.def, depth+1)
	case t.isApp("+"):
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := rangeOf(a, depth+1)
			if lo != nil && l != nil {
				lo.Add(lo, l)
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, h)
			} else {
				hi = nil
			}
			if lo == nil && hi == nil {
				return
			}
		}
		return
	case t.isApp("*"):
		l1, h1 := rangeOf(t.args[0], depth+1)
		l2, h2 := rangeOf(t.args[1], depth+1)
		if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
			return nil, nil
		}
		for _, x := range []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)} {
			if lo == nil || x.Cmp(lo) < 0 {
				lo = x
			}
			if hi == nil || x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return
	case t.isApp("mod") && t.args[1].isInt() && t.args[1].iv.Sign() > 0:
		m := new(big.Int).Sub(t.args[1].iv, big.NewInt(1))
		l, h := rangeOf(t.args[0], depth+1)
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m) <= 0 {
			return l, h
		}
		return big.NewInt(0), m
	case t.isApp("div") && t.args[1].isInt() && t.args[1].iv.Sign() > 0:
		l, h := rangeOf(t.args[0], depth+1)
		if l != nil {
			lo, _ = new(big.Int).DivMod(l, t.args[1].iv, new(big.Int))
		}
		if h != nil {
			hi, _ = new(big.Int).DivMod(h, t.args[1].iv, new(big.Int))
		}
		return
	case t.isApp("ite"):
		l1, h1 := rangeOf(t.args[1], depth+1)
		l2, h2 := rangeOf(t.args[2], depth+1)
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case t.isApp("slen"):
		return big.NewInt(0), big.NewInt(maxLen)
	case t.isApp("sat"):
		return big.NewInt(0), big.NewInt(255)
	}
	return nil, nil
}

func inRange(t *Term, lo, hi *big.Int) bool {
	l, h := rangeOf(t, 0)
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// wrapTo reduces an exact integer to the machine type.
func wrapTerm(t *Term, ty types.Type) *Term {
	b := ty.Underlying().(*types.Basic)
	bits, signed := intBits(b)
	m := IntB(pow2(uint(bits)))
	if !signed {
		return Mod(t, m)
	}
	h := IntB(pow2(uint(bits - 1)))
	return Sub(Mod(Add(t, h), m), h)
}

func specTypeMatches(want string, t types.Type) bool {
	if want == "any" {
		return true
	}
	want = normType(want)
	k := typeKey(t)
	if k == want {
		return true
	}
	if m, ok := t.Underlying().(*types.Map); ok && strings.HasPrefix(want, "map[") {
		// the type may be written with aliases
		if want == "map["+typeKey(m.Key())+"]"+typeKey(m.Elem()) {
			return true
		}
	}
	if want == "slice" {
		return kindOf(t) == kSlice
	}
	if want == "str" {
		return kindOf(t) == kString
	}
	if want == "map" {
		return kindOf(t) == kMap
	}
	if want == "ptr" {
		return kindOf(t) == kPtr
	}
	if want == "bytes" && kindOf(t) == kSlice {
		return typeKey(t.Underlying()) == "[]uint8"
	}
	u := typeKey(t.Underlying())
	if u == want {
		return true
	}
	if want == "byte" && u == "uint8" {
		return true
	}
	if want == "num" {
		return kindOf(t) == kInt
	}
	// elements given by short name: []Span matches []proxy.Span
	strip := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '.' {
				// drop the qualifier
				x := b.String()
				j := len(x)
				for j > 0 && (x[j-1] >= 'a' && x[j-1] <= 'z' || x[j-1] >= 'A' && x[j-1] <= 'Z' || x[j-1] >= '0' && x[j-1] <= '9' || x[j-1] == '_') {
					j--
				}
				b.Reset()
				b.WriteString(x[:j])
				continue
			}
			b.WriteByte(s[i])
		}
		return b.String()
	}
	return strip(k) == want || strip(u) == want
}
