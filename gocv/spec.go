package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- lexer ----

type tok struct {
	k    string // id, num, str, op, eof
	s    string
	line int
	file string
	nl   bool // first token of a line
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	nl := true
	ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", "?", "&"}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad string", file, line)
			}
			out = append(out, tok{"str", s, line, file, nl})
			nl = false
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				fatal("%s:%d: bad char", file, line)
			}
			out = append(out, tok{"num", strconv.Itoa(int(r)), line, file, nl})
			nl = false
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x")) {
				j++
			}
			out = append(out, tok{"num", strings.ReplaceAll(src[i:j], "_", ""), line, file, nl})
			nl = false
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, file, nl})
			nl = false
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line, file, nl})
					nl = false
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				fatal("%s:%d: bad character %q", file, line, c)
			}
		}
	}
	return append(out, tok{"eof", "", line, file, true})
}

// ---- expressions ----

type Expr struct {
	op   string // num str id call sel idx un bin forall exists let ite old
	s    string
	args []*Expr
	vars []Param
	pats [][]*Expr
	line int
}

type Param struct {
	Name string
	Type string
}

func (e *Expr) String() string {
	switch e.op {
	case "num", "id":
		return e.s
	case "str":
		return strconv.Quote(e.s)
	case "call":
		var a []string
		for _, x := range e.args {
			a = append(a, x.String())
		}
		return e.s + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.args[0].String() + "." + e.s
	case "idx":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		return e.args[0].String() + "[..]"
	case "un":
		return e.s + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.s + " " + e.args[1].String() + ")"
	case "forall", "exists":
		var a []string
		for _, x := range e.vars {
			a = append(a, x.Name+" "+x.Type)
		}
		return e.op + " " + strings.Join(a, ", ") + " :: " + e.args[0].String()
	case "let":
		return "let " + e.s + " = " + e.args[0].String() + " in " + e.args[1].String()
	}
	return "?"
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { x := p.t[p.i]; p.i++; return x }
func (p *parser) is(s string) bool {
	return p.peek().s == s && (p.peek().k == "op" || p.peek().k == "id")
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("identifier expected, got %q", t.s)
	}
	return t.s
}
func (p *parser) fail(f string, a ...any) {
	fatal("%s:%d: %s", p.peek().file, p.peek().line, fmt.Sprintf(f, a...))
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

var stmtKw = map[string]bool{"func": true, "extern": true, "props": true, "requires": true, "ensures": true, "modifies": true, "loopinv": true, "unroll": true, "macro": true, "ufun": true, "rec": true, "opaque": true, "axiom": true, "lemma": true, "ghostfield": true, "decreases": true, "use": true, "case": true, "ghost": true, "onsend": true, "ondrop": true, "callback": true, "monitor": true, "onrecv": true, "option": true, "loopuse": true, "mustexist": true, "onmark": true, "hint": true, "type": true, "variant": true, "oncall": true, "hist": true, "atexit": true, "guard": true, "note": true, "ghostvar": true}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}, line: t.line}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Expr{op: "un", s: t.s, args: []*Expr{p.unary()}, line: t.line}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		var vs []Param
		for {
			n := p.id()
			vs = append(vs, Param{n, p.typ()})
			if !p.acc(",") {
				break
			}
		}
		// propagate types backwards: "i, j int" is not supported; each has a type
		var pats [][]*Expr
		for p.acc("{") {
			var ps []*Expr
			ps = append(ps, p.expr(0))
			for p.acc(",") {
				ps = append(ps, p.expr(0))
			}
			p.exp("}")
			pats = append(pats, ps)
		}
		p.exp("::")
		b := p.expr(0)
		return &Expr{op: t.s, vars: vs, pats: pats, args: []*Expr{b}, line: t.line}
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.id()
		p.exp("=")
		a := p.expr(0)
		p.exp("in")
		b := p.expr(0)
		return &Expr{op: "let", s: n, args: []*Expr{a, b}, line: t.line}
	}
	return p.postfix(p.primary())
}

func (p *parser) typ() string {
	if p.acc("[") {
		p.exp("]")
		return "[]" + p.typ()
	}
	if p.acc("*") {
		return "*" + p.typ()
	}
	n := p.id()
	if n == "arr" || n == "set" {
		p.exp("(")
		a := p.typ()
		if p.acc(",") {
			b := p.typ()
			p.exp(")")
			return n + "(" + a + "," + b + ")"
		}
		p.exp(")")
		return n + "(" + a + ")"
	}
	if n == "map" && p.acc("[") {
		k := p.typ()
		p.exp("]")
		return "map[" + k + "]" + p.typ()
	}
	for p.is(".") {
		p.next()
		n += "." + p.id()
	}
	return n
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &Expr{op: "num", s: t.s, line: t.line}
	case "str":
		return &Expr{op: "str", s: t.s, line: t.line}
	case "id":
		if p.is("(") {
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			return &Expr{op: "call", s: t.s, args: as, line: t.line}
		}
		return &Expr{op: "id", s: t.s, line: t.line}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.exp(")")
			return e
		}
	}
	p.i--
	p.fail("unexpected %q in expression", t.s)
	return nil
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			n := p.id()
			if p.is("(") { // qualified call pkg.f(...)
				p.next()
				var as []*Expr
				for !p.is(")") {
					as = append(as, p.expr(0))
					if !p.acc(",") {
						break
					}
				}
				p.exp(")")
				e = &Expr{op: "call", s: e.String() + "." + n, args: as, line: e.line}
			} else {
				e = &Expr{op: "sel", s: n, args: []*Expr{e}, line: e.line}
			}
		case p.is("[") && !p.peek().nl:
			p.next()
			if p.acc(":") {
				hi := p.expr(0)
				p.exp("]")
				e = &Expr{op: "slice", args: []*Expr{e, nil, hi}, line: e.line}
				continue
			}
			i := p.expr(0)
			if p.acc(":") {
				if p.acc("]") {
					e = &Expr{op: "slice", args: []*Expr{e, i, nil}, line: e.line}
					continue
				}
				hi := p.expr(0)
				p.exp("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, hi}, line: e.line}
				continue
			}
			p.exp("]")
			e = &Expr{op: "idx", args: []*Expr{e, i}, line: e.line}
		default:
			return e
		}
	}
}

// ---- contracts ----

type Clause struct {
	Label string
	Props []string // restricts the clause to these properties (empty: all)
	E     *Expr
	Text  string
	File  string
	Line  int
}

type LoopInv struct {
	Metas []Param
	Clause
}

type GhostSet struct {
	Target *Expr
	Val    *Expr
}

type Contract struct {
	Key      string // proxy.ParseId
	Case     string
	Params   []string
	Results  []string
	Extern   bool
	Props    []string
	Helper   bool
	Ghosts   []Param // universally quantified ghost parameters
	Requires []Clause
	Ensures  []Clause
	Modifies []*Expr
	ModAll   bool
	Inv      []LoopInv
	Uses     []*Expr
	LoopUses []LoopInv
	Variants []LoopInv
	Hists    []LoopInv
	Decr     *Expr
	Guards   []Guard
	Unroll   int
	Sets     []GhostSet
	OnSend   []SendSpec
	OnDrop   []SendSpec // a send that is given up because it would block
	OnRecv   []SendSpec
	OnCall   []SendSpec
	Options  map[string]string
	File     string
	Line     int
	Terminates bool
}

type SendSpec struct {
	Chan string // parameter name or expression text
	ChanE *Expr
	Var  string
	Vars []string
	Clause
	Kind string // requires / assume / set
	Target *Expr
}

type Macro struct {
	Name   string
	Params []Param
	Body   *Expr
}

type RecFun struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Expr
	Opaque bool // unfolded only in lemmas and where option reveal names it
}

type Lemma struct {
	Name     string
	Params   []Param
	Requires []*Expr
	Ensures  []*Expr
	Induct   string
	Uses     []*Expr
	Pats     [][]*Expr
	Auto     bool
	Line     int
	File     string
	Props    []string
}

type Note struct{ Prop, Text string }

// Guard: some memory is only accessed while a lock is held.
type Guard struct {
	Lock *Expr
	Mods []*Expr
}

type Monitor struct {
	Lock  string // global name
	Conds []Clause
	Mods  []*Expr
	LockE *Expr
}

type GhostField struct {
	Type, Name, FT string
	Init           *Expr
}

type Spec struct {
	Contracts map[string][]*Contract // by key
	Macros    map[string]*Macro
	Recs      map[string]*RecFun
	UFuns     map[string]*RecFun
	Axioms    []*Lemma
	Lemmas    map[string]*Lemma
	GhostF    map[string]*GhostField // by name
	GhostV    map[string]string      // ghost variables: name -> type
	Monitors  []*Monitor
	Notes     []Note
	Files     []string
}

func LoadSpecs(dir string) *Spec {
	sp := &Spec{Contracts: map[string][]*Contract{}, Macros: map[string]*Macro{}, Recs: map[string]*RecFun{}, UFuns: map[string]*RecFun{}, Lemmas: map[string]*Lemma{}, GhostF: map[string]*GhostField{}, GhostV: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vspec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		sp.Files = append(sp.Files, f)
		p := &parser{t: lex(filepath.Base(f), string(b))}
		sp.parse(p)
	}
	return sp
}

func (p *parser) params() []Param {
	var out []Param
	p.exp("(")
	for !p.is(")") {
		n := p.id()
		ty := "int"
		if !p.is(",") && !p.is(")") {
			ty = p.typ()
		}
		out = append(out, Param{n, ty})
		if !p.acc(",") {
			break
		}
	}
	p.exp(")")
	return out
}

func (p *parser) names() []string {
	var out []string
	p.exp("(")
	for !p.is(")") {
		out = append(out, p.id())
		if !p.acc(",") {
			break
		}
	}
	p.exp(")")
	return out
}

func (p *parser) clause() Clause {
	c := Clause{File: p.peek().file, Line: p.peek().line}
	if p.is("[") {
		p.next()
		c.Label = p.id()
		for p.acc(".") {
			c.Label += "." + p.next().s
		}
		for p.acc(",") {
			c.Props = append(c.Props, p.id())
		}
		p.exp("]")
	}
	c.E = p.expr(0)
	c.Text = c.E.String()
	return c
}

func (sp *Spec) parse(p *parser) {
	var cur *Contract
	var curLemma *Lemma
	for p.peek().k != "eof" {
		t := p.next()
		if t.k != "id" || !stmtKw[t.s] {
			p.i--
			p.fail("statement expected, got %q", t.s)
		}
		switch t.s {
		case "func", "extern":
			curLemma = nil
			key := p.next().s
			if p.t[p.i-1].k != "str" {
				// dotted name
				for p.is(".") {
					p.next()
					key += "." + p.id()
				}
			}
			c := &Contract{Key: key, Extern: t.s == "extern", Options: map[string]string{}, File: t.file, Line: t.line}
			c.Params = p.names()
			if p.is("(") {
				c.Results = p.names()
			}
			cur = c
			sp.Contracts[key] = append(sp.Contracts[key], c)
		case "case":
			cur.Case = p.id()
		case "props":
			for p.peek().k == "id" && !stmtKw[p.peek().s] {
				if curLemma != nil {
					curLemma.Props = append(curLemma.Props, p.id())
				} else {
					cur.Props = append(cur.Props, p.id())
				}
				p.acc(",")
			}
		case "note":
			for {
				pr := p.id()
				more := p.acc(",")
				if !more {
					txt := p.next().s
					for i := len(sp.Notes) - 1; i >= 0 && sp.Notes[i].Text == ""; i-- {
						sp.Notes[i].Text = txt
					}
					sp.Notes = append(sp.Notes, Note{pr, txt})
					break
				}
				sp.Notes = append(sp.Notes, Note{pr, ""})
			}
		case "ghostvar":
			n := p.id()
			sp.GhostV[n] = p.typ()
		case "ghost":
			// ghost x int   (inside func: ghost parameter; at top level: ghost variable)
			n := p.id()
			ty := p.typ()
			if cur != nil && !t.nlTop() {
				cur.Ghosts = append(cur.Ghosts, Param{n, ty})
			}
		case "requires":
			if curLemma != nil {
				curLemma.Requires = append(curLemma.Requires, p.expr(0))
			} else {
				cur.Requires = append(cur.Requires, p.clause())
			}
		case "ensures":
			if curLemma != nil {
				curLemma.Ensures = append(curLemma.Ensures, p.expr(0))
			} else {
				cur.Ensures = append(cur.Ensures, p.clause())
			}
		case "modifies":
			if p.acc("everything") {
				cur.ModAll = true
				break
			}
			if p.acc("nothing") {
				break
			}
			for {
				cur.Modifies = append(cur.Modifies, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
		case "loopinv", "loopuse", "variant", "hist":
			var m []Param
			if p.is("(") && p.t[p.i+1].k == "id" && (p.t[p.i+2].k == "id" || p.t[p.i+2].s == "[" || p.t[p.i+2].s == "*") {
				m = p.params()
			}
			li := LoopInv{Metas: m, Clause: p.clause()}
			switch t.s {
			case "loopinv":
				cur.Inv = append(cur.Inv, li)
			case "loopuse":
				cur.LoopUses = append(cur.LoopUses, li)
			case "variant":
				cur.Variants = append(cur.Variants, li)
			case "hist":
				cur.Hists = append(cur.Hists, li)
			}
		case "unroll":
			n, _ := strconv.Atoi(p.next().s)
			cur.Unroll = n
		case "option":
			k := p.id()
			v := "1"
			if p.acc("=") {
				v = p.next().s
				for p.acc(",") {
					v += "," + p.next().s
				}
			}
			cur.Options[k] = v
		case "decreases":
			cur.Decr = p.expr(0)
		case "guard":
			g := Guard{Lock: p.expr(0)}
			p.exp("protects")
			for {
				g.Mods = append(g.Mods, p.expr(0))
				if !p.acc(",") {
					break
				}
			}
			cur.Guards = append(cur.Guards, g)
		case "atexit":
			tg := p.expr(0)
			p.exp(":=")
			cur.Sets = append(cur.Sets, GhostSet{tg, p.expr(0)})
		case "onsend", "onrecv", "oncall", "ondrop":
			s := SendSpec{}
			s.ChanE = p.postfix(p.primary())
			if s.ChanE.op == "call" {
				s.Chan = s.ChanE.s
				for _, a := range s.ChanE.args {
					s.Vars = append(s.Vars, a.s)
				}
				if len(s.Vars) > 0 {
					s.Var = s.Vars[0]
				}
			} else {
				s.Chan = s.ChanE.String()
			}
			s.Kind = p.id()
			if s.Kind == "set" {
				s.Target = p.expr(0)
				p.exp(":=")
			}
			s.Clause = p.clause()
			switch t.s {
			case "ondrop":
				cur.OnDrop = append(cur.OnDrop, s)
			case "onsend":
				cur.OnSend = append(cur.OnSend, s)
			case "onrecv":
				cur.OnRecv = append(cur.OnRecv, s)
			default:
				cur.OnCall = append(cur.OnCall, s)
			}
		case "macro":
			n := p.id()
			ps := p.params()
			p.exp("=")
			sp.Macros[n] = &Macro{n, ps, p.expr(0)}
		case "rec", "opaque":
			n := p.id()
			ps := p.params()
			rt := p.typ()
			p.exp("=")
			sp.Recs[n] = &RecFun{n, ps, rt, p.expr(0), t.s == "opaque"}
		case "ufun":
			n := p.id()
			ps := p.params()
			rt := p.typ()
			sp.UFuns[n] = &RecFun{n, ps, rt, nil, false}
		case "axiom":
			n := p.id()
			l := &Lemma{Name: n, Line: t.line, File: t.file}
			l.Ensures = []*Expr{p.expr(0)}
			sp.Axioms = append(sp.Axioms, l)
			cur, curLemma = nil, nil
		case "lemma":
			n := p.id()
			l := &Lemma{Name: n, Line: t.line, File: t.file}
			l.Params = p.params()
			if p.acc("induction") {
				l.Induct = p.id()
			}
			if p.acc("auto") {
				l.Auto = true
				for p.acc("{") {
					var ps []*Expr
					ps = append(ps, p.expr(0))
					for p.acc(",") {
						ps = append(ps, p.expr(0))
					}
					p.exp("}")
					l.Pats = append(l.Pats, ps)
				}
			}
			sp.Lemmas[n] = l
			curLemma = l
			cur = nil
		case "use":
			e := p.expr(0)
			if curLemma != nil {
				curLemma.Uses = append(curLemma.Uses, e)
			} else {
				cur.Uses = append(cur.Uses, e)
			}
		case "ghostfield":
			ty := p.typ()
			n := p.id()
			ft := p.typ()
			g := &GhostField{Type: ty, Name: n, FT: ft}
			if p.acc("=") {
				g.Init = p.expr(0)
			}
			sp.GhostF[n] = g
		case "monitor":
			m := &Monitor{}
			m.LockE = p.expr(0)
			m.Lock = m.LockE.String()
			for p.acc("protects") {
				for {
					m.Mods = append(m.Mods, p.expr(0))
					if !p.acc(",") {
						break
					}
				}
			}
			for p.acc("invariant") {
				m.Conds = append(m.Conds, p.clause())
			}
			sp.Monitors = append(sp.Monitors, m)
			cur = nil
		default:
			p.fail("unhandled statement %s", t.s)
		}
	}
}

func (t tok) nlTop() bool { return false }

// prune keeps, of several contracts of one function, the one for the property that is checked.
func (sp *Spec) prune(prop string) {
	for k, cs := range sp.Contracts {
		best := map[string]*Contract{}
		var order []string
		for _, c := range cs {
			b, ok := best[c.Case]
			if !ok {
				order = append(order, c.Case)
			}
			if !ok || !hasProp(b.Props, prop) && hasProp(c.Props, prop) {
				best[c.Case] = c
			}
		}
		if len(order) == len(cs) {
			continue
		}
		var out []*Contract
		for _, o := range order {
			out = append(out, best[o])
		}
		sp.Contracts[k] = out
	}
}
