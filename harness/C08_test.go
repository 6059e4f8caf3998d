// verif pkg=./codec/hyperjson always
package hyperjson

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/modern-go/reflect2"
)

type vc08Inner struct {
	Name string
	N    uint64
}

type vc08Target struct {
	Guard0 uint64
	A      string
	Aa     string
	B      uint64
	C      map[string]string
	D      []vc08Inner
	Guard1 uint64
	E      [3]uint64
	Guard2 uint64
	F      vc08Inner
	G      []string
	H      [2]vc08Inner
	I      struct{ Only string }
	Guard3 uint64
}

func vc08Off(f string) uintptr { return OffsetOf(vc08Target{}, f) }

// clears what it decodes into, as the decoders of spans do
func vc08Clear(d ValueDecoder) ValueDecoder {
	return func(target unsafe.Pointer, p *Parser) error {
		*(*vc08Inner)(target) = vc08Inner{}
		return d(target, p)
	}
}

var vc08InnerDec = MakeStructDecoder([]Field{
	{JsonName: "name", Offset: OffsetOf(vc08Inner{}, "Name"), Decoder: StringValueDecoder},
	{JsonName: "n", Offset: OffsetOf(vc08Inner{}, "N"), Decoder: Uint64ValueDecoder},
})

var vc08Dec = MakeStructDecoder([]Field{
	{JsonName: "a", Offset: vc08Off("A"), Decoder: StringValueDecoder},
	{JsonName: "aa", Offset: vc08Off("Aa"), Decoder: StringValueDecoder},
	{JsonName: "b", Offset: vc08Off("B"), Decoder: Uint64ValueDecoder},
	{JsonName: "tags", Offset: vc08Off("C"), Decoder: MakeMapDecoder(StringValueDecoder, StringValueDecoder)},
	{JsonName: "list", Offset: vc08Off("D"), Decoder: MakeSliceDecoder(reflect2.TypeOf([]vc08Inner{}).(reflect2.SliceType), vc08Clear(vc08InnerDec))},
	{JsonName: "fix", Offset: vc08Off("E"), Decoder: MakeArrayDecoder(reflect2.TypeOf([3]uint64{}).(reflect2.ArrayType), Uint64ValueDecoder)},
	{JsonName: "inner", Offset: vc08Off("F"), Decoder: vc08InnerDec},
	{JsonName: "strs", Offset: vc08Off("G"), Decoder: MakeSliceDecoder(reflect2.TypeOf([]string{}).(reflect2.SliceType), StringValueDecoder)},
	{JsonName: "two", Offset: vc08Off("H"), Decoder: MakeArrayDecoder(reflect2.TypeOf([2]vc08Inner{}).(reflect2.ArrayType), vc08InnerDec)},
	{JsonName: "one", Offset: vc08Off("I"), Decoder: MakeStructDecoder([]Field{{JsonName: "only", Offset: 0, Decoder: StringValueDecoder}})},
})

func vc08Str(h *vH) string {
	n := h.rng.Intn(6)
	if h.rng.Intn(15) == 0 {
		n = h.rng.Intn(400)
	}
	s := ""
	for ; n > 0; n-- {
		s += string("abcdefghij{}[]:,"[h.rng.Intn(16)])
	}
	return s
}

func vc08Quote(s string) string { return `"` + s + `"` }

// any value, to be skipped
func vc08Any(h *vH, depth int) string {
	k := h.rng.Intn(10)
	if depth <= 0 && k > 7 {
		k -= 5
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return []string{"true", "false"}[h.rng.Intn(2)]
	case 2:
		return []string{"0", "-1", "12.75", "1e9", "-3.5E2", "2E+4", "123456789012345678901234567890"}[h.rng.Intn(7)]
	case 3:
		return []string{`"a"`, `"\""`, `"\\"`, `"}"`, `"]"`, `"\u0022"`, `"list"`, `"{\"a\":\"x\"}"`}[h.rng.Intn(8)]
	case 4, 5, 6:
		return vc08Quote(vc08Str(h))
	case 7, 8:
		s := "["
		for n := h.rng.Intn(4); n > 0; n-- {
			s += vc08Any(h, depth-1)
			if n > 1 {
				s += ","
			}
		}
		return s + "]"
	}
	s := "{"
	for n := h.rng.Intn(4); n > 0; n-- {
		s += vc08Quote([]string{"a", "aa", "b", "tags", "x", "n", ""}[h.rng.Intn(7)]) + ":" + vc08Any(h, depth-1)
		if n > 1 {
			s += ","
		}
	}
	return s + "}"
}

func vc08InnerDoc(h *vH, v *vc08Inner, names bool) string {
	var m []string
	for n := h.rng.Intn(4); n > 0; n-- {
		switch h.rng.Intn(4) {
		case 0, 1:
			v.Name = vc08Str(h)
			m = append(m, `"name":`+vc08Quote(v.Name))
		case 2:
			v.N = h.rng.Uint64()
			m = append(m, fmt.Sprintf(`"n":%d`, v.N))
		case 3:
			m = append(m, vc08Quote([]string{"nam", "names", "Name", "N", "nn", "", "a"}[h.rng.Intn(7)])+":"+vc08Any(h, 3))
		}
	}
	return "{" + strings.Join(m, ",") + "}"
}

func TestVerifC08(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more(); i++ {
		var want vc08Target
		want.Guard0, want.Guard1, want.Guard2, want.Guard3 = 1, 2, 3, 4
		got := want
		var m []string
		for n := h.rng.Intn(9); n > 0; n-- {
			switch h.rng.Intn(12) {
			case 0:
				want.A = vc08Str(h)
				m = append(m, `"a":`+vc08Quote(want.A))
			case 1:
				want.Aa = vc08Str(h)
				m = append(m, `"aa":`+vc08Quote(want.Aa))
			case 2:
				want.B = h.rng.Uint64()
				m = append(m, fmt.Sprintf(`"b":%d`, want.B))
			case 3:
				want.C = nil
				var e []string
				for k := h.rng.Intn(4); k > 0; k-- {
					key, v := vc08Str(h), vc08Str(h)
					if want.C == nil {
						want.C = map[string]string{}
					}
					want.C[key] = v
					e = append(e, vc08Quote(key)+":"+vc08Quote(v))
				}
				m = append(m, `"tags":{`+strings.Join(e, ",")+`}`)
			case 4:
				want.D = nil
				var e []string
				for k := h.rng.Intn(5); k > 0; k-- {
					var v vc08Inner
					e = append(e, vc08InnerDoc(h, &v, true))
					want.D = append(want.D, v)
				}
				m = append(m, `"list":[`+strings.Join(e, ",")+`]`)
			case 5:
				var e []string
				for k, n := 0, h.rng.Intn(6); k < n; k++ {
					v := h.rng.Uint64()
					if k < 3 {
						want.E[k] = v
						e = append(e, fmt.Sprint(v))
					} else {
						e = append(e, vc08Any(h, 3))
					}
				}
				m = append(m, `"fix":[`+strings.Join(e, ",")+`]`)
			case 6:
				m = append(m, `"inner":`+vc08InnerDoc(h, &want.F, true))
			case 7:
				want.G = nil
				var e []string
				for k := h.rng.Intn(5); k > 0; k-- {
					v := vc08Str(h)
					want.G = append(want.G, v)
					e = append(e, vc08Quote(v))
				}
				m = append(m, `"strs":[`+strings.Join(e, ",")+`]`)
			case 8:
				var e []string
				for k, n := 0, h.rng.Intn(5); k < n; k++ {
					if k < 2 {
						e = append(e, vc08InnerDoc(h, &want.H[k], true))
					} else {
						e = append(e, vc08Any(h, 3))
					}
				}
				m = append(m, `"two":[`+strings.Join(e, ",")+`]`)
			case 9:
				s := ""
				if h.rng.Intn(2) == 0 {
					want.I.Only = vc08Str(h)
					s = `"only":` + vc08Quote(want.I.Only)
				}
				if h.rng.Intn(3) == 0 {
					if s != "" {
						s += ","
					}
					s += `"` + []string{"onl", "only2", "ONLY", ""}[h.rng.Intn(4)] + `":` + vc08Any(h, 3)
				}
				m = append(m, `"one":{`+s+`}`)
			case 10, 11:
				m = append(m, vc08Quote([]string{"A", "aaa", "Aa", "bb", "tag", "tagss", "lists", "", "x", "only", "name", "n", "fi", "id"}[h.rng.Intn(14)])+":"+vc08Any(h, 4))
			}
		}
		doc := "{" + strings.Join(m, []string{",", " , ", ",\n"}[h.rng.Intn(3)]) + "}"
		h.begin("document %s", doc)
		var p *Parser
		switch h.rng.Intn(3) {
		case 0:
			p = NewWithBytes([]byte(doc + `"rest"`))
		case 1:
			p = NewWithReader(strings.NewReader(doc+`"rest"`), make([]byte, 8192))
		case 2:
			p = NewWithReader(&vc08Slow{[]byte(doc + `"rest"`), 1 + h.rng.Intn(4)}, nil)
		}
		if err := vc08Dec(unsafe.Pointer(&got), p); err != nil {
			h.fail("is rejected: %v", err)
		}
		if len(got.C) == 0 {
			got.C = nil
		}
		if len(got.D) == 0 {
			got.D = nil
		}
		if len(got.G) == 0 {
			got.G = nil
		}
		if !reflect.DeepEqual(got, want) {
			h.fail("yields %+v\ninstead of %+v", got, want)
		}
		tok, err := p.ReadString()
		if err != nil || string(tok.Value) != "rest" {
			h.fail("what follows it is read as %q, %v", tok.Value, err)
		}
	}
	h.end()
}

type vc08Slow struct {
	b []byte
	n int
}

func (r *vc08Slow) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	return n, nil
}
