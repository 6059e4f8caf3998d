// verif pkg=./codec/hyperjson always
package hyperjson

import (
	"errors"
	"io"
	"strings"
	"testing"
	"unsafe"

	"github.com/modern-go/reflect2"
)

type vc07Reader struct {
	h    *vH
	doc  string
	mode int
	n    int
	end  error
}

func (r *vc07Reader) Read(p []byte) (int, error) {
	r.n++
	if r.n > 100000 {
		r.h.fail("the input is read on and on after its end")
	}
	if len(r.doc) == 0 {
		return 0, r.end
	}
	n := len(p)
	if r.mode == 1 {
		n = 1
	} else if r.mode == 2 {
		n = r.h.rng.Intn(9)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.doc)
	r.doc = r.doc[n:]
	if n > 0 {
		r.n = 0
	}
	if len(r.doc) == 0 && r.mode == 2 {
		return n, r.end
	}
	return n, nil
}

func vc07Doc(h *vH) string {
	s := ""
	words := []string{"{", "}", "[", "]", ":", ",", `"`, `\`, `\u`, `\u00`, `\ud83d\ude00`, `\ud83d\u`, "0", "12", "-", "1e5", ".", "n", "nul", "null", "true", "tru", "t", "fals", "false", "f", " ", "\n", "\x85", "\xa0", "\x00", "\xff", `"a"`, `"a":`, `"b":[1,2]`, `{"a":1}`, `[[]]`, `"s":"x"`, `"m":{"k":"v"}`, `"l":[`, `"r":[1,2,3,4]`, `"n":18446744073709551616`, "x", "é", "/*", strings.Repeat("z", 70), `"` + strings.Repeat("q", 90)}
	if h.rng.Intn(3) == 0 { // a good one, spoilt
		s = `[{"a":1,"s":"text\n\u00e9","n":12,"m":{"k":"v","w":"x"},"l":["p","q"],"r":[1,2,3],"u":{"x":[true,null,-1.5e3,{}]}},[],{},"end",false]`
		for k := h.rng.Intn(4); k > 0; k-- {
			i := h.rng.Intn(len(s))
			switch h.rng.Intn(4) {
			case 0:
				s = s[:i]
			case 1:
				s = s[:i] + string([]byte{byte(h.rng.Intn(256))}) + s[i+1:]
			case 2:
				s = s[:i] + words[h.rng.Intn(len(words))] + s[i:]
			case 3:
				j := i + h.rng.Intn(len(s)-i)
				s = s[:i] + s[j:]
			}
			if s == "" {
				break
			}
		}
		return s
	}
	for k := h.rng.Intn(12); k > 0; k-- {
		s += words[h.rng.Intn(len(words))]
	}
	return s
}

var vc07Struct = MakeStructDecoder([]Field{
	{JsonName: "s", Offset: 0, Decoder: StringValueDecoder},
	{JsonName: "n", Offset: 16, Decoder: Uint64ValueDecoder},
	{JsonName: "m", Offset: 24, Decoder: MakeMapDecoder(StringValueDecoder, StringValueDecoder)},
	{JsonName: "l", Offset: 32, Decoder: MakeSliceDecoder(reflect2.TypeOf([]string{}).(reflect2.SliceType), StringValueDecoder)},
	{JsonName: "r", Offset: 56, Decoder: MakeArrayDecoder(reflect2.TypeOf([2]uint64{}).(reflect2.ArrayType), Uint64ValueDecoder)},
})

type vc07Target struct {
	S string
	N uint64
	M map[string]string
	L []string
	R [2]uint64
}

var vc07Slice = MakeSliceDecoder(reflect2.TypeOf([]vc07Target{}).(reflect2.SliceType), vc07Struct)

// one call of one of the reading functions; done is true after an error
func vc07Op(h *vH, p *Parser, op int) error {
	var err error
	switch op {
	case 0:
		_, err = p.NextType()
		if err == nil {
			err = p.Skip()
		}
	case 1:
		_, err = p.ReadLiteral()
	case 2:
		_, err = p.ReadString()
	case 3:
		_, err = p.ReadNumber()
	case 4:
		_, err = p.ReadBoolean()
	case 5:
		_, err = p.ReadNull()
	case 6:
		err = p.ReadArray(func() error { return p.Skip() })
	case 7:
		err = p.ReadObject(func([]byte) error { return p.Skip() })
	case 8:
		var v vc07Target
		err = vc07Struct(unsafe.Pointer(&v), p)
	case 9:
		var v []vc07Target
		err = vc07Slice(unsafe.Pointer(&v), p)
	case 10:
		err = p.ConsumeArrayBegin()
	case 11:
		err = p.ConsumeObjectBegin()
	case 12:
		err = p.ConsumeArrayEnd()
	case 13:
		err = p.ConsumeObjectEnd()
	case 14:
		err = p.Skip()
	case 15:
		var v uint64
		err = Uint64ValueDecoder(unsafe.Pointer(&v), p)
	case 16:
		var v map[string]string
		err = MakeMapDecoder(StringValueDecoder, StringValueDecoder)(unsafe.Pointer(&v), p)
	}
	return err
}

func TestVerifC07(t *testing.T) {
	h := vStart(t)
	deep := []string{"[", `{"a":`, `[{"a":[`, `[[],`}
	for i := 0; h.more(); i++ {
		if i < 2*len(deep) {
			// nested without end
			d := strings.Repeat(deep[i/2], 12000000/len(deep[i/2])*2)
			h.limit *= 3
			h.begin("%q again and again, %d bytes in all", deep[i/2], len(d))
			if i%2 == 0 {
				if NewWithBytes([]byte(d)).Skip() == nil {
					h.fail("is skipped as one value")
				}
			} else if v := (vc07Target{}); vc07Struct(unsafe.Pointer(&v), NewWithReader(strings.NewReader(`{"x":`+d), make([]byte, 8192))) == nil {
				h.fail("is skipped as one value")
			}
			h.limit /= 3
			continue
		}
		doc := vc07Doc(h)
		var p *Parser
		mode := h.rng.Intn(4)
		first := h.rng.Intn(17)
		h.begin("pieces of kind %d, first call %d, document %q", mode, first, doc)
		if mode == 3 {
			p = NewWithBytes([]byte(doc))
		} else {
			var buf []byte
			if h.rng.Intn(4) > 0 {
				buf = make([]byte, h.rng.Intn(20))
			}
			end := io.EOF
			if h.rng.Intn(4) == 0 {
				end = errors.New("broken")
			}
			p = NewWithReader(&vc07Reader{h: h, doc: doc, mode: mode, end: end}, buf)
		}
		if h.rng.Intn(2) == 0 {
			// every call either gets on or reports an error
			op := first
			for k := 0; ; k++ {
				if k > len(doc)+2 {
					h.fail("%d calls without an error", k)
				}
				if vc07Op(h, p, op) != nil {
					break
				}
				op = h.rng.Intn(17)
			}
		} else {
			// also after errors
			for k := 0; k < 12; k++ {
				vc07Op(h, p, (first+k*h.rng.Intn(17))%17)
			}
		}
	}
	h.end()
}
