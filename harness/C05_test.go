// verif pkg=./codec/hyperjson always
package hyperjson

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
)

// a reader that hands out the document in pieces
type vc05Reader struct {
	h    *vH
	doc  string
	mode int
	end  error // io.EOF, alone or with the last piece
	with bool
}

func (r *vc05Reader) Read(p []byte) (int, error) {
	if len(r.doc) == 0 {
		return 0, r.end
	}
	if len(p) == 0 {
		r.h.fail("the reader is asked for no bytes")
	}
	n := len(p)
	switch r.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + r.h.rng.Intn(5)
	case 3:
		n = 1 + r.h.rng.Intn(200)
	case 4:
		n = r.h.rng.Intn(4) // sometimes nothing
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.doc)
	r.doc = r.doc[n:]
	if len(r.doc) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

func vc05Value(h *vH, depth int, sb *strings.Builder, want *[]string) {
	sp := func() {
		for h.rng.Intn(3) == 0 {
			sb.WriteByte(" \n\t\r"[h.rng.Intn(4)])
		}
		if h.rng.Intn(60) == 0 {
			sb.WriteString(strings.Repeat(" ", h.rng.Intn(5000)))
		}
	}
	str := func() {
		n := h.rng.Intn(8)
		switch h.rng.Intn(20) {
		case 0:
			n = h.rng.Intn(300)
		case 1:
			n = h.rng.Intn(10000)
		}
		raw, txt := "", ""
		if n > 100 {
			raw = strings.Repeat("longer and longer ", n/18+1)[:n]
			txt = raw
		} else {
			for ; n > 0; n-- {
				switch h.rng.Intn(8) {
				case 0:
					k := h.rng.Intn(8)
					raw += "\\" + string(`"\/bfnrt`[k])
					txt += string("\"\\/\b\f\n\r\t"[k])
				case 1:
					raw += `\u00e9`
					txt += "é"
				case 2:
					raw += `\ud83d\ude00`
					txt += "😀"
				default:
					c := string("abcxyz{}[]:,0 "[h.rng.Intn(14)])
					raw += c
					txt += c
				}
			}
		}
		sb.WriteString(`"` + raw + `"`)
		*want = append(*want, fmt.Sprintf("%v:%s", TypeString, txt))
	}
	sp()
	k := h.rng.Intn(9)
	if depth <= 0 && k < 3 {
		k += 3
	}
	switch k {
	case 0, 1:
		sb.WriteByte('{')
		*want = append(*want, fmt.Sprint(TypeObjectBegin))
		for n := h.rng.Intn(4); n > 0; n-- {
			sp()
			str()
			sp()
			sb.WriteByte(':')
			vc05Value(h, depth-1, sb, want)
			if n > 1 {
				sb.WriteByte(',')
			}
		}
		sp()
		sb.WriteByte('}')
		*want = append(*want, fmt.Sprint(TypeObjectEnd))
	case 2:
		sb.WriteByte('[')
		*want = append(*want, fmt.Sprint(TypeArrayBegin))
		for n := h.rng.Intn(4); n > 0; n-- {
			vc05Value(h, depth-1, sb, want)
			if n > 1 {
				sb.WriteByte(',')
			}
		}
		sp()
		sb.WriteByte(']')
		*want = append(*want, fmt.Sprint(TypeArrayEnd))
	case 3, 4, 5:
		str()
	case 6, 7:
		s := []string{"0", "7", "1234567890123456789", "12.5", "1e10", "-3", "1.5E3", "2e+7"}[h.rng.Intn(8)]
		if h.rng.Intn(12) == 0 {
			s = strings.Repeat("123456789", 1+h.rng.Intn(1200))
		}
		sb.WriteString(s)
		*want = append(*want, fmt.Sprintf("%v:%s", TypeNumber, s))
	case 8:
		s := []string{"null", "true", "false"}[h.rng.Intn(3)]
		sb.WriteString(s)
		ty := TypeBoolean
		if s == "null" {
			ty = TypeNull
		}
		*want = append(*want, fmt.Sprintf("%v:%s", ty, s))
	}
	sp()
}

// reads all tokens up to the end of the first value
func vc05Tokens(p *Parser, max int) (toks []string, err error) {
	depth := 0
	for len(toks) <= max {
		ty, err := p.NextType()
		if err != nil {
			return toks, err
		}
		switch ty {
		case TypeObjectBegin:
			err = p.ConsumeObjectBegin()
			depth++
		case TypeArrayBegin:
			err = p.ConsumeArrayBegin()
			depth++
		case TypeObjectEnd:
			err = p.ConsumeObjectEnd()
			depth--
		case TypeArrayEnd:
			err = p.ConsumeArrayEnd()
			depth--
		default:
			var tok Token
			tok, err = p.ReadLiteral()
			if err == nil {
				toks = append(toks, fmt.Sprintf("%v:%s", tok.Type, tok.Value))
				if tok.Type != ty {
					return toks, fmt.Errorf("a token of type %v was announced as %v", tok.Type, ty)
				}
			}
			if err != nil {
				return toks, err
			}
			if depth == 0 {
				return toks, nil
			}
			continue
		}
		if err != nil {
			return toks, err
		}
		toks = append(toks, fmt.Sprint(ty))
		if depth == 0 {
			return toks, nil
		}
	}
	return toks, errors.New("too many tokens")
}

func TestVerifC05(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more(); i++ {
		var sb strings.Builder
		var want []string
		sb.WriteByte('[')
		want = append(want, fmt.Sprint(TypeArrayBegin))
		for n := 1 + h.rng.Intn(4); n > 0; n-- {
			vc05Value(h, h.rng.Intn(5), &sb, &want)
			if n > 1 {
				sb.WriteByte(',')
			}
		}
		sb.WriteByte(']')
		want = append(want, fmt.Sprint(TypeArrayEnd))
		doc := sb.String()
		for k := 0; k < 4; k++ {
			size := []int{-1, 0, 1, 2, 3, 4, 5, 7, 16, 33, 100, 1000, 4096, 8192}[h.rng.Intn(14)]
			r := &vc05Reader{h: h, doc: doc, mode: h.rng.Intn(5), end: io.EOF, with: h.rng.Intn(2) == 0}
			var buf []byte
			if size >= 0 {
				buf = make([]byte, size)
			}
			h.begin("pieces of kind %d, buffer of %d bytes, document %q", r.mode, size, doc)
			p := NewWithReader(r, buf)
			if h.rng.Intn(6) == 0 {
				p = NewWithBytes([]byte(doc))
			}
			toks, err := vc05Tokens(p, len(want)+3)
			if err != nil {
				h.fail("after %d of %d tokens: %v", len(toks), len(want), err)
			}
			for j := range want {
				if j >= len(toks) || toks[j] != want[j] {
					g := "none"
					if j < len(toks) {
						g = toks[j]
					}
					h.fail("token %d is %q instead of %q", j, g, want[j])
				}
			}
		}
	}
	h.end()
}
