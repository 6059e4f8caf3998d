// verif pkg=./codec/hyperjson always
package hyperjson

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"
)

func vc04Literal(h *vH) (lit []byte) {
	hex := func(v int) string {
		s := fmt.Sprintf("%04x", v)
		if h.rng.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		if h.rng.Intn(4) == 0 {
			s = s[:2] + strings.ToUpper(s[2:])
		}
		return s
	}
	for n := h.rng.Intn(9); n > 0; n-- {
		k := h.rng.Intn(10)
		switch k {
		case 0, 1, 2, 3, 4:
			var u int
			switch h.rng.Intn(7) {
			case 0:
				u = h.rng.Intn(0x80)
			case 1:
				u = h.rng.Intn(0x800)
			case 2:
				u = 0xd800 + h.rng.Intn(0x400)
			case 3:
				u = 0xdc00 + h.rng.Intn(0x400)
			case 4:
				u = []int{0, 0x22, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff}[h.rng.Intn(16)]
			default:
				u = h.rng.Intn(0x10000)
			}
			lit = append(lit, "\\u"+hex(u)...)
		case 5:
			i := h.rng.Intn(8)
			lit = append(lit, '\\', `"\/bfnrt`[i])
		case 6:
			b := byte(h.rng.Intn(256))
			if b == '"' || b == '\\' {
				b = 'u'
			}
			lit = append(lit, b)
		case 7:
			s := []string{"abc", "é", "€", "😀", "u0041", "\xff\xfe", "{[,:]}", "0041", "d83d"}[h.rng.Intn(9)]
			lit = append(lit, s...)
		case 8:
			if h.rng.Intn(6) == 0 { // a broken escape
				s := "\\u" + []string{"", "0", "00", "004", "004g", "g000", "00 1", "+041", "-041", "0x41", "0\\u0", "00é", "d83d\\u", "d83d\\uzzzz", "d83d\\u12"}[h.rng.Intn(15)]
				lit = append(lit, s...)
			}
		case 9:
			s := strings.Repeat(string('a'+rune(h.rng.Intn(26))), h.rng.Intn(80))
			lit = append(lit, s...)
		}
	}
	return
}

func TestVerifC04(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more(); i++ {
		lit := vc04Literal(h)
		// an escape may be completed or broken by what follows it
		ok, want := vc04Decode(lit)
		before, after := h.bytes(h.rng.Intn(4)), append([]byte(`","next"`), h.bytes(h.rng.Intn(6))...)
		h.begin("the literal \"%s\" (%q)", lit, lit)
		// in memory: the bytes around it must stay as they are
		for k := range before {
			before[k] = ' '
		}
		doc := append(append(append(append([]byte{}, before...), '"'), lit...), after...)
		orig := append([]byte{}, doc...)
		p := NewWithBytes(doc)
		tok, err := p.ReadString()
		vc04Check(h, "in memory", tok, err, want, ok)
		lo, hi := len(before)+1, len(before)+1+len(lit)
		if !bytes.Equal(doc[:lo], orig[:lo]) || !bytes.Equal(doc[hi:], orig[hi:]) {
			h.fail("bytes outside of the literal were changed: %q -> %q", orig, doc)
		}
		if err == nil {
			next, err2 := p.ReadString()
			if err2 != nil || string(next.Value) != "next" {
				h.fail("the string after it is %q, %v", next.Value, err2)
			}
			if !bytes.Equal(tok.Value, want) {
				h.fail("the token changed to %q", tok.Value)
			}
		}
		// from a reader, in pieces
		if h.rng.Intn(2) == 0 {
			p = NewWithReader(&vc05Chunks{orig, 1 + h.rng.Intn(7)}, make([]byte, h.rng.Intn(40)))
			tok, err = p.ReadString()
			vc04Check(h, "in pieces", tok, err, want, ok)
		}
	}
	h.end()
}

type vc05Chunks struct {
	b []byte
	n int
}

func (c *vc05Chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, fmt.Errorf("end")
	}
	n := c.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	return n, nil
}

func vc04Check(h *vH, how string, tok Token, err error, want []byte, ok bool) {
	if ok && err != nil {
		h.fail("%s: rejected: %v", how, err)
	}
	if !ok && err == nil {
		h.fail("%s: accepted as %q", how, tok.Value)
	}
	if ok && (tok.Type != TypeString || !bytes.Equal(tok.Value, want)) {
		h.fail("%s: yields %q, denotes %q", how, tok.Value, want)
	}
}

// the text a literal denotes
func vc04Decode(lit []byte) (bool, []byte) {
	var out []byte
	hex4 := func(b []byte) (int, bool) {
		if len(b) < 4 {
			return 0, false
		}
		v := 0
		for _, c := range b[:4] {
			k := strings.IndexByte("0123456789abcdef", c|0x20)
			if c < '0' || k < 0 || (c > '9' && c < 'A') {
				return 0, false
			}
			if c >= '0' && c <= '9' {
				k = int(c - '0')
			}
			v = v*16 + k
		}
		return v, true
	}
	for i := 0; i < len(lit); i++ {
		if lit[i] != '\\' {
			out = append(out, lit[i])
			continue
		}
		i++
		if i >= len(lit) {
			return false, nil
		}
		if k := strings.IndexByte("bfnrt", lit[i]); k >= 0 {
			out = append(out, "\b\f\n\r\t"[k])
			continue
		}
		if lit[i] != 'u' {
			out = append(out, lit[i])
			continue
		}
		u, ok := hex4(lit[i+1:])
		if !ok {
			return false, nil
		}
		i += 4
		r := rune(u)
		if u >= 0xd800 && u < 0xe000 {
			r = utf8.RuneError
			if u < 0xdc00 && i+2 < len(lit) && lit[i+1] == '\\' && lit[i+2] == 'u' {
				if l, ok := hex4(lit[i+3:]); ok && l >= 0xdc00 && l < 0xe000 {
					r = rune(0x10000 + (u-0xd800)<<10 + (l - 0xdc00))
					i += 6
				}
			}
		}
		out = append(out, string(r)...)
	}
	return true, out
}
