// verif pkg=./codec/hyperjson always
package hyperjson

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"unsafe"
)

func TestVerifC06(t *testing.T) {
	h := vStart(t)
	max := new(big.Int).SetUint64(^uint64(0))
	for i := 0; h.more() && i < 2000000; i++ {
		var s string
		switch h.rng.Intn(9) {
		case 0:
			s = fmt.Sprint(h.rng.Uint64() >> uint(h.rng.Intn(64)))
		case 1: // close to a power of two or of ten
			b := new(big.Int).Lsh(big.NewInt(1), uint(h.rng.Intn(140)))
			if h.rng.Intn(2) == 0 {
				b = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(h.rng.Intn(40))), nil)
			}
			s = b.Add(b, big.NewInt(int64(h.rng.Intn(5)-2))).String()
		case 2:
			b := new(big.Int).Add(max, big.NewInt(int64(h.rng.Intn(41)-20)))
			if h.rng.Intn(3) == 0 {
				b.Mul(b, big.NewInt(int64(1+h.rng.Intn(100))))
			}
			s = b.String()
		case 3:
			n := 1 + h.rng.Intn(25)
			for ; n > 0; n-- {
				s += string('0' + rune(h.rng.Intn(10)))
			}
		case 4:
			s = strings.Repeat("0", h.rng.Intn(30)) + fmt.Sprint(h.rng.Uint64()>>uint(h.rng.Intn(64)))
		case 5:
			s = []string{"-", "+", "-0", "-1", "0", "00", "1e3", "1E3", "1e0", "0e0", "1.0", "1.", ".5", "0.0", "1e+2", "1-2", "12-", "--", "1e", "18446744073709551615.0", "18446744073709551615e0", "1844674407370955161e1", "9223372036854775808"}[h.rng.Intn(23)]
		case 6:
			s = fmt.Sprint(uint64(h.i64()))
		case 7:
			n := 1 + h.rng.Intn(9)
			for ; n > 0; n-- {
				s += string("0123456789999.eE+-"[h.rng.Intn(18)])
			}
		case 8:
			s = fmt.Sprint(h.rng.Uint64()>>uint(h.rng.Intn(64))) + []string{".0", ".5", "e0", "e1", "E2", "e+1", "-", "+"}[h.rng.Intn(8)]
		}
		tail := []string{",", "]", "}", " ", "\n", ",7", " 8]", "]9", "x", "\x00", "\""}[h.rng.Intn(11)]
		h.begin("%s followed by %q", s, tail)
		var p *Parser
		if h.rng.Intn(2) == 0 {
			p = NewWithBytes([]byte(" " + s + tail))
		} else {
			p = NewWithReader(strings.NewReader(s+tail), make([]byte, h.rng.Intn(30)))
		}
		mem := [3]uint64{11, 12, 13}
		err := Uint64ValueDecoder(unsafe.Pointer(&mem[1]), p)
		if mem[0] != 11 || mem[2] != 13 {
			h.fail("memory next to the target was written")
		}
		digits := s != "" && strings.Trim(s, "0123456789") == ""
		if err == nil {
			b, ok := new(big.Int).SetString(s, 10)
			if !digits || !ok || b.Cmp(new(big.Int).SetUint64(mem[1])) != 0 {
				h.fail("decodes to %d", mem[1])
			}
		} else if digits && (s == "0" || s[0] != '0') {
			if b, _ := new(big.Int).SetString(s, 10); b.Cmp(max) <= 0 {
				h.fail("is rejected: %v", err)
			}
		}
	}
	h.end()
}
