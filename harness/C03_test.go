// verif pkg=./proxy
package proxy

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

func vC03want(s string) (int64, bool) {
	if len(s) > 16 {
		return 0, false
	}
	n := new(big.Int)
	for _, c := range []byte(s) {
		i := strings.IndexByte("0123456789abcdef", c)
		if i < 0 {
			i = strings.IndexByte("0123456789ABCDEF", c)
		}
		if i < 0 {
			return 0, false
		}
		n.Mul(n, big.NewInt(16)).Add(n, big.NewInt(int64(i)))
	}
	return int64(n.Uint64()), true
}

func TestVerifC03(t *testing.T) {
	h := vStart(t)
	check := func(s string) {
		h.begin("parse %q", s)
		want, ok := vC03want(s)
		in := []byte(s)
		got, err := ParseId(in)
		if (err == nil) != ok || ok && int64(got) != want {
			h.fail("ParseId(%q) = %d, %v; want %d, accepted %v", s, got, err, want, ok)
		}
		if string(in) != s {
			h.fail("ParseId changed its input")
		}
		for _, text := range []string{"\"" + s + "\"", s, "\"" + s, s + "\"", "'" + s + "'"} {
			inner := ""
			wok := len(text) >= 2 && text[0] == '"' && text[len(text)-1] == '"'
			if wok {
				inner = text[1 : len(text)-1]
			}
			w, iok := vC03want(inner)
			wok = wok && iok
			id := Id(77)
			h.begin("unmarshal %q", text)
			err := id.UnmarshalJSON([]byte(text))
			if (err == nil) != wok || wok && int64(id) != w {
				h.fail("UnmarshalJSON(%q) = %d, %v; want %d, accepted %v", text, id, err, w, wok)
			}
		}
	}
	check("")
	for c := 0; c < 256; c++ {
		check(string([]byte{byte(c)}))
		check("1" + string([]byte{byte(c)}) + "2")
		check("123456789012345" + string([]byte{byte(c)}))
		check(string([]byte{byte(c)}) + "fedcba987654321")
	}
	const alpha = "0123456789abcdefABCDEF0123456789abcdefABCDEFgG /:@`x-+"
	for i := 0; h.more() && i < 200000; i++ {
		n := h.rng.Intn(19)
		b := make([]byte, n)
		lim := len(alpha)
		if h.rng.Intn(3) > 0 {
			lim = 44
		}
		for j := range b {
			b[j] = alpha[h.rng.Intn(lim)]
		}
		check(string(b))
		v := h.i64()
		id := Id(v)
		h.begin("print %d", v)
		want := fmt.Sprintf("%016x", uint64(v))
		if id.String() != want {
			h.fail("String() = %q, want %q", id.String(), want)
		}
		j, err := id.MarshalJSON()
		if err != nil || string(j) != "\""+want+"\"" {
			h.fail("MarshalJSON = %q, %v", j, err)
		}
		if int64(id) != v {
			h.fail("MarshalJSON changed the id")
		}
		check(id.String())
	}
	h.end()
}
