// verif pkg=./codec always
package codec

import (
	"bytes"
	"runtime"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func vc02Long(v int64) []byte {
	u := uint64(v<<1) ^ uint64(v>>63)
	var b []byte
	for u >= 128 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}

// a length, often a lie
func vc02Size(h *vH, real int) []byte {
	switch h.rng.Intn(9) {
	case 0:
		return vc02Long(h.i64())
	case 1:
		return vc02Long(int64(real) + int64(h.rng.Intn(7)) - 3)
	case 2:
		return vc02Long([]int64{8191, 8192, 8193, 9000, 16384, 70000, 1 << 20, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, -1 << 63, -1, -2}[h.rng.Intn(15)])
	case 3:
		return bytes.Repeat([]byte{0x80}, h.rng.Intn(30))
	}
	return vc02Long(int64(real))
}

func vc02Input(h *vH) []byte {
	var b []byte
	if h.rng.Intn(6) == 0 {
		n := h.rng.Intn(40)
		for ; n > 0; n-- {
			b = append(b, []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff, byte(h.rng.Intn(256))}[h.rng.Intn(8)])
		}
		return b
	}
	lie := h.rng.Intn(3) > 0
	str := func() {
		n := h.rng.Intn(6)
		if h.rng.Intn(12) == 0 {
			n = []int{100, 8191, 8192, 8193, 12000, 30000}[h.rng.Intn(6)]
		}
		if lie && h.rng.Intn(3) == 0 {
			b = append(b, vc02Size(h, n)...)
		} else {
			b = append(b, vc02Long(int64(n))...)
		}
		b = append(b, bytes.Repeat([]byte{byte(97 + h.rng.Intn(26))}, n)...)
	}
	for k := 0; k < 3; k++ {
		b = append(b, vc02Long(h.i64())...)
	}
	str()
	str()
	for k := 0; k < 6; k++ {
		b = append(b, vc02Long(h.i64())...)
	}
	for k := h.rng.Intn(3); k >= 0; k-- {
		n := h.rng.Intn(4)
		if lie && h.rng.Intn(3) == 0 {
			b = append(b, vc02Size(h, n)...)
		} else if n > 0 && h.rng.Intn(3) == 0 {
			b = append(b, vc02Long(int64(-n))...)
			b = append(b, vc02Size(h, 10)...)
		} else {
			b = append(b, vc02Long(int64(n))...)
		}
		for ; n > 0; n-- {
			str()
			str()
		}
	}
	if h.rng.Intn(3) > 0 {
		b = append(b, 0)
	}
	if h.rng.Intn(3) == 0 {
		b = b[:h.rng.Intn(len(b)+1)]
	}
	return b
}

func TestVerifC02(t *testing.T) {
	h := vStart(t)
	h.limit = 5 * time.Second
	for i := 0; h.more(); i++ {
		in := vc02Input(h)
		if len(in) > 200 {
			h.begin("%d bytes: % x ...", len(in), in[:200])
		} else {
			h.begin("%d bytes: % x", len(in), in)
		}
		best := ^uint64(0)
		for k := 0; k < 4; k++ {
			var m0, m1 runtime.MemStats
			if i%4 == 0 {
				runtime.ReadMemStats(&m0)
			}
			r := bytes.NewReader(in)
			s, err := BinaryDecode(r)
			if err != nil && false {
				s = proxy.Span{}
			}
			_ = s
			if i%4 != 0 {
				break
			}
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d < best {
				best = d
			}
			if best < 8192+4096 {
				break
			}
		}
		if i%4 == 0 && best > uint64(8192+4096+120*len(in)) {
			h.fail("%d bytes of memory are allocated", best)
		}
	}
	h.end()
}
