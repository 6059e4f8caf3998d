// verif pkg=./proxy
package proxy

import (
	"math/big"
	"testing"
	"time"
)

func TestVerifC30(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 300000; i++ {
		v, d := h.i64(), h.i64()
		ts := Timestamp(v)
		h.begin("value %d, duration %d", v, d)
		q := func(n int64) int64 { return new(big.Int).Quo(big.NewInt(v), big.NewInt(n)).Int64() }
		us := new(big.Int).Mul(big.NewInt(v), big.NewInt(1000))
		if us.IsInt64() && int64(Microseconds(v)) != us.Int64() {
			h.fail("Microseconds(%d) = %d, want %d", v, int64(Microseconds(v)), us.Int64())
		}
		if ts.ToMillis() != q(1000000) {
			h.fail("ToMillis = %d, want %d", ts.ToMillis(), q(1000000))
		}
		if ts.ToMicros() != q(1000) {
			h.fail("ToMicros = %d, want %d", ts.ToMicros(), q(1000))
		}
		if ts.ToNanos() != v {
			h.fail("ToNanos = %d", ts.ToNanos())
		}
		if ts.IsValid() != (v > 0) {
			h.fail("IsValid = %v", ts.IsValid())
		}
		if s := new(big.Int).Add(big.NewInt(v), big.NewInt(d)); s.IsInt64() && int64(ts.Add(time.Duration(d))) != s.Int64() {
			h.fail("Add = %d, want %v", int64(ts.Add(time.Duration(d))), s)
		}
		if n := ts.ToTime().UnixNano(); n != v {
			h.fail("ToTime().UnixNano() = %d", n)
		}
	}
	h.end()
}
