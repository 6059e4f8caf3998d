// verif pkg=.
package zipkinproxy

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC25(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 100000; i++ {
		n := 1 + h.rng.Intn(6)
		if h.rng.Intn(20) == 0 {
			n = 1 + h.rng.Intn(3000)
		}
		b := NewSpansBuffer(uint(n))
		var all []proxy.Span
		desc := fmt.Sprintf("capacity %d:", n)
		for r := h.rng.Intn(4); r >= 0; r-- {
			ch := make(chan proxy.Trace, 16)
			for k := h.rng.Intn(5); k > 0; k-- {
				var tr proxy.Trace
				for m := h.rng.Intn(2*n + 2); m > 0; m-- {
					id := proxy.Id(len(all) + 1)
					if h.rng.Intn(4) == 0 {
						id = 0
					}
					s := proxy.Span{Id: id, Trace: proxy.Id(len(all)), Name: fmt.Sprint("s", len(all)), Tags: map[string]string{"a": "b"}}
					tr = append(tr, s)
					all = append(all, s)
				}
				desc += fmt.Sprintf(" %d spans,", len(tr))
				ch <- tr
			}
			close(ch)
			h.begin("%s then read", desc)
			b.ReadFrom(ch)
			last := all
			if len(last) > n {
				last = last[len(last)-n:]
			}
			var want []proxy.Span
			for _, s := range last {
				if s.Id != 0 {
					want = append(want, s)
				}
			}
			for k := 0; k < 2; k++ {
				got := b.ToSlice()
				if len(got) == 0 && len(want) == 0 {
					continue
				}
				if !reflect.DeepEqual(got, want) {
					h.fail("read %d shows %v, want %v", k, got, want)
				}
			}
		}
	}
	h.end()
}
