// verif pkg=.
package zipkinproxy

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC21(t *testing.T) {
	h := vStart(t)
	base := int64(1600000000_000000000)
	pick := func() proxy.Timestamp {
		switch h.rng.Intn(12) {
		case 0:
			return 0
		case 1:
			return proxy.Timestamp(1577836800_000000000 + int64(h.rng.Intn(3)-1)*int64(h.rng.Intn(2000000)))
		case 2:
			return proxy.Timestamp(int64(h.rng.Intn(1000)))
		}
		return proxy.Timestamp(base + int64(h.rng.Intn(1000000000))*int64(1+h.rng.Intn(20)))
	}
	for i := 0; h.more() && i < 200000; i++ {
		n := 1 + h.rng.Intn(9)
		perm := h.rng.Perm(n)
		tr := newTree(5)
		desc := ""
		var orig []proxy.Span
		for k := 0; k < n; k++ {
			s := proxy.Span{Id: proxy.Id(10 + perm[k]), Trace: 5, Name: fmt.Sprint("n", k), Service: fmt.Sprint("s", k)}
			if k == 0 {
				s.Parent = s.Id
				if h.rng.Intn(2) == 0 {
					s.Parent = 99
				}
			} else {
				p := h.rng.Intn(k)
				if h.rng.Intn(3) == 0 {
					p = k - 1
				}
				s.Parent = proxy.Id(10 + perm[p])
			}
			s.Timestamp = pick()
			s.Duration = time.Duration(h.rng.Intn(1000)) * 1000000
			s.Tags = map[string]string{"k": fmt.Sprint(k)}
			for _, f := range []*proxy.Timestamp{&s.Timings.CS, &s.Timings.CR, &s.Timings.SR, &s.Timings.SS} {
				if h.rng.Intn(8) != 0 {
					*f = pick()
				}
			}
			desc += fmt.Sprintf(" {id %d parent %d start %d for %d timings %+v}", s.Id, s.Parent, s.Timestamp, s.Duration, s.Timings)
			orig = append(orig, s)
			tr.AddSpan(s)
		}
		h.begin("trace 5 with the spans%s", desc)
		// the first span is the only root
		want := map[proxy.Id]proxy.Span{}
		var fix func(s proxy.Span, parent *proxy.Span, skew int64)
		fix = func(s proxy.Span, parent *proxy.Span, skew int64) {
			w := s
			w.Timestamp += proxy.Timestamp(skew)
			down := skew
			tm := s.Timings
			if tm.CS != 0 && tm.CR != 0 && tm.SR != 0 && tm.SS != 0 {
				w.Timestamp = tm.CS + proxy.Timestamp(skew)
				w.Duration = time.Duration(tm.CR - tm.CS)
				down += int64((tm.CR+tm.CS)/2 - (tm.SR+tm.SS)/2)
			}
			if parent != nil && int64(w.Timestamp)/1000000 < 1577836800000 {
				w.Timestamp = parent.Timestamp
			}
			want[s.Id] = w
			for _, c := range orig {
				if c.Parent == s.Id && c.Id != c.Parent {
					fix(c, &w, down)
				}
			}
		}
		fix(orig[0], nil, 0)
		tr.updated = time.Now().Add(-9 * time.Second)
		out := make(chan proxy.Trace, 1)
		finishTraces(map[Id]*tree{5: tr}, map[Id]none{}, out)
		select {
		case got := <-out:
			if len(got) != n {
				h.fail("released with %d spans, want %d", len(got), n)
			}
			for _, s := range got {
				w := want[s.Id]
				if !reflect.DeepEqual(s, w) {
					h.fail("span %d is corrected to %+v, want %+v", s.Id, s, w)
				}
			}
		default:
			h.fail("the trace is not released")
		}
	}
	h.end()
}
