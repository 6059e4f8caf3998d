// verif pkg=.
package zipkinproxy

import (
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func vc18Span(h *vH, side int) proxy.Span {
	pick := func(xs ...string) string { return xs[h.rng.Intn(len(xs))] }
	s := proxy.Span{Id: 7, Trace: 3, Service: pick("", "svc-a", "svc-b"), Name: pick("", "name-a", "name-b")}
	s.Parent = proxy.Id([]uint64{0, 0, 7, 9, 1 << 63}[h.rng.Intn(5)])
	s.Timestamp = proxy.Timestamp(h.rng.Intn(1000))
	s.Duration = 1 + 2*1000
	if h.rng.Intn(4) > 0 {
		s.Tags = map[string]string{}
		for i := h.rng.Intn(5); i > 0; i-- {
			s.Tags[pick("", "k1", "k2", "k3", "k4")] = pick("", "v1", "v2", "v3")
		}
	}
	v := func() proxy.Timestamp {
		return proxy.Timestamp([]int64{0, 0, -5, 1 + int64(h.rng.Intn(50)), 1 << 60}[h.rng.Intn(5)])
	}
	switch side {
	case 0:
		s.Timings.CS, s.Timings.CR = v(), v()
	case 1:
		s.Timings.SR, s.Timings.SS = v(), v()
	case 2:
		s.Timings.CS, s.Timings.CR = v(), v()
		s.Timings.SR, s.Timings.SS = v(), v()
	}
	return s
}

func vc18Copy(s proxy.Span) proxy.Span {
	if s.Tags != nil {
		m := map[string]string{}
		for k, v := range s.Tags {
			m[k] = v
		}
		s.Tags = m
	}
	return s
}

func TestVerifC18(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 3000000; i++ {
		a := vc18Span(h, h.rng.Intn(4))
		b := vc18Span(h, h.rng.Intn(4))
		o, n := vc18Copy(a), vc18Copy(b)
		tr := newTree(3)
		// some other spans around it
		for k := h.rng.Intn(4); k > 0; k-- {
			tr.AddSpan(proxy.Span{Id: proxy.Id(1 + h.rng.Intn(6) + 7*h.rng.Intn(2)*h.rng.Intn(2)), Trace: 3, Parent: 1})
		}
		if tr.GetSpan(7) != nil {
			continue
		}
		h.begin("merging %+v with %+v", n, o)
		tr.AddSpan(a)
		tr.AddSpan(b)
		p := tr.GetSpan(7)
		if p == nil {
			h.fail("the merged span is gone")
			return
		}
		m := *p
		so, sn := o.Timings.SR > 0 || o.Timings.SS > 0, n.Timings.SR > 0 || n.Timings.SS > 0
		cn := n.Timings.CS > 0 || n.Timings.CR > 0
		if m.Id != o.Id || m.Trace != o.Trace || m.Timestamp != o.Timestamp || m.Duration != o.Duration {
			h.fail("id, trace, timestamp or duration of the first report changed: %+v", m)
		}
		want := o.Parent
		if want == 0 {
			want = n.Parent
		}
		if m.Parent != want {
			h.fail("parent is %v, want %v", m.Parent, want)
		}
		text := func(what, got, w, l string, decided bool) {
			x := w
			if w == "" {
				x = l
			}
			if decided && got != x {
				h.fail("%s is %q, want %q", what, got, x)
			}
			if got != w && got != l || got == "" && x != "" {
				h.fail("%s is %q, neither of %q and %q", what, got, w, l)
			}
		}
		w, l := o, n
		if sn && !so {
			w, l = n, o
		}
		text("service", m.Service, w.Service, l.Service, so != sn)
		text("name", m.Name, w.Name, l.Name, so != sn)
		for k := range m.Tags {
			_, in1 := w.Tags[k]
			_, in2 := l.Tags[k]
			if !in1 && !in2 {
				h.fail("tag %q comes from nowhere", k)
			}
		}
		for _, s := range []proxy.Span{w, l} {
			for k := range s.Tags {
				g, ok := m.Tags[k]
				if !ok {
					h.fail("tag %q is lost", k)
				}
				wv, in1 := w.Tags[k]
				lv, in2 := l.Tags[k]
				switch {
				case in1 && !in2 && g != wv, in2 && !in1 && g != lv:
					h.fail("tag %q is %q", k, g)
				case in1 && in2 && so != sn && wv != "" && g != wv:
					h.fail("tag %q is %q, the server's %q does not win", k, g, wv)
				case in1 && in2 && g != wv && g != lv:
					h.fail("tag %q is %q", k, g)
				}
			}
		}
		keep := func(what string, got, o, n proxy.Timestamp) {
			x := o
			if n > 0 {
				x = n
			}
			if got != x {
				h.fail("%s is %d, want %d", what, got, x)
			}
		}
		if !sn {
			keep("cs", m.Timings.CS, o.Timings.CS, n.Timings.CS)
			keep("cr", m.Timings.CR, o.Timings.CR, n.Timings.CR)
			keep("sr", m.Timings.SR, o.Timings.SR, 0)
			keep("ss", m.Timings.SS, o.Timings.SS, 0)
		}
		if sn && !cn {
			keep("cs", m.Timings.CS, o.Timings.CS, 0)
			keep("cr", m.Timings.CR, o.Timings.CR, 0)
			keep("sr", m.Timings.SR, o.Timings.SR, n.Timings.SR)
			keep("ss", m.Timings.SS, o.Timings.SS, n.Timings.SS)
		}
	}
	h.end()
}
