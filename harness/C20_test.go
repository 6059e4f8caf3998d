// verif pkg=.
package zipkinproxy

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC20(t *testing.T) {
	h := vStart(t)
	base := int64(1600000000_000000000)
	for i := 0; h.more() && i < 200000; i++ {
		n := 1 + h.rng.Intn(8)
		mode := h.rng.Intn(3)
		tr := newTree(5)
		desc := ""
		missing := proxy.Id(50 + h.rng.Intn(2))
		low := h.rng.Intn(2) == 0
		for k := 0; k < n; k++ {
			s := proxy.Span{Id: proxy.Id(1 + h.rng.Intn(n+2)), Trace: 5}
			if low {
				s.Id += 100
			}
			switch {
			case mode == 0 || h.rng.Intn(3) == 0:
				s.Parent = proxy.Id(h.rng.Intn(n + 4))
				if low {
					s.Parent += 100
				}
			default:
				s.Parent = missing
			}
			s.Timestamp = proxy.Timestamp(base + int64(h.rng.Intn(1000))*1000000)
			s.Duration = time.Duration(h.rng.Intn(1000)) * 1000000
			desc += fmt.Sprintf(" {id %d parent %d start %d for %d}", s.Id, s.Parent, s.Timestamp, s.Duration)
			tr.AddSpan(s)
		}
		h.begin("trace 5 with the spans%s", desc)
		all := tr.Spans()
		have := map[proxy.Id]bool{}
		for _, s := range all {
			have[s.Id] = true
		}
		vc20Same(h, "roots", tr.Roots(), all, func(s proxy.Span) bool { return s.Parent == s.Id || !have[s.Parent] })
		for _, id := range []proxy.Id{0, 1, 2, 3, 101, 102, 103, missing} {
			id := id
			vc20Same(h, fmt.Sprintf("children of %d", id), tr.ChildrenOf(id), all, func(s proxy.Span) bool { return s.Parent == id && s.Parent != s.Id })
		}
		roots := tr.Roots()
		if len(roots) == 0 {
			continue
		}
		p, same := roots[0].Parent, true
		first, last := roots[0].Timestamp, roots[0].Timestamp.Add(roots[0].Duration)
		for _, r := range roots {
			same = same && r.Parent == p
			if r.Timestamp < first {
				first = r.Timestamp
			}
			if e := r.Timestamp.Add(r.Duration); e > last {
				last = e
			}
		}
		if len(roots) < 2 || !same {
			continue
		}
		before := len(all)
		tr.updated = time.Now().Add(-time.Hour)
		out := make(chan proxy.Trace, 1)
		traces := map[Id]*tree{5: tr}
		finishTraces(traces, map[Id]none{}, out)
		select {
		case got := <-out:
			if len(got) != before+1 {
				h.fail("released with %d spans, had %d, a substitute root belongs to it", len(got), before)
			}
			nr := 0
			ids := map[proxy.Id]bool{}
			for _, s := range got {
				ids[s.Id] = true
			}
			for _, s := range got {
				if s.Parent == s.Id || !ids[s.Parent] {
					nr++
					if s.Id != p {
						h.fail("%d is a root after the substitution", s.Id)
					}
					if s.Timestamp != first || s.Timestamp.Add(s.Duration) != last {
						h.fail("the substitute root goes from %d to %d, the roots from %d to %d", s.Timestamp, s.Timestamp.Add(s.Duration), first, last)
					}
				}
			}
			if nr != 1 {
				h.fail("%d roots after the substitution", nr)
			}
		default:
			h.fail("the roots share the missing parent %d, but the trace is not released", p)
		}
	}
	h.end()
}

func vc20Same(h *vH, what string, got []*proxy.Span, all proxy.Trace, want func(proxy.Span) bool) {
	n := 0
	for i := range all {
		c := 0
		for _, p := range got {
			if p == &all[i] {
				c++
			}
		}
		w := 0
		if want(all[i]) {
			w = 1
		}
		n += w
		if c != w {
			h.fail("%s: span %d is given %d times, want %d", what, all[i].Id, c, w)
		}
	}
	if n != len(got) {
		h.fail("%s: %d spans, want %d", what, len(got), n)
	}
}
