// verif pkg=.
package zipkinproxy

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC24(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 100000; i++ {
		nt, ns := h.rng.Intn(4), 1+h.rng.Intn(3)
		var sinks []chan proxy.Trace
		var targets []chan<- proxy.Trace
		for k := 0; k < ns; k++ {
			c := make(chan proxy.Trace, nt+1)
			if h.rng.Intn(8) == 0 {
				c = make(chan proxy.Trace)
			}
			sinks = append(sinks, c)
			targets = append(targets, c)
		}
		src := make(chan proxy.Trace, nt)
		var want []proxy.Trace
		var calls []proxy.Span
		desc := ""
		for k := 0; k < nt; k++ {
			n := h.rng.Intn(6)
			var tr proxy.Trace
			desc += " ["
			if h.rng.Intn(4) == 0 {
				tr = make(proxy.Trace, 0, n+3)
			}
			w := proxy.Trace{}
			for j := 0; j < n; j++ {
				s := proxy.Span{Id: proxy.Id(1 + h.rng.Intn(3)), Trace: proxy.Id(k + 1), Parent: proxy.Id(h.rng.Intn(3)), Name: fmt.Sprint(k, ".", j), Service: fmt.Sprint(h.rng.Intn(6)), Tags: map[string]string{"a": "b"}}
				tr = append(tr, s)
				calls = append(calls, s)
				desc += " " + s.Name + ":" + s.Service
				if c, err := vc24Convert(s); err == nil && c.Id != 0 && c.Trace != 0 {
					w = append(w, c)
				}
			}
			desc += "]"
			want = append(want, w)
			src <- tr
		}
		close(src)
		h.begin("%d sinks, traces%s (service 1: error, 2: id 0, 3: trace id 0)", ns, desc)
		n := 0
		type rec struct {
			sink int
			tr   proxy.Trace
		}
		done := make(chan bool)
		go func() {
			forwardSpansToChannels(src, targets, func(s proxy.Span) (proxy.Span, error) {
				if n >= len(calls) || !reflect.DeepEqual(calls[n], s) {
					h.fail("conversion %d is of %+v", n, s)
				}
				n++
				return vc24Convert(s)
			})
			close(done)
		}()
		// the sinks are read in order, a slow one holds the others back
		var got [][]proxy.Trace = make([][]proxy.Trace, ns)
		for k := 0; k < nt; k++ {
			for j := range sinks {
				select {
				case tr := <-sinks[j]:
					got[j] = append(got[j], tr)
				case <-time.After(5 * time.Second):
					h.fail("sink %d does not get trace %d", j, k)
				}
			}
		}
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			h.fail("does not end when the source is closed")
		}
		for j := range sinks {
			if len(sinks[j]) != 0 {
				h.fail("sink %d gets more than %d traces", j, nt)
			}
			for k := range want {
				g := got[j][k]
				if len(g) != len(want[k]) || len(g) > 0 && !reflect.DeepEqual(g, want[k]) {
					h.fail("sink %d gets %+v as trace %d, want %+v", j, g, k, want[k])
				}
			}
		}
		if n != len(calls) {
			h.fail("%d conversions, want %d", n, len(calls))
		}
	}
	h.end()
}

func vc24Convert(s proxy.Span) (proxy.Span, error) {
	c := s
	c.Name = "c" + s.Name
	switch s.Service {
	case "1":
		return c, errors.New("no")
	case "2":
		c.Id = 0
	case "3":
		c.Trace = 0
	case "4":
		c.Parent = 0
	}
	return c, nil
}
