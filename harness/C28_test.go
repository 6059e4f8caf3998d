// verif pkg=. always
package zipkinproxy

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// C28: only valid spans whose trace is not banned are collected, each under its own trace.
func TestVerifC28(t *testing.T) {
	h := vStart(t)
	h.limit = 60 * time.Second
	in := make(chan proxy.Span)
	out := make(chan proxy.Trace, 100000)
	stopped := make(chan bool)
	go func() {
		ErrorCorrectSpans(in, out)
		close(stopped)
	}()
	mk := func(trace, id, parent Id) proxy.Span {
		return proxy.Span{Id: id, Parent: parent, Trace: trace, Name: fmt.Sprint("n", id), Service: "s", Timestamp: 1600000000000000000, Duration: 1000, Tags: map[string]string{"trace": fmt.Sprint(trace), "id": fmt.Sprint(id)}}
	}
	h.begin("a trace of more than 8192 spans, then other traces with valid and invalid spans mixed")
	for k := 0; k < 8200; k++ {
		in <- mk(77, Id(k+1), 1)
	}
	time.Sleep(600 * time.Millisecond)
	want := map[Id]map[Id]bool{}
	var last Id
	n := 40
	for i := 0; i < n*20; i++ {
		tr := Id(1000 + h.rng.Intn(n))
		if h.rng.Intn(2) == 0 {
			tr = -tr
		}
		sp := mk(tr, Id(2+h.rng.Intn(30)), 1)
		if want[tr] == nil {
			sp = mk(tr, 1, 1)
			want[tr] = map[Id]bool{}
		}
		switch h.rng.Intn(8) {
		case 0:
			bad := sp
			bad.Trace = 0
			in <- bad
		case 1:
			bad := sp
			bad.Id = 0
			in <- bad
		case 2: // a banned trace
			in <- mk(77, 1, 1)
		case 3: // a span with the id of a banned trace
			sp = mk(tr, 77, 1)
		}
		if len(want[tr]) == 0 {
			sp = mk(tr, 1, 1)
		}
		in <- sp
		want[tr][sp.Id] = true
		last = tr
	}
	got := map[Id]proxy.Trace{}
	end := time.Now().Add(11 * time.Second)
	for len(got) < len(want) && time.Now().Before(end) {
		select {
		case tr := <-out:
			if len(tr) == 0 {
				h.fail("a trace without spans was released")
			}
			if _, ok := got[tr[0].Trace]; ok {
				h.fail("trace %d was released twice", tr[0].Trace)
			}
			got[tr[0].Trace] = tr
		case <-time.After(100 * time.Millisecond):
		}
	}
	time.Sleep(300 * time.Millisecond)
	if len(out) > 0 {
		h.fail("trace %d was released too", (<-out)[0].Trace)
	}
	for id, tr := range got {
		if want[id] == nil {
			h.fail("trace %d was released, which no valid span belongs to, with %d spans", id, len(tr))
		}
		for _, sp := range tr {
			if sp.Trace != id || !want[id][sp.Id] {
				h.fail("trace %d was released with span %d of trace %d", id, sp.Id, sp.Trace)
			}
			if sp.Tags["trace"] != fmt.Sprint(id) || sp.Tags["id"] != fmt.Sprint(sp.Id) {
				h.fail("trace %d: span %d was released with the tags %v", id, sp.Id, sp.Tags)
			}
		}
		if len(tr) != len(want[id]) {
			h.fail("trace %d was released with %d of %d spans", id, len(tr), len(want[id]))
		}
	}
	if len(got) < len(want) {
		h.fail("%d of %d traces were released", len(got), len(want))
	}
	// a span that comes after its trace was released is collected anew, and nothing else comes out
	h.begin("a span of the trace received last, after that trace was released")
	late := mk(last, 3, 1)
	in <- late
	select {
	case tr := <-out:
		if len(tr) != 1 || tr[0].Trace != last || tr[0].Id != 3 {
			h.fail("released instead: %+v", tr)
		}
	case <-time.After(10 * time.Second):
		h.fail("the span was not released")
	}
	close(in)
	select {
	case <-stopped:
	case <-time.After(5 * time.Second):
		h.fail("the collection does not stop when the intake is closed")
	}
	h.end()
}
