// verif pkg=./codec
package codec

import (
	"strings"
	"testing"
	"time"
)

func TestVerifC11(t *testing.T) {
	h := vStart(t)
	pick := func(s ...string) string { return s[h.rng.Intn(len(s))] }
	us := func() uint64 {
		v := uint64(h.i64())
		if v > 4611686018427387 {
			v %= 4611686018427387
		}
		return v
	}
	for i := 0; h.more() && i < 200000; i++ {
		var s jaegerSpan
		s.TraceId, s.SpanId = Id(h.i64()), Id(h.i64())
		s.OperationName = pick("", "op", "x")
		s.ProcessId = pick("", "p1", "p2", "p3")
		procs := map[string]jaegerProcess{"p1": {"svc-1"}, "p2": {"svc-2"}, "": {"none"}}
		if h.rng.Intn(5) == 0 {
			procs = nil
		}
		if h.rng.Intn(4) > 0 {
			s.Timestamp = us()
		}
		if h.rng.Intn(4) > 0 {
			s.Duration = us()
		}
		parent := s.SpanId
		for k := h.rng.Intn(4); k > 0; k-- {
			s.References = append(s.References, struct {
				RefType string `json:"refType"`
				SpanId  Id     `json:"spanID"`
			}{pick("CHILD_OF", "FOLLOWS_FROM", "", "child_of"), Id(h.i64())})
			if r := s.References[len(s.References)-1]; r.RefType == "CHILD_OF" {
				parent = r.SpanId
			}
		}
		want := map[string]string{}
		kind := ""
		for k := h.rng.Intn(6); k > 0; k-- {
			tag := jaegerTag{Key: pick("a", "b", "component", "lc", "span.kind", "span.kind", "internal.span.format", "protocolVersion")}
			switch h.rng.Intn(6) {
			case 0:
				tag.Value = 1.5
			case 1:
				tag.Value = true
			case 2:
				tag.Value = nil
			default:
				tag.Value = pick("", "v", "client", "Client", "server", "SERVER", "producer")
			}
			s.Tags = append(s.Tags, tag)
			v, ok := tag.Value.(string)
			switch {
			case !ok || tag.Key == "internal.span.format":
			case tag.Key == "span.kind":
				kind = v
			case tag.Key == "component":
				want["lc"] = v
			default:
				want[tag.Key] = v
			}
		}
		want["protocolVersion"] = "jaeger"
		in := s
		h.begin("span %+v procs %v", in, procs)
		r := s.ToSpan(procs)
		if r.Id != in.SpanId || r.Trace != in.TraceId || r.Name != in.OperationName {
			h.fail("ids or name differ: %+v", r)
		}
		if r.Parent != parent {
			h.fail("parent %v, want %v", r.Parent, parent)
		}
		if r.Service != procs[in.ProcessId].ServiceName {
			h.fail("service %q", r.Service)
		}
		if len(want) != len(r.Tags) {
			h.fail("tags %v, want %v", r.Tags, want)
		}
		for k, v := range want {
			if w, ok := r.Tags[k]; !ok || w != v {
				h.fail("tags %v, want %v", r.Tags, want)
			}
		}
		ts, d := int64(in.Timestamp)*1000, int64(in.Duration)*1000
		if d == 0 {
			d = int64(time.Millisecond)
		}
		if int64(r.Timestamp) != ts || int64(r.Duration) != d {
			h.fail("timestamp %d duration %d, want %d and %d", int64(r.Timestamp), int64(r.Duration), ts, d)
		}
		var cs, cr, sr, ss int64
		if strings.EqualFold(kind, "client") {
			cs, cr = ts, ts+d
		}
		if strings.EqualFold(kind, "server") {
			sr, ss = ts, ts+d
		}
		if int64(r.Timings.CS) != cs || int64(r.Timings.CR) != cr || int64(r.Timings.SR) != sr || int64(r.Timings.SS) != ss {
			h.fail("timings %+v, want cs=%d cr=%d sr=%d ss=%d", r.Timings, cs, cr, sr, ss)
		}
	}
	h.end()
}
