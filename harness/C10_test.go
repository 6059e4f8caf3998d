// verif pkg=./codec
package codec

import (
	"strings"
	"testing"
	"time"
)

func TestVerifC10(t *testing.T) {
	h := vStart(t)
	pick := func(s ...string) string { return s[h.rng.Intn(len(s))] }
	us := func() uint64 {
		v := uint64(h.i64())
		if v > 4611686018427387 {
			v %= 4611686018427387
		}
		return v
	}
	for i := 0; h.more() && i < 200000; i++ {
		var s spanV2
		s.TraceID, s.ID, s.ParentID = Id(h.i64()), Id(h.i64()), Id(h.i64())
		s.Name = pick("", "n", "cs", "service")
		s.Endpoint.ServiceName = pick("", "svc", "Svc")
		s.Kind = pick("", "client", "CLIENT", "Client", "server", "SERVER", "sErVer", "producer", "clien", "clients", "cl\u0130ent", "\u017ferver")
		if h.rng.Intn(4) > 0 {
			s.Timestamp = us()
		}
		if h.rng.Intn(4) > 0 {
			s.Duration = us()
		}
		want := map[string]string{}
		if h.rng.Intn(3) > 0 {
			s.Tags = map[string]string{}
			for k := h.rng.Intn(4); k > 0; k-- {
				key, v := pick("a", "b", "", "protocolVersion", "error"), pick("", "1", "2")
				s.Tags[key], want[key] = v, v
			}
		}
		want["protocolVersion"] = "json v2"
		in := s
		h.begin("span %+v", in)
		r := s.ToSpan()
		if r.Id != in.ID || r.Trace != in.TraceID || r.Parent != in.ParentID || r.Name != in.Name || r.Service != in.Endpoint.ServiceName {
			h.fail("ids, name or service differ: %+v", r)
		}
		if len(want) != len(r.Tags) {
			h.fail("tags %v, want %v", r.Tags, want)
		}
		for k, v := range want {
			if w, ok := r.Tags[k]; !ok || w != v {
				h.fail("tags %v, want %v", r.Tags, want)
			}
		}
		ts, d := int64(in.Timestamp)*1000, int64(in.Duration)*1000
		if d == 0 {
			d = int64(time.Millisecond)
		}
		if int64(r.Timestamp) != ts || int64(r.Duration) != d {
			h.fail("timestamp %d duration %d, want %d and %d", int64(r.Timestamp), int64(r.Duration), ts, d)
		}
		var cs, cr, sr, ss int64
		if strings.EqualFold(in.Kind, "client") {
			cs, cr = ts, ts+d
		}
		if strings.EqualFold(in.Kind, "server") {
			sr, ss = ts, ts+d
		}
		if int64(r.Timings.CS) != cs || int64(r.Timings.CR) != cr || int64(r.Timings.SR) != sr || int64(r.Timings.SS) != ss {
			h.fail("timings %+v, want cs=%d cr=%d sr=%d ss=%d", r.Timings, cs, cr, sr, ss)
		}
	}
	h.end()
}
