// verif pkg=./codec
package codec

import (
	"testing"
	"time"
)

func TestVerifC09(t *testing.T) {
	h := vStart(t)
	pick := func(s ...string) string { return s[h.rng.Intn(len(s))] }
	us := func() uint64 {
		v := uint64(h.i64())
		if v > 9223372036854775 {
			v %= 9223372036854775
		}
		return v
	}
	for i := 0; h.more() && i < 200000; i++ {
		var s spanV1
		s.TraceID, s.ID, s.ParentID = Id(h.i64()), Id(h.i64()), Id(h.i64())
		s.Name = pick("", "n", "cs", "service")
		if h.rng.Intn(2) == 0 {
			s.Timestamp = us()
		}
		if h.rng.Intn(2) == 0 {
			s.Duration = us()
		}
		base := us() / 2
		for k := range s.Annotations {
			if h.rng.Intn(3) == 0 {
				continue
			}
			ts := base + uint64(h.rng.Intn(3))*uint64(h.rng.Intn(2000))
			if h.rng.Intn(6) == 0 {
				ts = us()
			}
			if h.rng.Intn(8) == 0 {
				ts = 0
			}
			s.Annotations[k] = annotationV1{Timestamp: ts, Value: pick("cs", "cr", "sr", "ss", "CS", "", "x"), Endpoint: endpoint{pick("", "svc-a", "svc-b")}}
		}
		for k := h.rng.Intn(4); k > 0; k-- {
			s.BinaryAnnotations = append(s.BinaryAnnotations, binaryAnnotationV1{Key: pick("a", "b", "", "protocolVersion", "error"), Value: pick("", "1", "2", "json v2"), Endpoint: endpoint{pick("", "svc-c", "svc-d")}})
		}
		in := s
		in.BinaryAnnotations = append([]binaryAnnotationV1(nil), s.BinaryAnnotations...)
		h.begin("span %+v", in)
		r := s.ToSpan()
		if r.Id != in.ID || r.Trace != in.TraceID || r.Parent != in.ParentID || r.Name != in.Name {
			h.fail("ids or name differ: %+v", r)
		}
		tm := map[string]int64{}
		svc := ""
		for _, a := range in.Annotations {
			if a.Timestamp == 0 {
				continue
			}
			tm[a.Value] = int64(a.Timestamp) * 1000
			if svc == "" {
				svc = a.Endpoint.ServiceName
			}
		}
		tags := map[string]string{}
		for _, a := range in.BinaryAnnotations {
			tags[a.Key] = a.Value
			if svc == "" {
				svc = a.Endpoint.ServiceName
			}
		}
		tags["protocolVersion"] = "json v1"
		if r.Service != svc {
			h.fail("service %q, want %q", r.Service, svc)
		}
		if len(tags) != len(r.Tags) {
			h.fail("tags %v, want %v", r.Tags, tags)
		}
		for k, v := range tags {
			if w, ok := r.Tags[k]; !ok || w != v {
				h.fail("tags %v, want %v", r.Tags, tags)
			}
		}
		cs, cr, sr, ss := tm["cs"], tm["cr"], tm["sr"], tm["ss"]
		if int64(r.Timings.CS) != cs || int64(r.Timings.CR) != cr || int64(r.Timings.SR) != sr || int64(r.Timings.SS) != ss {
			h.fail("timings %+v, want cs=%d cr=%d sr=%d ss=%d", r.Timings, cs, cr, sr, ss)
		}
		ts, d := int64(in.Timestamp)*1000, int64(in.Duration)*1000
		if cs > 0 && cr > 0 {
			ts, d = cs, cr-cs
		} else if sr > 0 && ss > 0 {
			ts, d = sr, ss-sr
		}
		if d == 0 {
			d = int64(time.Millisecond)
		}
		if int64(r.Timestamp) != ts || int64(r.Duration) != d {
			h.fail("timestamp %d duration %d, want %d and %d", int64(r.Timestamp), int64(r.Duration), ts, d)
		}
	}
	h.end()
}
