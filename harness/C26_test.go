// verif pkg=./datadog
package datadog

import (
	"fmt"
	"math"
	"net/http"
	"reflect"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type vc26Transport struct{ got chan [][]*tracer.Span }

func (t *vc26Transport) SendTraces(s [][]*tracer.Span) (*http.Response, error) {
	t.got <- s
	return nil, fmt.Errorf("none")
}
func (t *vc26Transport) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (t *vc26Transport) SetHeader(key, value string) {}

func vc26Span(h *vH, n int) proxy.Span {
	s := proxy.Span{Id: proxy.Id(h.i64()), Trace: proxy.Id(h.rng.Intn(9) + 1), Parent: proxy.Id(h.i64())}
	if h.rng.Intn(4) == 0 {
		s.Trace = proxy.Id(h.i64())
	}
	if h.rng.Intn(4) > 0 {
		s.Name = h.str(h.rng.Intn(6))
	}
	if h.rng.Intn(4) > 0 {
		s.Service = h.str(h.rng.Intn(6))
	}
	s.Timestamp = proxy.Timestamp(h.i64())
	switch h.rng.Intn(6) {
	case 0:
		s.Duration = time.Duration(h.i64())
	case 1:
		s.Duration = time.Duration(998 + h.rng.Intn(4))
	case 2:
		s.Duration = time.Duration(h.rng.Intn(5)) - 2
	case 3:
		s.Duration = math.MinInt64
	default:
		s.Duration = time.Duration(h.rng.Intn(1000000))
	}
	s.Timings = proxy.Timings{CS: proxy.Timestamp(h.i64()), CR: proxy.Timestamp(h.i64()), SS: proxy.Timestamp(h.i64()), SR: proxy.Timestamp(h.i64())}
	if h.rng.Intn(5) > 0 {
		s.Tags = map[string]string{}
		for i := h.rng.Intn(4); i > 0; i-- {
			s.Tags[[]string{"a", "Error", "error ", "x", "http.status_code", "errors"}[h.rng.Intn(6)]] = []string{"1", "true", "error", "", "500"}[h.rng.Intn(5)]
		}
		if h.rng.Intn(2) == 0 {
			s.Tags["error"] = []string{"", "0", "false", "1", "true", "FALSE", "False", "00", "f", " ", "no", "-0", "0.0", "some text"}[h.rng.Intn(14)]
		}
	}
	return s
}

func TestVerifC26(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 3000; i++ {
		in := make(chan proxy.Trace)
		tp := &vc26Transport{make(chan [][]*tracer.Span, 100)}
		go Sink(tp, in)
		want := map[uint64][]proxy.Span{}
		n := 0
		h.begin("spans handed to the datadog sink")
		for n < 1000 {
			tr := proxy.Trace{}
			for k := h.rng.Intn(200); k > 0; k-- {
				s := vc26Span(h, n)
				n++
				tr = append(tr, s)
				want[uint64(s.Trace)] = append(want[uint64(s.Trace)], s)
			}
			in <- tr
		}
		var got [][]*tracer.Span
		cnt := 0
		for cnt < n {
			select {
			case g := <-tp.got:
				got = append(got, g...)
				for _, a := range g {
					cnt += len(a)
				}
			case <-time.After(9 * time.Second):
				h.fail("%d of %d spans are handed on", cnt, n)
			}
		}
		close(in)
		for _, g := range got {
			for _, d := range g {
				if d == nil || len(want[d.TraceID]) == 0 {
					h.fail("a datadog span %+v for no zipkin span", d)
				}
				s := want[d.TraceID][0]
				want[d.TraceID] = want[d.TraceID][1:]
				h.begin("%+v", s)
				if d.TraceID != uint64(s.Trace) || d.SpanID != uint64(s.Id) || d.ParentID != uint64(s.Parent) {
					h.fail("the ids are %d %d %d", d.TraceID, d.SpanID, d.ParentID)
				}
				if d.Service != s.Service || d.Name != s.Service {
					h.fail("service %q name %q", d.Service, d.Name)
				}
				res := s.Name
				if res == "" {
					res = "(resource empty)"
				}
				if d.Resource != res {
					h.fail("resource %q", d.Resource)
				}
				if d.Start != int64(s.Timestamp) {
					h.fail("start %d", d.Start)
				}
				dur := int64(s.Duration)
				if dur < 1000 {
					dur = 1000
				}
				if d.Duration != dur {
					h.fail("duration %d", d.Duration)
				}
				if !(len(d.Meta) == 0 && len(s.Tags) == 0) && !reflect.DeepEqual(d.Meta, s.Tags) {
					h.fail("tags %v", d.Meta)
				}
				v, ok := s.Tags["error"]
				if isErr := ok && v != "false" && v != "0"; (d.Error != 0) != isErr || isErr && d.Error != 1 {
					h.fail("error flag %d", d.Error)
				}
			}
		}
	}
	h.end()
}
