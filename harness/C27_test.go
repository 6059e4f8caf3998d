// verif pkg=./datadog
package datadog

import (
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type vc27Batch struct {
	at     time.Duration
	groups [][]*tracer.Span
}

type vc27Transport struct {
	start time.Time
	got   chan vc27Batch
}

func (t *vc27Transport) SendTraces(s [][]*tracer.Span) (*http.Response, error) {
	t.got <- vc27Batch{time.Since(t.start), s}
	return nil, fmt.Errorf("none")
}
func (t *vc27Transport) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (t *vc27Transport) SetHeader(key, value string) {}

// one sink from start to end: spans are numbered by SpanID
func vc27Run(h *vH, seed int64, fail func(string, ...interface{})) {
	rnd := seed
	next := func(n int) int {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return int(uint64(rnd)>>33) % n
	}
	in := make(chan proxy.Trace)
	tp := &vc27Transport{time.Now(), make(chan vc27Batch, 1000)}
	done := make(chan bool)
	go func() { Sink(tp, in); close(done) }()
	type at struct{ trace, num uint64 }
	var sent []at
	pending, desc := 0, fmt.Sprintf("sink %d, traces (spans x trace ids):", seed)
	var batches []vc27Batch
	taken := 0
	take := func(limit time.Duration) bool {
		select {
		case b := <-tp.got:
			n := 0
			ids := map[uint64]bool{}
			for _, g := range b.groups {
				if len(g) == 0 {
					fail("%s\nan empty group is handed on", desc)
				}
				if ids[g[0].TraceID] {
					fail("%s\nthe trace id %d has two groups in one batch", desc, g[0].TraceID)
				}
				ids[g[0].TraceID] = true
				n += len(g)
			}
			if n == 0 {
				fail("%s\nan empty batch is handed on", desc)
			}
			if n < 1000 && b.at < 1700*time.Millisecond {
				fail("%s\na batch of %d spans is handed on after %v", desc, n, b.at)
			}
			batches = append(batches, b)
			taken += n
			return true
		case <-time.After(limit):
			return false
		}
	}
	total := 500 + next(7000)
	maxIds := []int{1, 2, 5, 100, 5000}[next(5)]
	maxLen := []int{3, 50, 400, 1001, 4500}[next(5)]
	for len(sent) < total {
		k := next(maxLen + 1)
		m := 1 + next(maxIds)
		var tr proxy.Trace
		for j := 0; j < k; j++ {
			id := uint64(1 + next(m))
			sent = append(sent, at{id, uint64(len(sent) + 1)})
			tr = append(tr, proxy.Span{Id: proxy.Id(len(sent)), Trace: proxy.Id(id), Parent: proxy.Id(id), Timestamp: proxy.Timestamp(len(sent)), Name: fmt.Sprint("n", len(sent)), Service: "s"})
		}
		if len(desc) < 2000 {
			desc += fmt.Sprintf(" %dx%d", k, m)
		}
		in <- tr
		pending = len(sent) - taken
		if pending >= 1000 {
			was := taken
			if !take(9*time.Second) || taken == was {
				fail("%s\n%d spans are collected, none is handed on", desc, pending)
			}
			for len(sent) > taken && take(0) {
			}
			if time.Since(tp.start) < 1500*time.Millisecond && taken != len(sent) {
				// one more may be on its way
				if !take(time.Second) || taken != len(sent) {
					fail("%s\nof %d spans %d are handed on", desc, len(sent), taken)
				}
			}
		}
	}
	// the rest goes out with the timer
	for taken < len(sent) {
		if !take(9 * time.Second) {
			fail("%s\n%d of %d spans are handed on", desc, taken, len(sent))
		}
	}
	close(in)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("%s\nthe sink goes on after its channel was closed", desc)
	}
	if take(20 * time.Millisecond) {
		fail("%s\na batch too many", desc)
	}
	order := map[uint64][]uint64{}
	for _, b := range batches {
		for _, g := range b.groups {
			for _, d := range g {
				if d.TraceID != g[0].TraceID {
					fail("%s\na span of trace %d in a group of %d", desc, d.TraceID, g[0].TraceID)
				}
				if d.Start != int64(d.SpanID) || d.Resource != fmt.Sprint("n", d.SpanID) {
					fail("%s\nspan %d is mixed up with another: %+v", desc, d.SpanID, d)
				}
				order[d.TraceID] = append(order[d.TraceID], d.SpanID)
			}
		}
	}
	for _, s := range sent {
		o := order[s.trace]
		if len(o) == 0 || o[0] != s.num {
			if len(o) > 5 {
				o = o[:5]
			}
			fail("%s\nspan %d of trace %d is not in its place, the next ones are %v", desc, s.num, s.trace, o)
		}
		order[s.trace] = o[1:]
	}
	for id, o := range order {
		if len(o) > 0 {
			fail("%s\ntrace %d has the span %d too much", desc, id, o[0])
		}
	}
}

func vc27Submit(h *vH) {
	for i := 0; i < 300; i++ {
		ch := make(chan map[uint64][]*tracer.Span, 10)
		tp := &vc27Transport{time.Now(), make(chan vc27Batch, 100)}
		var want []map[*tracer.Span]int
		desc := ""
		for k := h.rng.Intn(5); k > 0; k-- {
			m := map[uint64][]*tracer.Span{}
			w := map[*tracer.Span]int{}
			for j := 1 + h.rng.Intn(5); j > 0; j-- {
				id := uint64(h.rng.Intn(6))
				sp := &tracer.Span{TraceID: id}
				m[id] = append(m[id], sp)
				w[sp] = 1
			}
			desc += fmt.Sprintf(" %d spans in %d groups;", len(w), len(m))
			ch <- m
			want = append(want, w)
		}
		close(ch)
		h.begin("batches to submit:%s", desc)
		submitTraces(tp, ch)
		for k := range want {
			if len(tp.got) == 0 {
				h.fail("batch %d is not submitted", k)
			}
			b := <-tp.got
			for _, g := range b.groups {
				for _, d := range g {
					if want[k][d] != 1 {
						h.fail("batch %d has a span it should not have, or twice", k)
					}
					want[k][d] = 2
				}
			}
			for _, c := range want[k] {
				if c != 2 {
					h.fail("a span of batch %d is missing", k)
				}
			}
		}
		if len(tp.got) > 0 {
			h.fail("a batch too many")
		}
	}
}

func TestVerifC27(t *testing.T) {
	h := vStart(t)
	vc27Submit(h)
	for h.more() {
		h.begin("several sinks at once")
		var wg sync.WaitGroup
		var mu sync.Mutex
		first := ""
		for k := 0; k < 24; k++ {
			seed := h.rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						if first == "" {
							first = fmt.Sprint(r)
						}
						mu.Unlock()
					}
				}()
				vc27Run(h, seed, func(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) })
			}()
		}
		wg.Wait()
		if first != "" {
			h.fail("%s", first)
		}
	}
	h.end()
}
