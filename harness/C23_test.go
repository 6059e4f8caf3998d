// verif pkg=. always
package zipkinproxy

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// C23: overload sheds the largest traces, and only as many as needed.
func TestVerifC23(t *testing.T) {
	h := vStart(t)
	for round := 0; h.more() && round < 20000; round++ {
		traces := map[Id]*tree{}
		black := map[Id]none{}
		limit := 100000
		direct := round%3 != 0
		if direct {
			limit = h.rng.Intn(200)
		}
		n := h.rng.Intn(40)
		total := 0
		later := time.Now().Add(time.Hour)
		desc := ""
		for i := 0; i < n; i++ {
			size := h.rng.Intn(20)
			if !direct {
				size = h.rng.Intn(6000)
				if h.rng.Intn(3) == 0 {
					size = 8192 - h.rng.Intn(2)
				}
			}
			if h.rng.Intn(3) == 0 {
				size = 7
			}
			// now and then just at the limit
			if i == n-1 && h.rng.Intn(3) == 0 {
				if d := limit - total + h.rng.Intn(3) - 1; d >= 0 && d <= 8192 {
					size = d
				}
			}
			tr := newTree(Id(i + 1))
			tr.nodeCount = size
			tr.updated, tr.started = later, later
			traces[tr.traceId] = tr
			total += size
			desc += fmt.Sprint(" ", size)
		}
		bans := h.rng.Intn(1100)
		if !direct && h.rng.Intn(3) == 0 {
			bans = 1022 + h.rng.Intn(1500)
		}
		for i := 0; i < bans; i++ {
			black[Id(100000+i)] = none{}
		}
		all := map[Id]int{}
		for id, tr := range traces {
			all[id] = tr.nodeCount
		}
		h.begin("limit %d, %d banned ids, traces with as many spans:%s", limit, bans, desc)
		if direct {
			discardSuspiciousTraces(traces, limit)
		} else {
			out := make(chan proxy.Trace, 10)
			finishTraces(traces, black, out)
			if len(black) >= 1024 {
				h.fail("%d banned ids are left", len(black))
			}
			if len(out) > 0 {
				h.fail("a trace was released")
			}
			if total <= limit && len(traces) != n {
				h.fail("%d spans are held, and %d of %d traces were discarded", total, n-len(traces), n)
			}
		}
		left, largest, smallest := 0, -1, 1<<60
		for id, size := range all {
			tr, ok := traces[id]
			if ok {
				left += size
				if size > largest {
					largest = size
				}
				if tr.nodeCount != size {
					h.fail("trace %d was changed", id)
				}
			} else if size < smallest {
				smallest = size
			}
		}
		if total > limit && left >= limit && limit > 0 {
			h.fail("%d spans are left", left)
		}
		if total < limit && len(traces) != n {
			h.fail("%d spans are held, and %d of %d traces were discarded", total, n-len(traces), n)
		}
		if smallest < largest {
			h.fail("a trace of %d spans was discarded and one of %d spans kept", smallest, largest)
		}
		for id := range traces {
			if _, ok := all[id]; !ok {
				h.fail("trace %d is new", id)
			}
		}
		// largest first, until fewer than the limit remain: nothing is shed beyond that
		if len(traces) < n && left+smallest < limit {
			h.fail("%d spans are left, a trace of %d spans need not have been discarded", left, smallest)
		}
	}
	h.end()
}
