// verif pkg=. always
package zipkinproxy

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// C22: a tick releases exactly the traces that are due and have one root, with all their spans.
func TestVerifC22(t *testing.T) {
	h := vStart(t)
	for round := 0; h.more() && round < 400; round++ {
		total := 0
		// now and then so many spans that traces are kept for a shorter time
		big := 0
		if round%12 == 11 {
			big = 1 + h.rng.Intn(3)
		}
		traces := map[Id]*tree{}
		black := map[Id]none{}
		kinds := map[Id]int{}
		ages := map[Id][2]time.Duration{}
		want := map[Id]map[Id]proxy.Span{}
		sub := map[Id]Id{}
		n := 1 + h.rng.Intn(12)
		desc := ""
		add := func(tr *tree, s proxy.Span) {
			tr.AddSpan(s)
			want[tr.traceId][s.Id] = s
		}
		now := time.Now()
		ids := []Id{}
		for i := 0; i < n; i++ {
			id := Id(1000 + i)
			ids = append(ids, id)
			tr := newTree(id)
			traces[id] = tr
			want[id] = map[Id]proxy.Span{}
			mk := func(sid, parent Id, k int) proxy.Span {
				return proxy.Span{Id: sid, Parent: parent, Trace: id, Name: fmt.Sprint("n", sid), Service: fmt.Sprint("s", k%3), Timestamp: proxy.Timestamp(1600000000000000000 + int64(k)*1000), Duration: 1000, Tags: map[string]string{"k": fmt.Sprint(sid)}}
			}
			size := 1 + h.rng.Intn(6)
			kind := h.rng.Intn(5)
			base := Id(10 + h.rng.Intn(100))
			if h.rng.Intn(4) == 0 {
				base = -base * 3
			}
			perm := h.rng.Perm(size + 2)
			sid := func(k int) Id { return base + Id(perm[k]) }
			switch kind {
			case 0, 1: // one root, its own parent or with a parent that is not there
				root := mk(sid(0), sid(0), 0)
				if h.rng.Intn(2) == 0 {
					root.Parent = 777
				}
				add(tr, root)
				for k := 1; k < size; k++ {
					add(tr, mk(sid(k), sid(h.rng.Intn(k)), k))
				}
			case 2: // several roots with one missing parent
				size++
				p := sid(size)
				for k := 0; k < size; k++ {
					if k > 1 && h.rng.Intn(2) == 0 {
						add(tr, mk(sid(k), sid(h.rng.Intn(k)), k))
					} else {
						add(tr, mk(sid(k), p, k))
					}
				}
				sub[id] = p
			case 3: // several roots with several parents
				size++
				for k := 0; k < size; k++ {
					add(tr, mk(sid(k), Id(5000+k), k))
				}
			case 4: // too large, or as large as may be
				size = 8192 + h.rng.Intn(3) - 1
				base = 10
				root := mk(10, 10, 0)
				add(tr, root)
				for k := 1; k < size; k++ {
					add(tr, mk(Id(10+k), 10, k))
				}
				if size > 8192 {
					kind = 5
				} else {
					kind = 0
				}
			}
			kinds[id] = kind
			if tr.nodeCount <= 8192 {
				total += tr.nodeCount
			}
		}
		for k := 0; k < big; k++ {
			for total < 20000*(k+2)+100 && k >= 0 {
				id := Id(100000 + total)
				tr := newTree(id)
				tr.nodeCount = 5000
				tr.started, tr.updated = now.Add(time.Hour), now.Add(time.Hour)
				traces[id] = tr
				total += 5000
			}
		}
		keep := 8 * time.Second
		if total >= 80000 {
			keep = 2 * time.Second
		} else if total >= 60000 {
			keep = 4 * time.Second
		} else if total >= 40000 {
			keep = 6 * time.Second
		}
		now = time.Now()
		for _, id := range ids {
			tr := traces[id]
			u := []time.Duration{0, keep - 700*time.Millisecond, keep + time.Millisecond, keep * 2, time.Second}[h.rng.Intn(5)]
			s := u + []time.Duration{0, time.Second, 5*keep - 700*time.Millisecond - u, 5*keep + time.Millisecond - u, 10 * keep}[h.rng.Intn(5)]
			if s < u {
				s = u
			}
			tr.updated, tr.started = now.Add(-u), now.Add(-s)
			ages[id] = [2]time.Duration{u, s}
			if len(want[id]) < 20 {
				desc += fmt.Sprintf(" {trace %d kind %d updated %s ago started %s ago spans", id, kinds[id], u, s)
				for _, sp := range tr.spans {
					desc += fmt.Sprintf(" %d<%d", sp.Id, sp.Parent)
				}
				desc += "}"
			} else {
				desc += fmt.Sprintf(" {trace %d of %d spans updated %s ago started %s ago}", id, len(want[id]), u, s)
			}
		}
		h.begin("%d spans held, traces%s", total, desc)
		before := map[Id]tree{}
		copies := map[Id][]proxy.Span{}
		for id, tr := range traces {
			before[id] = *tr
			copies[id] = append([]proxy.Span(nil), tr.spans...)
		}
		out := make(chan proxy.Trace, 1000)
		finishTraces(traces, black, out)
		if d := time.Since(now); d > 600*time.Millisecond {
			continue
		}
		close(out)
		got := map[Id]proxy.Trace{}
		for tr := range out {
			if len(tr) == 0 {
				h.fail("a trace without spans was released")
			}
			id := tr[0].Trace
			if _, ok := got[id]; ok {
				h.fail("trace %d was released twice", id)
			}
			got[id] = tr
		}
		for _, id := range ids {
			u, s, k := ages[id][0], ages[id][1], kinds[id]
			tr, sent := got[id]
			_, held := traces[id]
			_, banned := black[id]
			drop := k == 5 || s > 5*keep
			due := u >= keep
			if held != (!drop && !due) {
				h.fail("trace %d is still held: %v; it is too large or too old: %v, due: %v", id, held, drop, due)
			}
			if banned != drop {
				h.fail("trace %d is banned: %v; it is too large or too old: %v", id, banned, drop)
			}
			if sent != (!drop && due && k != 3) {
				h.fail("trace %d was released: %v; it is too large or too old: %v, due: %v, kind %d", id, sent, drop, due, k)
			}
			if held {
				now := *traces[id]
				b := before[id]
				same := now.updated == b.updated && now.started == b.started && now.nodeCount == b.nodeCount && len(now.spans) == len(b.spans)
				for i := range copies[id] {
					same = same && fmt.Sprint(now.spans[i]) == fmt.Sprint(copies[id][i])
				}
				if !same {
					h.fail("trace %d is kept but was changed: %+v", id, now)
				}
			}
			if sent {
				extra := 0
				if _, ok := sub[id]; ok {
					extra = 1
				}
				if len(tr) != len(want[id])+extra {
					h.fail("trace %d was released with %d spans, not %d", id, len(tr), len(want[id])+extra)
				}
				seen := map[Id]bool{}
				for _, sp := range tr {
					if seen[sp.Id] {
						h.fail("trace %d was released with span %d twice", id, sp.Id)
					}
					seen[sp.Id] = true
					w, ok := want[id][sp.Id]
					if !ok {
						if extra == 1 && sp.Id == sub[id] && sp.Parent == sp.Id && sp.Trace == id {
							continue
						}
						h.fail("trace %d was released with span %d, which it does not have", id, sp.Id)
					}
					if sp.Parent != w.Parent || sp.Trace != w.Trace || sp.Name != w.Name || sp.Service != w.Service || sp.Tags["k"] != w.Tags["k"] {
						h.fail("trace %d: span %+v was released as %+v", id, w, sp)
					}
				}
			}
		}
		for id := range black {
			if k, ok := kinds[id]; !ok || k != 5 && ages[id][1] <= 5*keep {
				h.fail("trace %d is banned", id)
			}
		}
	}
	h.end()
}
