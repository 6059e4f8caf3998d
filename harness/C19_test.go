// verif pkg=.
package zipkinproxy

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC19(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 200000; i++ {
		n := h.rng.Intn(12)
		if h.rng.Intn(20) == 0 {
			n = h.rng.Intn(120)
		}
		space := 1 + h.rng.Intn(2*n+2)
		hi := h.rng.Intn(3) == 0
		tr := newTree(1)
		added := map[proxy.Id]bool{}
		var ids []proxy.Id
		desc := ""
		for k := 0; k < n; k++ {
			id := proxy.Id(1 + h.rng.Intn(space))
			if hi && h.rng.Intn(2) == 0 {
				id = ^id
			}
			s := proxy.Span{Id: id, Trace: 1, Parent: proxy.Id(h.rng.Intn(space)), Name: fmt.Sprint("n", k), Tags: map[string]string{fmt.Sprint("t", k): "v"}}
			desc += fmt.Sprintf(" %v", id)
			h.begin("adding spans with the ids%s", desc)
			before := map[proxy.Id]proxy.Span{}
			for o := range added {
				if o != id {
					if p := tr.GetSpan(o); p != nil {
						before[o] = vc19Copy(*p)
					}
				}
			}
			tr.AddSpan(s)
			if !added[id] {
				ids = append(ids, id)
			}
			added[id] = true
			all := tr.Spans()
			if len(all) != len(added) || tr.nodeCount != len(added) {
				h.fail("the trace has %d spans and says it has %d, %d ids were added", len(all), tr.nodeCount, len(added))
			}
			seen := map[proxy.Id]bool{}
			for _, x := range all {
				if seen[x.Id] || !added[x.Id] {
					h.fail("span %v is in the trace twice or was never added", x.Id)
				}
				seen[x.Id] = true
			}
			for o, x := range before {
				if p := tr.GetSpan(o); p == nil || !reflect.DeepEqual(*p, x) {
					h.fail("adding %v changes span %v from %+v to %+v", id, o, x, p)
				}
			}
			for o := range added {
				if p := tr.GetSpan(o); p == nil || p.Id != o {
					h.fail("looking up %v gives %+v", o, p)
				}
			}
			for q := 0; q < 3; q++ {
				o := proxy.Id(h.rng.Intn(space + 3))
				if !added[o] && tr.GetSpan(o) != nil {
					h.fail("looking up %v, which was never added, gives %+v", o, tr.GetSpan(o))
				}
				if tr.spans.HasSpan(o) != added[o] {
					h.fail("HasSpan(%v) is %v", o, !added[o])
				}
			}
			if (tr.Root() != nil) != added[1] {
				h.fail("the root is %+v", tr.Root())
			}
		}
	}
	h.end()
}

func vc19Copy(s proxy.Span) proxy.Span {
	m := map[string]string{}
	for k, v := range s.Tags {
		m[k] = v
	}
	s.Tags = m
	return s
}
