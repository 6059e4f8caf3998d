// verif pkg=./cache always
package cache

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC15(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more(); i++ {
		max := 1 + h.rng.Intn(700)
		if h.rng.Intn(4) == 0 {
			max = 1 + h.rng.Intn(5000)
		}
		c := NewLRUCache(max)
		var model []string // most recently used first
		ops := ""
		n := 1 + h.rng.Intn(60)
		keys := 1 + h.rng.Intn(20)
		for k := 0; k < n; k++ {
			key := fmt.Sprint("k", h.rng.Intn(keys))
			if h.rng.Intn(6) == 0 {
				key = strings.Repeat("long", h.rng.Intn(60)) + key
			}
			at := -1
			for j := range model {
				if model[j] == key {
					at = j
				}
			}
			if h.rng.Intn(2) == 0 {
				ops += " get " + key
				h.begin("maximum %d:%s", max, ops)
				got := c.Get(key)
				if at < 0 && got != "" || at >= 0 && got != key {
					h.fail("get yields %q, there are %q", got, model)
				}
				if at >= 0 {
					model = append([]string{key}, append(append([]string{}, model[:at]...), model[at+1:]...)...)
				}
			} else {
				ops += " set " + key
				h.begin("maximum %d:%s", max, ops)
				c.Set(key)
				if at >= 0 {
					model = append([]string{key}, append(append([]string{}, model[:at]...), model[at+1:]...)...)
				} else {
					// the least recently used ones go until the size is below the maximum
					size := func() int {
						s := 0
						for _, m := range model {
							s += len(m) + itemOverhead
						}
						return s
					}
					for size() >= max {
						model = model[:len(model)-1]
					}
					model = append([]string{key}, model...)
				}
			}
			// the map, the list in both directions, count and size agree
			want := strings.Join(model, " ")
			var fw, bw []string
			e := c.usage.head
			for j := 0; e != nil && j <= len(model); j++ {
				fw = append(fw, e.Value)
				e = e.next
			}
			e = c.usage.tail
			for j := 0; e != nil && j <= len(model); j++ {
				bw = append([]string{e.Value}, bw...)
				e = e.prev
			}
			if strings.Join(fw, " ") != want || strings.Join(bw, " ") != want {
				h.fail("the usage list is %q, backwards %q, the entries should be %q", fw, bw, model)
			}
			size := 0
			for _, m := range model {
				size += len(m) + itemOverhead
				if e := c.values[m]; e == nil || e.Value != m {
					h.fail("%q is not in the map", m)
				}
			}
			if len(c.values) != len(model) || c.Count() != len(model) || c.Size() != size {
				h.fail("%d entries in the map, count %d, size %d; there are %d of size %d", len(c.values), c.Count(), c.Size(), len(model), size)
			}
		}
	}
	h.end()
}
