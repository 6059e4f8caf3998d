// verif pkg=. always
package zipkinproxy

import (
	"fmt"
	"sync"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"
)

// many goroutines use the shared string cache and one span buffer at the same time (run with -race)
func TestVerifC29(t *testing.T) {
	h := vStart(t)
	reg := metrics.NewRegistry()
	cache.RegisterCacheMetrics(reg)
	for i := 0; h.more(); i++ {
		n := 1 + h.rng.Intn(40)
		b := NewSpansBuffer(uint(n))
		ch := make(chan proxy.Trace, 4)
		keys := 1 + h.rng.Intn(200)
		size := 1 + h.rng.Intn(2000)
		rounds := 1 + h.rng.Intn(60)
		seed := h.rng.Int63()
		h.begin("6 users of the string cache, %d strings of %d bytes, 2 readers of its gauges; a buffer of %d spans with one writer and 3 readers, %d rounds", keys, size, n, rounds)
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		run := func(f func(k int, rnd uint64)) {
			wg.Add(1)
			x := uint64(seed)
			go func() {
				defer wg.Done()
				for k := 0; k < rounds; k++ {
					x = x*6364136223846793005 + 1442695040888963407
					f(k, x>>33)
				}
			}()
			seed += 77
		}
		for w := 0; w < 6; w++ {
			w := w
			run(func(k int, rnd uint64) {
				want := fmt.Sprintf("%0*d", size, int(rnd)%keys+w%3*1000000*(i%7))
				var got string
				if rnd%2 == 0 {
					buf := []byte(want)
					got = cache.StringForByteSliceCopy(buf)
					for j := range buf {
						buf[j] = 'x'
					}
				} else {
					got = cache.StringForByteSliceNoCopy([]byte(want))
				}
				if got != want {
					bad <- fmt.Sprintf("the cache returns %.40q for %.40q", got, want)
				}
			})
		}
		for w := 0; w < 2; w++ {
			run(func(k int, rnd uint64) {
				s := reg.Get("binary.cache.size").(metrics.Gauge).Value()
				c := reg.Get("binary.cache.count").(metrics.Gauge).Value()
				if s < 0 || c < 0 || s > 100<<20 {
					bad <- fmt.Sprintf("the gauges of the cache are %d and %d", s, c)
				}
			})
		}
		done := make(chan bool)
		go func() { b.ReadFrom(ch); close(done) }()
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := 1
			for k := 0; k < rounds; k++ {
				tr := make(proxy.Trace, 1+k%5)
				for j := range tr {
					tr[j] = proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(id)}
					id++
				}
				ch <- tr
			}
			close(ch)
		}()
		for w := 0; w < 3; w++ {
			run(func(k int, rnd uint64) {
				s := b.ToSlice()
				for j := range s {
					if s[j].Trace != s[j].Id {
						bad <- fmt.Sprintf("a reader sees the halfway written span %+v", s[j])
					}
					if j > 0 && s[j].Id != s[j-1].Id+1 {
						bad <- fmt.Sprintf("a reader sees span %d after span %d", s[j].Id, s[j-1].Id)
					}
				}
			})
		}
		wg.Wait()
		<-done
		select {
		case m := <-bad:
			h.fail("%s", m)
		default:
		}
	}
	h.end()
}
