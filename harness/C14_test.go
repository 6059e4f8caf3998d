// verif pkg=./cache always
package cache

import (
	"fmt"
	"sync"
	"testing"
)

var vc14Sink string

func TestVerifC14(t *testing.T) {
	h := vStart(t)
	type held struct{ got, want string }
	var keep []held
	buf := make([]byte, 4096)
	for i := 0; h.more(); i++ {
		var content []byte
		switch h.rng.Intn(5) {
		case 0:
			content = []byte(fmt.Sprint("key", h.rng.Intn(50)))
		case 1:
			content = []byte(h.str(h.rng.Intn(5)))
		case 2:
			content = h.bytes(h.rng.Intn(3))
		case 3:
			content = []byte(fmt.Sprintf("%0*d", 1+h.rng.Intn(300), h.rng.Intn(30)))
		case 4:
			content = []byte(fmt.Sprint("value number ", h.rng.Intn(100000)))
		}
		if i%2000 == 1999 { // make room: drop what is cached
			for k := 0; k < 6; k++ {
				StringForByteSliceNoCopy(append(make([]byte, 0, 1<<20), []byte(fmt.Sprintf("%0*d", 1<<20, i*10+k))...))
			}
		}
		want := string(content)
		var got string
		how := h.rng.Intn(5)
		h.begin("call %d, content %q", how, content)
		switch how {
		case 0, 1: // the caller goes on using its buffer
			b := buf[h.rng.Intn(100):]
			b = b[:copy(b, content)]
			got = StringForByteSliceCopy(b)
			if got != want {
				h.fail("the result is %q", got)
			}
			for k := range buf {
				buf[k] = byte('a' + h.rng.Intn(3))
			}
		case 2:
			got = StringForByteSliceNoCopy(append([]byte(nil), content...))
		case 3:
			vc14Sink = string(content) // memory of its own
			got = String(vc14Sink)
		case 4: // the same memory with one content after the other
			b := buf[:len(content)]
			for k := 0; k < 3 && len(b) > 0; k++ {
				copy(b, content)
				b[0] = byte('A' + k)
				w := string(b)
				g := StringForByteSliceCopy(b)
				if g != w {
					h.fail("%q yields %q", w, g)
				}
				keep = append(keep, held{g, w})
			}
			copy(b, content)
			got = StringForByteSliceCopy(b)
			for k := range b {
				b[k] = '*'
			}
		}
		if got != want {
			h.fail("the result is %q", got)
		}
		keep = append(keep, held{got, want})
		if len(keep) > 300 {
			keep = keep[100:]
		}
		if i%16 == 0 {
			for _, k := range keep {
				if k.got != k.want {
					h.fail("the string returned for %q changed to %q", k.want, k.got)
				}
			}
		}
		if i%20000 == 10 {
			vc14Parallel(h)
		}
	}
	h.end()
}

// several users with buffers of their own
func vc14Parallel(h *vH) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			buf := make([]byte, 64)
			var got, want []string
			for k := 0; k < 3000; k++ {
				w := fmt.Sprint("p", (k*7+g*k)%97)
				b := buf[:copy(buf, w)]
				got = append(got, StringForByteSliceCopy(b))
				want = append(want, w)
			}
			for k := range got {
				if got[k] != want[k] {
					mu.Lock()
					bad = fmt.Sprintf("%q yields %q", want[k], got[k])
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != "" {
		h.fail("with several users at once: %s", bad)
	}
}
