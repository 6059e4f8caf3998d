// verif pkg=./codec always
package codec

import (
	"bytes"
	"reflect"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func vc01Len(h *vH) int {
	switch h.rng.Intn(30) {
	case 0:
		return h.rng.Intn(300)
	case 1:
		return 120 + h.rng.Intn(16)
	case 2:
		return 8185 + h.rng.Intn(16)
	case 3:
		return 16380 + h.rng.Intn(10)
	case 4:
		return h.rng.Intn(70000)
	}
	return h.rng.Intn(12)
}

func TestVerifC01(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more(); i++ {
		s := proxy.Span{Id: proxy.Id(h.i64()), Trace: proxy.Id(h.i64()), Parent: proxy.Id(h.i64()), Name: h.str(vc01Len(h)), Service: h.str(vc01Len(h)),
			Timestamp: proxy.Timestamp(h.i64()), Duration: time.Duration(h.i64()),
			Timings: proxy.Timings{CS: proxy.Timestamp(h.i64()), CR: proxy.Timestamp(h.i64()), SS: proxy.Timestamp(h.i64()), SR: proxy.Timestamp(h.i64())}}
		n := 0
		switch h.rng.Intn(12) {
		case 0:
			s.Tags = nil
		case 1:
			n = h.rng.Intn(300)
			s.Tags = map[string]string{}
		case 2:
			n = 60 + h.rng.Intn(10)
			s.Tags = map[string]string{}
		default:
			n = h.rng.Intn(5)
			s.Tags = map[string]string{}
		}
		for ; n > 0; n-- {
			s.Tags[h.str(vc01Len(h))] = h.str(vc01Len(h))
		}
		before, after := h.bytes(h.rng.Intn(4)), h.bytes(h.rng.Intn(20))
		h.begin("span %+v, %d bytes before it, %d after it", s, len(before), len(after))
		buf := bytes.NewBuffer(nil)
		if h.rng.Intn(2) == 0 {
			buf = bytes.NewBuffer(make([]byte, 0, h.rng.Intn(600)))
		}
		buf.Write(before)
		if err := BinaryEncode(s, buf); err != nil {
			h.fail("encoding fails: %v", err)
		}
		n = buf.Len()
		buf.Write(after)
		data := append([]byte{}, buf.Bytes()...)
		r := bytes.NewReader(data[len(before):])
		got, err := BinaryDecode(r)
		if err != nil {
			h.fail("decoding fails: %v", err)
		}
		if r.Len() != len(after) {
			h.fail("%d bytes are left, not %d", r.Len(), len(after))
		}
		if s.Tags == nil {
			s.Tags = map[string]string{}
		}
		if got.Tags == nil {
			h.fail("the tags are nil")
		}
		// what was decoded must not depend on memory that is used again
		for k := range data {
			data[k] = 'X'
		}
		if h.rng.Intn(4) == 0 {
			other := bytes.NewBuffer(nil)
			BinaryEncode(proxy.Span{Name: h.str(vc01Len(h)), Service: h.str(vc01Len(h))}, other)
			BinaryDecode(bytes.NewReader(other.Bytes()))
		}
		if !reflect.DeepEqual(got, s) {
			h.fail("decodes to %+v", got)
		}
	}
	h.end()
}
