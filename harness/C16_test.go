// verif pkg=./balance always
package balance

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func TestVerifC16(t *testing.T) {
	h := vStart(t)
	type sent struct {
		m     *sarama.ProducerMessage
		s     proxy.Span
		topic string
	}
	check := func(x sent, when string) {
		k, err := x.m.Key.Encode()
		if err != nil || len(k) != 8 || x.m.Key.Length() != 8 || binary.LittleEndian.Uint64(k) != uint64(x.s.Trace) {
			h.fail("%s: the key is % x (%v)", when, k, err)
		}
		v, err := x.m.Value.Encode()
		if err != nil || x.m.Value.Length() != len(v) {
			h.fail("%s: the value has the length %d, %d bytes (%v)", when, x.m.Value.Length(), len(v), err)
		}
		if x.m.Topic != x.topic {
			h.fail("%s: the topic is %q", when, x.m.Topic)
		}
		r := bytes.NewReader(v)
		s, err := codec.BinaryDecode(r)
		if err != nil || r.Len() != 0 || !reflect.DeepEqual(s, x.s) {
			h.fail("%s: the value decodes to %+v (%v, %d bytes left)", when, s, err, r.Len())
		}
	}
	for i := 0; h.more(); i++ {
		n := 1 + h.rng.Intn(1500)
		target := h.rng.Intn(5)
		var all []sent
		direct := h.rng.Intn(2) == 0
		enc := &encoder{}
		for k := 0; k < n; k++ {
			s := proxy.Span{Id: proxy.Id(h.i64()), Trace: proxy.Id(h.i64()), Parent: proxy.Id(h.i64()), Timestamp: proxy.Timestamp(h.i64()), Duration: time.Duration(h.i64()), Tags: map[string]string{}}
			l := 0
			switch target {
			case 0:
				l = h.rng.Intn(30)
			case 1:
				l = 400 + h.rng.Intn(120) // around the size that is expected at most
			case 2:
				l = h.rng.Intn(1500)
			case 3:
				l = h.rng.Intn(600)
			case 4:
				l = h.rng.Intn(60)
				if h.rng.Intn(100) == 0 {
					l = 30000 + h.rng.Intn(10000)
				}
			}
			s.Name = fmt.Sprintf("%0*d", l+1, k)
			if h.rng.Intn(3) == 0 {
				s.Tags["tag"] = s.Name
			}
			x := sent{s: s, topic: fmt.Sprint("topic", k%3)}
			h.begin("message %d of a row, span of trace %d with a name of %d bytes", k, s.Trace, len(s.Name))
			if direct {
				x.m = enc.Encode(s, x.topic)
			} else {
				x.m = makeProducerMessage(s, x.topic)
			}
			check(x, "at once")
			all = append(all, x)
			if len(all) > 5 && k%7 == 0 {
				j := len(all) - 1 - h.rng.Intn(5)
				h.begin("message %d (name of %d bytes) looked at after message %d (name of %d bytes)", j, len(all[j].s.Name), k, len(s.Name))
				check(all[j], "later")
			}
		}
		for j := range all {
			h.begin("message %d (name of %d bytes) looked at after message %d", j, len(all[j].s.Name), n-1)
			check(all[j], "later")
		}
	}
	h.end()
}
