// verif pkg=./balance
package balance

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"testing"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type vc17Session struct {
	mark func(m *sarama.ConsumerMessage)
}

func (s vc17Session) Claims() map[string][]int32                 { return nil }
func (s vc17Session) MemberID() string                           { return "" }
func (s vc17Session) GenerationID() int32                        { return 0 }
func (s vc17Session) MarkOffset(t string, p int32, o int64, m string)  {}
func (s vc17Session) ResetOffset(t string, p int32, o int64, m string) {}
func (s vc17Session) MarkMessage(m *sarama.ConsumerMessage, meta string) { s.mark(m) }
func (s vc17Session) Context() context.Context                   { return context.Background() }
func (s vc17Session) Commit()                                    {}

type vc17Claim chan *sarama.ConsumerMessage

func (c vc17Claim) Topic() string                            { return "t" }
func (c vc17Claim) Partition() int32                         { return 0 }
func (c vc17Claim) InitialOffset() int64                     { return 0 }
func (c vc17Claim) HighWaterMarkOffset() int64               { return 0 }
func (c vc17Claim) Messages() <-chan *sarama.ConsumerMessage { return c }

func TestVerifC17(t *testing.T) {
	h := vStart(t)
	for i := 0; h.more() && i < 200000; i++ {
		n := h.rng.Intn(12)
		claim := make(vc17Claim, n)
		var msgs []*sarama.ConsumerMessage
		var want []proxy.Span
		var wantMarks []int
		desc := ""
		for k := 0; k < n; k++ {
			s := proxy.Span{Id: proxy.Id(h.i64()), Trace: proxy.Id(h.i64()), Parent: proxy.Id(h.i64()), Name: h.str(h.rng.Intn(600)), Service: h.str(h.rng.Intn(5)), Tags: map[string]string{"k": fmt.Sprint(k)}}
			var b bytes.Buffer
			codec.BinaryEncode(s, &b)
			v := append([]byte(nil), b.Bytes()...)
			switch h.rng.Intn(5) {
			case 0:
				v = v[:h.rng.Intn(len(v))]
			case 1:
				v = h.bytes(h.rng.Intn(20))
			case 2:
				v = append(v, h.bytes(h.rng.Intn(4))...)
			}
			m := &sarama.ConsumerMessage{Value: v, Offset: int64(k), Key: []byte("key"), Topic: "t"}
			d, err := codec.BinaryDecode(bytes.NewReader(append([]byte(nil), v...)))
			desc += fmt.Sprintf(" %q(%v)", v, err)
			if err == nil {
				want = append(want, d)
				wantMarks = append(wantMarks, k)
			}
			msgs = append(msgs, m)
			claim <- m
		}
		close(claim)
		h.begin("claim with the messages%s", desc)
		var got []proxy.Span
		marks := 0
		c := &consumerGroupHandler{callback: func(s proxy.Span) { got = append(got, s) }}
		se := vc17Session{mark: func(m *sarama.ConsumerMessage) {
			if marks >= len(wantMarks) || m != msgs[wantMarks[marks]] {
				h.fail("a message is marked that is not the next one that decodes (offset %d)", m.Offset)
			}
			marks++
			if marks > len(got) {
				h.fail("message %d is marked before it is handed over", m.Offset)
			}
		}}
		c.ConsumeClaim(se, claim)
		if len(got) != len(want) || marks != len(want) {
			h.fail("%d messages decode, %d are delivered, %d marked", len(want), len(got), marks)
		}
		for k := range want {
			if !reflect.DeepEqual(got[k], want[k]) {
				h.fail("delivery %d is %+v, want %+v", k, got[k], want[k])
			}
		}
	}
	h.end()
}
