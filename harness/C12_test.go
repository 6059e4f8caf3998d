// verif pkg=./codec always
package codec

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// pieces of documents: few members per object so that most are not mentioned
func vc12Str(h *vH) string {
	return []string{`"alpha"`, `"beta"`, `"gamma-long-value"`, `""`, `"cs"`, `"sr"`, `"client"`}[h.rng.Intn(7)]
}

func vc12Id(h *vH) string { return fmt.Sprintf(`"%x"`, 1+h.rng.Intn(1<<20)) }

func vc12Obj(h *vH, full bool, members ...func() string) string {
	s := "{"
	for n := 0; n < 2; n++ {
		for _, m := range members {
			if n == 0 && (full || h.rng.Intn(3) > 0) || n == 1 && h.rng.Intn(12) == 0 {
				if len(s) > 1 {
					s += ","
				}
				s += m()
			}
		}
	}
	return s + "}"
}

func vc12Arr(h *vH, n int, f func() string) string {
	var e []string
	for ; n > 0; n-- {
		e = append(e, f())
	}
	return "[" + strings.Join(e, ",") + "]"
}

func vc12Doc(h *vH, kind int) string {
	full := h.rng.Intn(3) == 0
	num := func() string { return fmt.Sprint(h.rng.Intn(1000000)) }
	ep := func() string { return `"endpoint":` + vc12Obj(h, full, func() string { return `"serviceName":` + vc12Str(h) }) }
	span := func() string {
		if kind == 1 {
			return vc12Obj(h, full,
				func() string { return `"traceId":` + vc12Id(h) },
				func() string { return `"id":` + vc12Id(h) },
				func() string { return `"parentId":` + vc12Id(h) },
				func() string { return `"name":` + vc12Str(h) },
				func() string { return `"timestamp":` + num() },
				func() string { return `"duration":` + num() },
				func() string {
					return `"annotations":` + vc12Arr(h, h.rng.Intn(6), func() string {
						return vc12Obj(h, full, func() string { return `"timestamp":` + num() }, func() string { return `"value":` + []string{`"cs"`, `"cr"`, `"sr"`, `"ss"`}[h.rng.Intn(4)] }, ep)
					})
				},
				func() string {
					return `"binaryAnnotations":` + vc12Arr(h, h.rng.Intn(6), func() string {
						return vc12Obj(h, full, func() string { return `"key":` + vc12Str(h) }, func() string { return `"value":` + vc12Str(h) }, ep)
					})
				})
		}
		return vc12Obj(h, full,
			func() string { return `"traceId":` + vc12Id(h) },
			func() string { return `"id":` + vc12Id(h) },
			func() string { return `"parentId":` + vc12Id(h) },
			func() string { return `"name":` + vc12Str(h) },
			func() string { return `"kind":` + vc12Str(h) },
			func() string { return `"timestamp":` + num() },
			func() string { return `"duration":` + num() },
			func() string {
				s := "{"
				for i := h.rng.Intn(4); i > 0; i-- {
					s += fmt.Sprintf(`"k%d":%s `, h.rng.Intn(5), vc12Str(h))
				}
				return `"tags":` + s + "}"
			},
			func() string {
				return `"localEndpoint":` + vc12Obj(h, full, func() string { return `"serviceName":` + vc12Str(h) })
			})
	}
	if kind == 3 {
		sp := vc12Arr(h, h.rng.Intn(4), func() string {
			return vc12Obj(h, full,
				func() string { return `"traceID":` + vc12Id(h) },
				func() string { return `"spanID":` + vc12Id(h) },
				func() string { return `"operationName":` + vc12Str(h) },
				func() string { return `"startTime":` + num() },
				func() string { return `"duration":` + num() },
				func() string { return `"processID":` + vc12Str(h) },
				func() string {
					return `"tags":` + vc12Arr(h, h.rng.Intn(3), func() string { return `{"key":` + vc12Str(h) + `,"value":` + vc12Str(h) + `}` })
				})
		})
		return `{"data":[{"spans":` + sp + `,"processes":{"alpha":{"serviceName":"one"}}}]}`
	}
	n := h.rng.Intn(5)
	if h.rng.Intn(20) == 0 {
		n = 60 + h.rng.Intn(80)
	}
	d := vc12Arr(h, n, span)
	if h.rng.Intn(4) == 0 && len(d) > 2 { // breaks off half way
		d = d[:1+h.rng.Intn(len(d)-1)]
		if h.rng.Intn(2) == 0 {
			d += "!"
		}
	}
	return d
}

func TestVerifC12(t *testing.T) {
	h := vStart(t)
	parsers := map[int]func(io.Reader) ([]proxy.Span, error){1: ParseJsonV1, 2: ParseJsonV2, 3: ParseJaeger}
	norm := func(s []proxy.Span) []proxy.Span {
		r := append([]proxy.Span{}, s...)
		return r
	}
	kinds := []int{1, 1, 1, 1, 2, 2, 3}
	for i := 0; h.more(); i++ {
		kind := kinds[h.rng.Intn(len(kinds))]
		parse := parsers[kind]
		var docs []string
		for k := 2 + h.rng.Intn(4); k > 0; k-- {
			docs = append(docs, vc12Doc(h, kind))
		}
		h.begin("format %d, one after the other: %s", kind, strings.Join(docs, "  ;  "))
		last := docs[len(docs)-1]
		// what the last one yields on memory that nothing was decoded into
		vc12Drain()
		want, werr := parse(strings.NewReader(last))
		want = norm(want)
		vc12Drain()
		var held []proxy.Span
		var heldCopy string
		for k, d := range docs {
			got, err := parse(strings.NewReader(d))
			if k == 0 && err == nil {
				held = got
				heldCopy = fmt.Sprintf("%+v", got)
			}
			if k == len(docs)-1 {
				if (err == nil) != (werr == nil) || !reflect.DeepEqual(norm(got), want) {
					h.fail("the last document alone: %+v %v\nafter the others: %+v %v", want, werr, got, err)
				}
			}
		}
		if held != nil && fmt.Sprintf("%+v", held) != heldCopy {
			h.fail("the spans of the first document changed: %s -> %+v", heldCopy, held)
		}
	}
	h.end()
}

// drops the memory that is kept for reuse
func vc12Drain() {
	runtime.GC()
	runtime.GC()
}
