// verif pkg=. always
package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"
)

// a document with spans of the given ids
func vc13Doc(h *vH, kind int, ids []uint64) string {
	var e []string
	for _, id := range ids {
		switch kind {
		case 1:
			s := fmt.Sprintf(`{"traceId":"%x","id":"%x","name":"n%x","timestamp":%d,"duration":5`, id/10+1, id, id, id)
			if h.rng.Intn(3) == 0 {
				s += `,"annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"x"}}],"binaryAnnotations":[{"key":"a","value":true}]`
			}
			e = append(e, s+"}")
		case 2:
			s := fmt.Sprintf(`{"traceId":"%x","id":"%x","name":"n%x","timestamp":%d`, id/10+1, id, id, id)
			if h.rng.Intn(3) == 0 {
				s += `,"tags":{"a":"b"},"kind":"CLIENT","other":[1,{"x":null}]`
			}
			e = append(e, s+"}")
		case 3:
			e = append(e, fmt.Sprintf(`{"traceID":"%x","spanID":"%x","operationName":"n%x","startTime":%d,"duration":7}`, id/10+1, id, id, id))
		}
	}
	sep := []string{",", ", ", ",\n"}[h.rng.Intn(3)]
	if kind == 3 {
		k := h.rng.Intn(len(e) + 1)
		return `{"data":[{"spans":[` + strings.Join(e[:k], sep) + `],"processes":{}},{"spans":[` + strings.Join(e[k:], sep) + `]}]}`
	}
	return "[" + strings.Join(e, sep) + "]"
}

type vc13Body struct {
	b []byte
	h *vH
	n int
}

func (r *vc13Body) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, fmt.Errorf("EOF of the body reached: %w", errEOF13)
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	return n, nil
}

var errEOF13 = fmt.Errorf("connection lost")

func TestVerifC13(t *testing.T) {
	h := vStart(t)
	paths := map[int]string{1: "/api/v1/spans", 2: "/api/v2/spans", 3: "/api/jaeger/spans"}
	out := make(chan proxy.Span, 1)
	router := httprouter.New()
	handleSpans(router, out)
	handler := handleGzipRequestBody(router)
	for i := 0; h.more(); i++ {
		kind := 1 + h.rng.Intn(3)
		n := h.rng.Intn(6)
		if h.rng.Intn(20) == 0 {
			n = 60 + h.rng.Intn(100)
		}
		var ids []uint64
		for k := 0; k < n; k++ {
			ids = append(ids, uint64(1+h.rng.Intn(100000)))
		}
		doc := vc13Doc(h, kind, ids)
		good := true
		how := "good"
		// every one of these makes the document one that can not be parsed
		if h.rng.Intn(2) == 0 {
			good = false
			switch h.rng.Intn(5) {
			case 0:
				how = "cut off"
				doc = doc[:h.rng.Intn(len(doc))]
			case 1:
				how = "the last closing bracket replaced"
				doc = doc[:len(doc)-1] + []string{"!", "x", `"`}[h.rng.Intn(3)]
			case 2:
				how = "not an array"
				doc = []string{"", " ", "null", "5", `"x"`, "tru", `{"id":1}[`}[h.rng.Intn(7)]
				if kind == 3 {
					doc = []string{"", " ", "5", `"x"`, "tru", "[", "[]"}[h.rng.Intn(7)]
				}
				ids = nil
			case 3:
				// a bad span at the end
				how = "the last span is bad"
				bad := map[int][]string{
					1: {`{"id":"xyz"}`, `{"timestamp":-1}`, `{"id":"11111111111111111"}`, `{"duration":1.5}`, `{"name":"\u12"}`, `{"timestamp":18446744073709551616}`, "5", `{"annotations":{}}`},
					2: {`{"id":"xyz"}`, `{"timestamp":-1}`, `{"traceId":"g"}`, `{"duration":"5"}`, `{"name":"\uD8"}`, `{"timestamp":99999999999999999999}`, "5", `{"tags":[]}`},
					3: {`{"spanID":"xyz"}`, `{"startTime":-1}`, `{"traceID":"g"}`, `{"duration":1.5}`, "5", `{"tags":{}}`, `{"startTime":18446744073709551616}`}}[kind]
				b := bad[h.rng.Intn(len(bad))]
				if kind == 3 {
					doc = doc[:len(doc)-2]
					doc = doc[:len(doc)-1] + `,"x":1},{"spans":[` + b + `]}]}`
					if !strings.Contains(doc, `]}`) {
						continue
					}
				} else if n > 0 {
					doc = doc[:len(doc)-1] + "," + b + "]"
				} else {
					doc = "[" + b + "]"
				}
			case 4:
				how = "the connection breaks"
			}
		}
		if kind == 3 && how == "the last span is bad" {
			doc = `{"data":[{"spans":[` + strings.TrimSuffix(strings.TrimPrefix(vc13Doc(h, 3, nil), `{"data":[{"spans":[],"processes":{}},{"spans":[`), `]}]}`) + `{"spanID":"xyz"}]}]}`
			ids = nil
		}
		body := []byte(doc)
		ctype := "application/json"
		if kind == 1 {
			switch h.rng.Intn(8) {
			case 0:
				ctype = "application/json; charset=utf-8"
			case 1:
				ctype, good, how = []string{"application/x-thrift", "", "text/plain"}[h.rng.Intn(3)], false, how+", no json content type"
			}
		}
		gz := h.rng.Intn(3)
		if gz > 0 {
			var b bytes.Buffer
			w := gzip.NewWriter(&b)
			w.Write(body)
			w.Close()
			body = b.Bytes()
			if h.rng.Intn(5) == 0 {
				good = false
				switch h.rng.Intn(3) {
				case 0:
					body, how = []byte(doc), how+", announced as gzip but plain"
				case 1:
					body, how = body[:h.rng.Intn(10)], how+", the gzip header is cut off"
				case 2:
					body, how = append([]byte{0x1f, 0x8c}, body[2:]...), how+", a bad gzip header"
				}
			}
		}
		req := httptest.NewRequest("POST", paths[kind], bytes.NewReader(body))
		if how == "the connection breaks" {
			body = body[:h.rng.Intn(len(body))]
			if gz > 0 && len(body) > 10 {
				body = body[:10]
			}
			req = httptest.NewRequest("POST", paths[kind], &vc13Body{body, h, 1 + h.rng.Intn(50)})
		}
		if ctype != "" {
			req.Header.Set("Content-Type", ctype)
		}
		if gz > 0 {
			req.Header.Set("Content-Encoding", "gzip")
		}
		h.begin("format %d, %s, gzip %v, document %q", kind, how, gz > 0, doc)
		rec := httptest.NewRecorder()
		done := make(chan bool)
		go func() {
			handler.ServeHTTP(rec, req)
			close(done)
		}()
		var got []proxy.Span
		open := true
		for open {
			select {
			case s := <-out:
				got = append(got, s)
			case <-done:
				open = false
			}
		}
		for len(out) > 0 {
			got = append(got, <-out)
		}
		if i%200 == 0 {
			select {
			case s := <-out:
				h.fail("a span arrives later: %+v", s)
			case <-time.After(20 * time.Millisecond):
			}
		}
		want := http.StatusBadRequest
		if good {
			want = http.StatusAccepted
		}
		if rec.Code != want {
			h.fail("the answer is %d, not %d: %s", rec.Code, want, rec.Body)
		}
		if !good && len(got) > 0 {
			h.fail("%d spans enter the system", len(got))
		}
		if good {
			for k := range ids {
				if k >= len(got) {
					h.fail("%d of %d spans arrive", len(got), len(ids))
				}
				if s := got[k]; s.Id != proxy.Id(ids[k]) || s.Trace != proxy.Id(ids[k]/10+1) || s.Name != fmt.Sprintf("n%x", ids[k]) {
					h.fail("span %d is %+v", k, s)
				}
			}
			if len(got) != len(ids) {
				h.fail("%d spans arrive, not %d", len(got), len(ids))
			}
		}
	}
	h.end()
}
