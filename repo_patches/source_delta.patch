From db0845d6ba960c136b8e58cf4550cc96759dd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 01/12] fix: grow the json buffer for tokens that do not fit

A string or number longer than the buffer made the parser read into an
empty slice forever.
---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..926be0b 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// a token fills the whole buffer, make room for the rest of it
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+64)
+		copy(buf, p.buffer)
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From 0259f66ac5bde8fc6ecae8de7b0f80f4ead67402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 02/12] fix: decode the json escapes \\b, \\f, \\n, \\r and \\t

They were decoded to the letter that follows the backslash.
---
 codec/hyperjson/string.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..ab35c00 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,8 +24,8 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			// append escaped character
+			decoded = append(decoded, unescapeChar(ch))
 			continue
 		}
 
@@ -72,3 +72,21 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 	n := utf8.EncodeRune(buf, r)
 	return target[:len(target)+n], nil
 }
+
+// the character denoted by a backslash followed by ch
+func unescapeChar(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		return ch
+	}
+}
-- 
2.43.0


From 9d8c97640691415ba4e4e693bea94b8d18f376a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 03/12] fix: decode json surrogate pairs to the character they
 denote

Both halves were replaced by U+FFFD.
---
 codec/hyperjson/string.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index ab35c00..8e51bac 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -37,21 +38,45 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
+		var consumed int
 		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		decoded, consumed, err = decodeUnicodeChar(decoded, input[idx:])
 		if err != nil {
 			return nil, err
 		}
 
-		// skip 3 of the consumed characters, the last one
+		// skip all but one of the consumed characters, the last one
 		// will be skipped by the for loop
-		idx += 3
+		idx += consumed - 1
 	}
 
 	return decoded, nil
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+func decodeUnicodeChar(target []byte, input []byte) ([]byte, int, error) {
+	r, err := decodeHexRune(input)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	consumed := 4
+
+	// two consecutive escapes might be a surrogate pair that denotes one character
+	if utf16.IsSurrogate(r) && len(input) >= 10 && input[4] == '\\' && input[5] == 'u' {
+		if low, err := decodeHexRune(input[6:]); err == nil {
+			if pair := utf16.DecodeRune(r, low); pair != utf8.RuneError {
+				r = pair
+				consumed = 10
+			}
+		}
+	}
+
+	buf := target[len(target) : len(target)+4]
+	n := utf8.EncodeRune(buf, r)
+	return target[:len(target)+n], consumed, nil
+}
+
+func decodeHexRune(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -62,15 +87,13 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
-	buf := target[len(target) : len(target)+4]
-	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return r, nil
 }
 
 // the character denoted by a backslash followed by ch
-- 
2.43.0


From daaeb97260daabdbc26cd8b7f2b5ac56a4175570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 04/12] fix: accept exponents written with E or + in json
 numbers

The number ended in front of these characters and the rest of the
document was rejected.
---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 926be0b..6683dba 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From 0770b39a0db7edf1ba55145853c9c980e0441bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 05/12] fix: reject json numbers that do not fit into 64 bits

They were silently decoded to a different number.
---
 codec/hyperjson/bind.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index e7376d0..dbc862b 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -4,6 +4,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/cache"
 	"github.com/modern-go/reflect2"
 	"github.com/pkg/errors"
+	"math"
 	"unsafe"
 )
 
@@ -21,7 +22,12 @@ func Uint64ValueDecoder(target unsafe.Pointer, p *Parser) error {
 			return errors.Errorf("Unexpected character in number: '%c'", ch)
 		}
 
-		result = result*10 + uint64(ch-'0')
+		digit := uint64(ch - '0')
+		if result > (math.MaxUint64-digit)/10 {
+			return errors.Errorf("Number does not fit into 64 bits: '%s'", tok.Value)
+		}
+
+		result = result*10 + digit
 	}
 
 	// assign to target
-- 
2.43.0


From 5c588814db06a26ff9ffe090886f421462fd61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 06/12] fix: limit the nesting of skipped json values

A deeply nested document overflowed the stack, which ends the process.
---
 codec/hyperjson/parser.go      |  3 +++
 codec/hyperjson/parser_skip.go | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 6683dba..5acbb4c 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,9 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+
+	// number of objects and arrays that are currently being skipped
+	depth int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..9e130c7 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,9 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// skipping a value recurses once per nested object or array
+const maxDepth = 10_000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -27,11 +30,18 @@ func (p *Parser) skip(next Type) error {
 	case TypeNull:
 		_, err = p.readNull()
 
-	case TypeObjectBegin:
-		err = p.skipObject()
+	case TypeObjectBegin, TypeArrayBegin:
+		if p.depth >= maxDepth {
+			return errors.New("json is nested too deep")
+		}
 
-	case TypeArrayBegin:
-		err = p.skipArray()
+		p.depth++
+		if next == TypeObjectBegin {
+			err = p.skipObject()
+		} else {
+			err = p.skipArray()
+		}
+		p.depth--
 
 	default:
 		err = errors.Errorf("can not skip unexpected symbol of type '%s'", next)
-- 
2.43.0


From 78efa3cc3929b4d14e45fec48e850111dcdcdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 07/12] fix: count the spans of a trace without overflow

The counter wrapped around at 65536 spans, so huge traces looked small.
---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..7009117 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From d5a2cfc3c2f3db7588ca6e048bbf8e56ae27f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 08/12] fix: make a new root span its own parent

Using the trace id as parent, the injected root was not a root if its
trace contains a span with the id of the trace.
---
 proxy/span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/span.go b/proxy/span.go
index 22fa71a..b0cccc6 100644
--- a/proxy/span.go
+++ b/proxy/span.go
@@ -37,7 +37,7 @@ func NewSpan(name string, trace, id, parent Id) Span {
 }
 
 func NewRootSpan(name string, trace, id Id) Span {
-	return NewSpan(name, trace, id, trace)
+	return NewSpan(name, trace, id, id)
 }
 
 func (span *Span) HasParent() bool {
-- 
2.43.0


From a9717f7f5a5531494ae3c2df45dab5ed9268b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 09/12] fix: list the buffered spans in the order they were
 received

Once the ring had wrapped around the newest spans came first.
---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..9857a74 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		// the slot that will be overwritten next holds the oldest span
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From dc2da25834e598ab807ee7c2fa30a510bfee54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 10/12] fix: check the length of a string before allocating it

A message of a few bytes could make the decoder allocate 2 GB.
---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..c3ca056 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -146,6 +146,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", nil
 	}
 
+	// do not allocate memory for data that is not there
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len > pooledBufferSliceLength {
 		bb := make([]byte, len)
 		if _, err = io.ReadFull(r, bb); err != nil {
-- 
2.43.0


From 4842a0be8c8e52e1ab838e699565013373cc96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 11/12] fix: clear all annotations of a reused v1 span

---
 codec/json-v1.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..f51f375 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -231,11 +231,14 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 
 		span.Annotations = [4]annotationV1{}
 
-		for idx := range span.BinaryAnnotations {
-			span.BinaryAnnotations[idx] = binaryAnnotationV1{}
+		// clear the whole memory of the slice, a previous document might have
+		// left values behind its end
+		annotations := span.BinaryAnnotations[:cap(span.BinaryAnnotations)]
+		for idx := range annotations {
+			annotations[idx] = binaryAnnotationV1{}
 		}
 
-		span.BinaryAnnotations = span.BinaryAnnotations[:0]
+		span.BinaryAnnotations = annotations[:0]
 
 		return decoder(target, p)
 	}
-- 
2.43.0


From f79712cc491046d3ff760fa6fe1d980513559e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 12/12] fix: empty the slice before decoding a json array into
 it

---
 codec/hyperjson/bind.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index dbc862b..bca2985 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -93,6 +93,9 @@ func MakeSliceDecoder(sliceType reflect2.SliceType, decoder ValueDecoder) ValueD
 			return errors.WithMessage(err, "decoding "+sliceType.String())
 		}
 
+		// the target might have elements already
+		sliceType.UnsafeGrow(target, 0)
+
 		var idx int
 		for {
 			// check the next token type
-- 
2.43.0

