# The JSON reader (C04, C05, C06, C07, C08)

# the document: its k-th byte and its length; jread bytes of it were taken from the input so far
ufun jdoc(k int) int
ufun jlen() int
ghostvar jread int
# the input ended or failed
ghostvar jend bool

axiom jbytes forall k int {jdoc(k)} :: 0 <= jdoc(k) && jdoc(k) <= 255
# where the last string with escapes was
ghostvar jdat int

# the buffer holds the last bytes that were read
macro jok(p *hyperjson.Parser) = 0 <= p.tail && p.tail <= p.head && p.head <= len(p.buffer) && len(p.buffer) <= p2(42) && (p.input == nil ==> p.eof) && (p.eof ==> jend) && 0 <= p.depth && p.depth <= 10000 && p.head - p.tail <= jread && jdat < jread - (p.head - p.tail) && jread <= jlen() && jlen() <= p2(40)
macro jbuf(p *hyperjson.Parser) = forall k int :: p.tail <= k && k < p.head ==> p.buffer[k] == jdoc(jread - p.head + k)
# position in the document
macro jpos(p *hyperjson.Parser) = jread - (p.head - p.tail)

macro jspace(c int) = c == 9 || c == 10 || c == 11 || c == 12 || c == 13 || c == 32 || c == ':' || c == ',' || c == 133 || c == 160
macro jnum(c int) = c == '-' || '0' <= c && c <= '9'
macro jnumc(c int) = jnum(c) || c == '.' || c == 'e' || c == 'E' || c == '+'
macro jtype(c int) = ite(jspace(c), 9, ite(jnum(c), 7, ite(c == 'n', 1, ite(c == 't' || c == 'f', 6, ite(c == '"', 8, ite(c == '{', 2, ite(c == '}', 3, ite(c == '[', 4, ite(c == ']', 5, 0)))))))))

# an input delivers the document in order and does not go on for ever delivering nothing
extern io.Reader.Read(r, b) (n, err)
  modifies b[0:len(b)], jread, jend
  ensures 0 <= n && n <= len(b) && jread == old(jread) + n && jread <= jlen()
  ensures err == nil && len(b) > 0 ==> n > 0
  ensures forall k int :: 0 <= k && k < n ==> b[k] == jdoc(old(jread) + k)
  ensures jend <==> err != nil

func hyperjson.isCharSpace(b) (r)
  props C05 C07
  ensures [space] r <==> jspace(b)

func hyperjson.isCharDigit(b) (r)
  props C05 C06 C07
  ensures [digit] r <==> jnum(b)

func hyperjson.Parser.bufferMore(p) (err)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [pos] err == nil ==> jpos(p) == old(jpos(p))
  ensures [progress] err == nil ==> jread > old(jread)
  ensures [end] err != nil ==> jend
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)

func hyperjson.Parser.skipWhitespace(p) (err)
  props C05 C07
  option terminates
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [stops] err == nil ==> p.tail < p.head && !jspace(jdoc(jpos(p)))
  ensures [skips] err == nil ==> jpos(p) >= old(jpos(p)) && (forall k int :: old(jpos(p)) <= k && k < jpos(p) ==> jspace(jdoc(k)))
  ensures [end] err != nil ==> jend
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv jpos(p) >= old(jpos(p))
  loopinv forall k int :: old(jpos(p)) <= k && k < jpos(p) ==> jspace(jdoc(k))
  variant 2 * jlen() - jpos(p) - jread

# a number is the longest run of number characters; it ends before another character
macro jnumber(s int, n int) = n >= 1 && jnum(jdoc(s)) && (forall k int :: s < k && k < s + n ==> jnumc(jdoc(k)))

func hyperjson.Parser.currentType(p) (t, err)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  ensures [type] t == jtype(jdoc(jpos(p)))
  ensures [fails] err == nil <==> t != 0

func hyperjson.Parser.mustCurrentType(p) (t)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  ensures [type] t == jtype(jdoc(jpos(p)))

func hyperjson.Parser.wrongTypeError(p, expected) (err)
  props C07
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  ensures [fails] err != nil

func hyperjson.Parser.readNumber(p) (tok, err)
  props C05 C06 C07
  option terminates
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [token] err == nil ==> tok.Type == 7 && jnumber(old(jpos(p)), len(tok.Value)) && !jnumc(jdoc(jpos(p)))
  ensures [text] err == nil ==> forall k int :: 0 <= k && k < len(tok.Value) ==> tok.Value[k] == jdoc(old(jpos(p)) + k)
  ensures [pos] err == nil ==> jpos(p) == old(jpos(p)) + len(tok.Value) && p.tail < p.head
  ensures [fails] err != nil ==> !jnum(jdoc(old(jpos(p)))) || jend
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv p.tail < p.head
  loopinv jpos(p) == old(jpos(p)) && jnum(jdoc(jpos(p)))
  loopinv (n int) n >= 1 && n <= p.head - p.tail
  loopinv (n int) forall k int :: jpos(p) < k && k < jpos(p) + n ==> jnumc(jdoc(k))
  variant 2 * jlen() - jread
  variant p.head - p.tail

func hyperjson.Parser.ReadNumber(p) (tok, err)
  props C05 C06 C07
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [token] err == nil ==> tok.Type == 7 && jnumber(jpos(p) - len(tok.Value), len(tok.Value)) && !jnumc(jdoc(jpos(p))) && p.tail < p.head
  ensures [text] err == nil ==> forall k int :: 0 <= k && k < len(tok.Value) ==> tok.Value[k] == jdoc(jpos(p) - len(tok.Value) + k)
  ensures [skips] err == nil ==> jpos(p) - len(tok.Value) >= old(jpos(p)) && (forall k int :: old(jpos(p)) <= k && k < jpos(p) - len(tok.Value) ==> jspace(jdoc(k)))

# whether the character after the first n of a string that starts at s is escaped
rec jesc(s int, n int) bool = ite(n <= 0, false, !jesc(s, n - 1) && jdoc(s + n - 1) == '\\')
# the n characters after s are followed by the first quote that is not escaped
macro jstring(s int, n int) = n >= 0 && jdoc(s + n) == '"' && !jesc(s, n) && (forall k int {jesc(s, k)} :: 0 <= k && k < n ==> jesc(s, k) || jdoc(s + k) != '"')
macro jplain(s int, n int) = forall k int :: s <= k && k < s + n ==> jdoc(k) != '\\'
# what the text of the last string with escapes was decoded to, and the length of that text
ghostvar jdec []byte
ghostvar jraw int

func hyperjson.Parser.readString(p) (tok, err)
  props C04 C05 C07
  option terminates
  option axioms=vstring
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head && len(jdec) >= 0 && jraw == jraw
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jdat, jdec, jraw
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  oncall hyperjson.decodeStringInPlace(t, r, e) requires [raw] jdoc(old(jpos(p))) == '"' && jstring(old(jpos(p)) + 1, len(t)) && !jplain(old(jpos(p)) + 1, len(t)) && (forall k int :: 0 <= k && k < len(t) ==> t[k] == jdoc(old(jpos(p)) + 1 + k))
  oncall hyperjson.decodeStringInPlace(t, r, e) set jdec := r
  oncall hyperjson.decodeStringInPlace(t, r, e) set jdat := old(jpos(p)) - 1
  oncall hyperjson.decodeStringInPlace(t, r, e) set jraw := len(t)
  ensures [token] err == nil ==> tok.Type == 8 && jdoc(old(jpos(p))) == '"' && jstring(old(jpos(p)) + 1, jpos(p) - old(jpos(p)) - 2)
  ensures [value] err == nil ==> jvalue(old(jpos(p)), jpos(p))
  ensures [plain] err == nil && jdat != old(jpos(p)) ==> len(tok.Value) == jpos(p) - old(jpos(p)) - 2 && jplain(old(jpos(p)) + 1, len(tok.Value)) && (forall k int :: 0 <= k && k < len(tok.Value) ==> tok.Value[k] == jdoc(old(jpos(p)) + 1 + k))
  ensures [decoded] err == nil && jdat == old(jpos(p)) ==> jraw == jpos(p) - old(jpos(p)) - 2 && tok.Value == jdec
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv p.tail < p.head
  loopinv jpos(p) == old(jpos(p)) + 1 && jdoc(old(jpos(p))) == '"'
  loopinv (n int) n >= 0 && n <= p.head - p.tail
  loopinv (n int, e bool) e <==> jesc(jpos(p), n)
  loopinv (n int, e bool) e <==> !jplain(jpos(p), n)
  loopinv (n int) forall k int {jesc(jpos(p), k)} :: 0 <= k && k < n ==> jesc(jpos(p), k) || jdoc(jpos(p) + k) != '"'
  variant 2 * jlen() - jread
  variant p.head - p.tail

# ---- C04: escapes ----

# text of length n in a from offset o; the character denoted by backslash u at offset q
macro hx(c int) = '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
macro hv(c int) = ite('0' <= c && c <= '9', c - '0', ite('a' <= c && c <= 'f', c - 'a' + 10, c - 'A' + 10))
macro hex4(a arr(int), q int) = hx(a[q]) && hx(a[q + 1]) && hx(a[q + 2]) && hx(a[q + 3])
macro val4(a arr(int), q int) = 4096 * hv(a[q]) + 256 * hv(a[q + 1]) + 16 * hv(a[q + 2]) + hv(a[q + 3])
# a high surrogate followed by an escaped low surrogate; q is the position of the first digit, e the end of the text
macro jpair(a arr(int), q int, e int) = 55296 <= val4(a, q) && val4(a, q) < 56320 && q + 10 <= e && a[q + 4] == '\\' && a[q + 5] == 'u' && hex4(a, q + 6) && 56320 <= val4(a, q + 6) && val4(a, q + 6) < 57344
macro jrune(a arr(int), q int, e int) = ite(jpair(a, q, e), 65536 + (val4(a, q) - 55296) * 1024 + (val4(a, q + 6) - 56320), ite(55296 <= val4(a, q) && val4(a, q) < 57344, 65533, val4(a, q)))
# UTF-8
macro u8len(r int) = ite(r < 128, 1, ite(r < 2048, 2, ite(r < 65536, 3, 4)))
macro u8byte(r int, t int) = ite(r < 128, r, ite(r < 2048, ite(t == 0, 192 + r / 64, 128 + r % 64), ite(r < 65536, ite(t == 0, 224 + r / 4096, ite(t == 1, 128 + (r / 64) % 64, 128 + r % 64)), ite(t == 0, 240 + r / 262144, ite(t == 1, 128 + (r / 4096) % 64, ite(t == 2, 128 + (r / 64) % 64, 128 + r % 64))))))
opaque jhex(a arr(int), q int) bool = hex4(a, q)
opaque jpr(a arr(int), q int, e int) bool = jpair(a, q, e)
opaque jr(a arr(int), q int, e int) int = jrune(a, q, e)
opaque jul(r int) int = u8len(r)
opaque jby(r int, t int) int = u8byte(r, t)

lemma jbounds(r int) auto {jul(r)}
  props C04
  ensures 1 <= jul(r) && jul(r) <= 4

lemma jfits(a arr(int), q int, e int) auto {jpr(a, q, e)}
  props C04
  ensures jpr(a, q, e) ==> q + 10 <= e

lemma jsame(a arr(int), b arr(int), q int, e int)
  props C04
  requires forall k int :: k >= q ==> a[k] == b[k]
  ensures jhex(a, q) == jhex(b, q) && jpr(a, q, e) == jpr(b, q, e) && jr(a, q, e) == jr(b, q, e)

macro junesc(c int) = ite(c == 'b', 8, ite(c == 'f', 12, ite(c == 'n', 10, ite(c == 'r', 13, ite(c == 't', 9, c)))))

func hyperjson.unescapeChar(ch) (r)
  props C04
  ensures [char] r == junesc(ch)

func hyperjson.decodeHexRune(input) (r, err)
  props C04 C07
  requires len(input) >= 4
  ensures [accept] err == nil <==> hex4(elems(input), off(input))
  ensures [value] err == nil ==> r == val4(elems(input), off(input))

func hyperjson.decodeUnicodeChar(target, input) (r, n, err)
  props C04 C07
  option reveal=jhex,jpr,jr,jul,jby
  # the target is the part of the text in front of the input that was read already
  requires len(input) >= 4 && len(target) + 4 <= cap(target) && len(target) <= p2(40) && len(input) <= p2(40)
  requires obj(target) == obj(input) && off(target) + len(target) + 2 <= off(input)
  modifies spare(target)
  ensures [accept] err == nil <==> old(jhex(elems(input), off(input)))
  ensures [consumed] err == nil ==> n == ite(old(jpr(elems(input), off(input), off(input) + len(input))), 10, 4)
  ensures [size] err == nil ==> obj(r) == obj(target) && off(r) == off(target) && cap(r) == cap(target) && len(r) == len(target) + jul(old(jr(elems(input), off(input), off(input) + len(input))))
  ensures [bytes] err == nil ==> forall t int :: 0 <= t && t < 4 && len(target) + t < len(r) ==> r[len(target) + t] == jby(old(jr(elems(input), off(input), off(input) + len(input))), t)
  ensures [kept] forall k int {elems(target)[k]} :: k < off(target) + len(target) || k >= off(target) + len(target) + 4 ==> elems(target)[k] == old(elems(target)[k])

# how many characters the character or escape at position i of the text takes, whether it is valid and how many bytes it denotes
macro jstep(a arr(int), o int, n int, i int) = ite(a[o + i] != '\\', 1, ite(a[o + i + 1] != 'u', 2, ite(jpr(a, o + i + 2, o + n), 12, 6)))
macro jgood(a arr(int), o int, n int, i int) = a[o + i] != '\\' || i + 1 < n && (a[o + i + 1] != 'u' || i + 5 < n && jhex(a, o + i + 2))
macro jwid(a arr(int), o int, n int, i int) = ite(a[o + i] == '\\' && a[o + i + 1] == 'u', jul(jr(a, o + i + 2, o + n)), 1)
macro jbyte(a arr(int), o int, n int, i int, t int) = ite(a[o + i] != '\\', a[o + i], ite(a[o + i + 1] != 'u', junesc(a[o + i + 1]), jby(jr(a, o + i + 2, o + n), t)))
# how many of the characters from position i on belong to what started before
rec jrem(a arr(int), o int, n int, i int) int = ite(i <= 0, 0, ite(jrem(a, o, n, i - 1) > 0, jrem(a, o, n, i - 1) - 1, jstep(a, o, n, i - 1) - 1))
# how many bytes the first i characters denote
rec jout(a arr(int), o int, n int, i int) int = ite(i <= 0, 0, jout(a, o, n, i - 1) + ite(jrem(a, o, n, i - 1) == 0, jwid(a, o, n, i - 1), 0))

lemma jskip(a arr(int), o int, n int, i int, j int) induction j
  props C04
  requires 0 <= i && 1 <= j && j <= jstep(a, o, n, i) && jrem(a, o, n, i) == 0
  ensures jrem(a, o, n, i + j) == jstep(a, o, n, i) - j
  ensures jout(a, o, n, i + j) == jout(a, o, n, i) + jwid(a, o, n, i)

func hyperjson.decodeStringInPlace(input) (r, err)
  props C04 C07
  option lemmas=jbounds,jfits
  requires len(input) <= p2(40)
  modifies input[0:len(input)]
  ensures [memory] err == nil ==> obj(r) == obj(input) && off(r) == off(input) && len(r) <= len(input)
  ensures [length] err == nil ==> len(r) == jout(old(elems(input)), off(input), len(input), len(input))
  ensures [valid] err == nil ==> (forall i int {jrem(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 ==> jgood(old(elems(input)), off(input), len(input), i))
  ensures [text0] err == nil ==> (forall i int {jout(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 && 0 < jwid(old(elems(input)), off(input), len(input), i) ==> r[jout(old(elems(input)), off(input), len(input), i) + 0] == jbyte(old(elems(input)), off(input), len(input), i, 0))
  ensures [text1] err == nil ==> (forall i int {jout(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 && 1 < jwid(old(elems(input)), off(input), len(input), i) ==> r[jout(old(elems(input)), off(input), len(input), i) + 1] == jbyte(old(elems(input)), off(input), len(input), i, 1))
  ensures [text2] err == nil ==> (forall i int {jout(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 && 2 < jwid(old(elems(input)), off(input), len(input), i) ==> r[jout(old(elems(input)), off(input), len(input), i) + 2] == jbyte(old(elems(input)), off(input), len(input), i, 2))
  ensures [text3] err == nil ==> (forall i int {jout(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 && 3 < jwid(old(elems(input)), off(input), len(input), i) ==> r[jout(old(elems(input)), off(input), len(input), i) + 3] == jbyte(old(elems(input)), off(input), len(input), i, 3))
  ensures [fails] err != nil ==> !(forall i int {jrem(old(elems(input)), off(input), len(input), i)} :: 0 <= i && i < len(input) && jrem(old(elems(input)), off(input), len(input), i) == 0 ==> jgood(old(elems(input)), off(input), len(input), i))
  loopinv (i int) jrem(old(elems(input)), off(input), len(input), i) == 0 && 0 <= i && i <= len(input)
  loopinv (i int, d bytes) obj(d) == obj(input) && off(d) == off(input) && cap(d) == len(input) && len(d) == jout(old(elems(input)), off(input), len(input), i)
  loopinv (i int) jout(old(elems(input)), off(input), len(input), i) <= i
  loopinv (i int) forall k int :: k >= off(input) + i ==> elems(input)[k] == old(elems(input)[k])
  loopinv (i int) forall k int {jrem(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 ==> jgood(old(elems(input)), off(input), len(input), k)
  loopinv (i int) forall k int {jout(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 ==> jout(old(elems(input)), off(input), len(input), k) >= 0 && jout(old(elems(input)), off(input), len(input), k) + jwid(old(elems(input)), off(input), len(input), k) <= jout(old(elems(input)), off(input), len(input), i)
  loopinv (i int, d bytes) forall k int {jout(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 && 0 < jwid(old(elems(input)), off(input), len(input), k) ==> d[jout(old(elems(input)), off(input), len(input), k) + 0] == jbyte(old(elems(input)), off(input), len(input), k, 0)
  loopinv (i int, d bytes) forall k int {jout(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 && 1 < jwid(old(elems(input)), off(input), len(input), k) ==> d[jout(old(elems(input)), off(input), len(input), k) + 1] == jbyte(old(elems(input)), off(input), len(input), k, 1)
  loopinv (i int, d bytes) forall k int {jout(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 && 2 < jwid(old(elems(input)), off(input), len(input), k) ==> d[jout(old(elems(input)), off(input), len(input), k) + 2] == jbyte(old(elems(input)), off(input), len(input), k, 2)
  loopinv (i int, d bytes) forall k int {jout(old(elems(input)), off(input), len(input), k)} :: 0 <= k && k < i && jrem(old(elems(input)), off(input), len(input), k) == 0 && 3 < jwid(old(elems(input)), off(input), len(input), k) ==> d[jout(old(elems(input)), off(input), len(input), k) + 3] == jbyte(old(elems(input)), off(input), len(input), k, 3)
  loopuse (i int) jsame(elems(input), old(elems(input)), off(input) + i + 2, off(input) + len(input))
  loopuse (i int) forall j int :: jskip(old(elems(input)), off(input), len(input), i, j)

# ---- C06: unsigned numbers ----

# value of the decimal digits s to s+n-1 of the document
rec jnat(s int, n int) int = ite(n <= 0, 0, 10 * jnat(s, n - 1) + (jdoc(s + n - 1) - '0'))
macro jdigits(s int, n int) = forall k int :: s <= k && k < s + n ==> '0' <= jdoc(k) && jdoc(k) <= '9'
ghostvar jtok int
ghostvar jtoklen int

func hyperjson.Uint64ValueDecoder(target, p) (err)
  props C06
  requires target != nil && jtok == 0 && jtoklen == 0
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jtok, jtoklen, *as(target, "*uint64")
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  oncall hyperjson.Parser.ReadNumber(q, tok, e) requires [parser] q == p
  oncall hyperjson.Parser.ReadNumber(q, tok, e) set jtok := ite(e == nil, jpos(p) - len(tok.Value), 0)
  oncall hyperjson.Parser.ReadNumber(q, tok, e) set jtoklen := ite(e == nil, len(tok.Value), 0)
  ensures [number] err == nil ==> jtoklen >= 1 && jpos(p) == jtok + jtoklen && jnumber(jtok, jtoklen) && !jnumc(jdoc(jpos(p))) && old(jpos(p)) <= jtok && (forall k int :: old(jpos(p)) <= k && k < jtok ==> jspace(jdoc(k)))
  ensures [exact] err == nil ==> jdigits(jtok, jtoklen) && jnat(jtok, jtoklen) < p2(64) && *as(target, "*uint64") == jnat(jtok, jtoklen)
  ensures [fails] err != nil && jtoklen > 0 ==> !jdigits(jtok, jtoklen) || !(forall n int {jdoc(jtok + n)} :: 0 <= n && n < jtoklen ==> jnat(jtok, n + 1) < p2(64))
  loopinv (i int) jdigits(jtok, i) && i <= jtoklen
  loopinv (i int, r uint64) r == jnat(jtok, i)
  loopinv (i int, r uint64) jnat(jtok, i + 1) == 10 * r + jdoc(jtok + i) - '0'

# from s to before e is only white space
macro jskips(s int, e int) = s <= e && (forall k int :: s <= k && k < e ==> jspace(jdoc(k)))

func hyperjson.Parser.consumeObjectBegin(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.tail
  ensures [ok] jok(p) && jbuf(p)
  ensures [symbol] err == nil <==> jdoc(old(jpos(p))) == '{'
  ensures [pos] jpos(p) == old(jpos(p)) + ite(err == nil, 1, 0)

func hyperjson.Parser.ConsumeObjectBegin(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [symbol] err == nil ==> jskips(old(jpos(p)), jpos(p) - 1) && jdoc(jpos(p) - 1) == '{'
  ensures [fails] err != nil ==> jend || jdoc(jpos(p)) != '{' && jskips(old(jpos(p)), jpos(p))

func hyperjson.Parser.consumeObjectEnd(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.tail
  ensures [ok] jok(p) && jbuf(p)
  ensures [symbol] err == nil <==> jdoc(old(jpos(p))) == '}'
  ensures [pos] jpos(p) == old(jpos(p)) + ite(err == nil, 1, 0)

func hyperjson.Parser.ConsumeObjectEnd(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [symbol] err == nil ==> jskips(old(jpos(p)), jpos(p) - 1) && jdoc(jpos(p) - 1) == '}'
  ensures [fails] err != nil ==> jend || jdoc(jpos(p)) != '}' && jskips(old(jpos(p)), jpos(p))

func hyperjson.Parser.consumeArrayBegin(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.tail
  ensures [ok] jok(p) && jbuf(p)
  ensures [symbol] err == nil <==> jdoc(old(jpos(p))) == '['
  ensures [pos] jpos(p) == old(jpos(p)) + ite(err == nil, 1, 0)

func hyperjson.Parser.ConsumeArrayBegin(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [symbol] err == nil ==> jskips(old(jpos(p)), jpos(p) - 1) && jdoc(jpos(p) - 1) == '['
  ensures [fails] err != nil ==> jend || jdoc(jpos(p)) != '[' && jskips(old(jpos(p)), jpos(p))

func hyperjson.Parser.consumeArrayEnd(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.tail
  ensures [ok] jok(p) && jbuf(p)
  ensures [symbol] err == nil <==> jdoc(old(jpos(p))) == ']'
  ensures [pos] jpos(p) == old(jpos(p)) + ite(err == nil, 1, 0)

func hyperjson.Parser.ConsumeArrayEnd(p) (err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [symbol] err == nil ==> jskips(old(jpos(p)), jpos(p) - 1) && jdoc(jpos(p) - 1) == ']'
  ensures [fails] err != nil ==> jend || jdoc(jpos(p)) != ']' && jskips(old(jpos(p)), jpos(p))

func hyperjson.Parser.NextType(p) (t, err)
  props C05 C07 C08
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [type] err == nil ==> jskips(old(jpos(p)), jpos(p)) && t == jtype(jdoc(jpos(p))) && t != 0 && t != 9 && p.tail < p.head
  ensures [fails] err != nil ==> jend || jskips(old(jpos(p)), jpos(p)) && jtype(jdoc(jpos(p))) == 0

func hyperjson.Parser.require(p, n) (err)
  props C05 C07
  option terminates
  requires p != nil && jok(p) && jbuf(p) && 0 <= n && n <= p2(40)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [available] err == nil ==> p.head - p.tail >= n && jpos(p) == old(jpos(p))
  ensures [end] err != nil ==> jend
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv jpos(p) == old(jpos(p))
  variant jlen() - jread

func hyperjson.Parser.readN(p, tokenType, first, n) (tok, err)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p) && 1 <= n && n <= 1000
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [token] err == nil ==> tok.Type == tokenType && len(tok.Value) == n && jdoc(old(jpos(p))) == first && jpos(p) == old(jpos(p)) + n
  ensures [text] err == nil ==> forall k int :: 0 <= k && k < n ==> tok.Value[k] == jdoc(old(jpos(p)) + k)
  ensures [fails] err != nil ==> jend || jdoc(old(jpos(p))) != first

func hyperjson.Parser.readNull(p) (tok, err)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p)
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [token] err == nil ==> jdoc(old(jpos(p))) == 'n' && jpos(p) == old(jpos(p)) + 4 && tok.Type == 1
  ensures [fails] err != nil ==> jend || jdoc(old(jpos(p))) != 'n'

func hyperjson.Parser.readBoolean(p) (tok, err)
  props C05 C07
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [token] err == nil ==> tok.Type == 6 && (jdoc(old(jpos(p))) == 't' && jpos(p) == old(jpos(p)) + 4 || jdoc(old(jpos(p))) == 'f' && jpos(p) == old(jpos(p)) + 5)
  ensures [fails] err != nil ==> jend || jdoc(old(jpos(p))) != 't' && jdoc(old(jpos(p))) != 'f'

ghostvar jstart int

func hyperjson.Parser.ReadString(p) (tok, err)
  props C04 C05 C07 C08
  requires p != nil && jok(p) && jbuf(p) && len(jdec) >= 0 && jraw == jraw && jstart == jstart
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jstart, jdat, jdec, jraw
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  oncall hyperjson.Parser.readString(q, r, e) requires [start] q == p && jskips(old(jpos(p)), jpos(p))
  oncall hyperjson.Parser.readString(q, r, e) set jstart := old(jpos(p))
  ensures [token] err == nil ==> tok.Type == 8 && jskips(old(jpos(p)), jstart) && jdoc(jstart) == '"' && jstring(jstart + 1, jpos(p) - jstart - 2)
  ensures [plain] err == nil && jdat != jstart ==> len(tok.Value) == jpos(p) - jstart - 2 && (forall k int :: 0 <= k && k < len(tok.Value) ==> tok.Value[k] == jdoc(jstart + 1 + k))
  ensures [decoded] err == nil && jdat == jstart ==> jraw == jpos(p) - jstart - 2 && tok.Value == jdec

# ---- C07, C08: skipping ----

# The document has one value, an array's bracket and first values, or an object's brace and first members from s to
# before e: the smallest relations that are closed under these rules.
ufun jvalue(s int, e int) bool
ufun jvalues(s int, e int) bool
ufun jmembers(s int, e int) bool
axiom vstring forall s int, n int {jvalue(s, n)} :: jdoc(s) == '"' && jstring(s + 1, n - s - 2) ==> jvalue(s, n)
axiom vnumber forall s int, e int {jvalue(s, e)} :: jnumber(s, e - s) && !jnumc(jdoc(e)) ==> jvalue(s, e)
axiom vword forall s int, e int {jvalue(s, e)} :: (jdoc(s) == 'n' || jdoc(s) == 't') && e == s + 4 || jdoc(s) == 'f' && e == s + 5 ==> jvalue(s, e)
axiom varray forall s int, m int, e int {jvalue(s, e), jvalues(s, m)} :: jdoc(s) == '[' && jvalues(s, m) && jskips(m, e - 1) && jdoc(e - 1) == ']' ==> jvalue(s, e)
axiom vobject forall s int, m int, e int {jvalue(s, e), jmembers(s, m)} :: jdoc(s) == '{' && jmembers(s, m) && jskips(m, e - 1) && jdoc(e - 1) == '}' ==> jvalue(s, e)
axiom vnone forall s int, e int {jvalues(s, e)} :: e == s + 1 ==> jvalues(s, e)
axiom vnomember forall s int, e int {jmembers(s, e)} :: e == s + 1 ==> jmembers(s, e)
axiom vmore forall s int, m int, v int, e int {jvalues(s, e), jvalues(s, m), jvalue(v, e)} :: jvalues(s, m) && jskips(m, v) && jvalue(v, e) ==> jvalues(s, e)
axiom vmember forall s int, m int, k int, l int, v int, e int {jmembers(s, e), jmembers(s, m), jvalue(k, l), jvalue(v, e)} :: jmembers(s, m) && jskips(m, k) && jdoc(k) == '"' && jvalue(k, l) && jskips(l, v) && jvalue(v, e) ==> jmembers(s, e)

func hyperjson.Parser.skip(p, next) (err)
  props C07 C08
  option axioms=vstring,vnumber,vword,varray,vobject,vnone,vnomember,vmore,vmember
  option terminates
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head && next == jtype(jdoc(jpos(p))) && len(jdec) >= 0 && jraw == jraw
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jdat, jdec, jraw, p.depth
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [value] err == nil ==> jvalue(old(jpos(p)), jpos(p)) && p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  decreases 3 * (10001 - p.depth)

func hyperjson.Parser.Skip(p) (err)
  props C07 C08
  option axioms=vstring,vnumber,vword,varray,vobject,vnone,vnomember,vmore,vmember
  option terminates
  requires p != nil && jok(p) && jbuf(p) && len(jdec) >= 0 && jraw == jraw
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jdat, jdec, jraw, p.depth
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [value] err == nil ==> (exists v int {jvalue(v, jpos(p))} :: jskips(old(jpos(p)), v) && jvalue(v, jpos(p))) && p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  decreases 3 * (10001 - p.depth) + 1

func hyperjson.Parser.skipArray(p) (err)
  props C07 C08
  option axioms=vstring,vnumber,vword,varray,vobject,vnone,vnomember,vmore,vmember
  option terminates
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head && len(jdec) >= 0 && jraw == jraw
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jdat, jdec, jraw, p.depth
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [value] err == nil ==> jvalue(old(jpos(p)), jpos(p)) && p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  loopinv jdoc(old(jpos(p))) == '[' && jvalues(old(jpos(p)), jpos(p))
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  variant jlen() - jpos(p)
  decreases 3 * (10001 - p.depth) + 2

func hyperjson.Parser.skipObject(p) (err)
  props C07 C08
  option axioms=vstring,vnumber,vword,varray,vobject,vnone,vnomember,vmore,vmember
  option terminates
  requires p != nil && jok(p) && jbuf(p) && p.tail < p.head && len(jdec) >= 0 && jraw == jraw
  modifies p.buffer, p.tail, p.head, p.eof, elems(p.buffer), jread, jend, jdat, jdec, jraw, p.depth
  ensures [ok] err == nil ==> jok(p)
  ensures [bytes] err == nil ==> jbuf(p)
  ensures [memory] obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  ensures [value] err == nil ==> jvalue(old(jpos(p)), jpos(p)) && p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  loopinv jdoc(old(jpos(p))) == '{' && jmembers(old(jpos(p)), jpos(p))
  loopinv jok(p)
  loopinv jbuf(p)
  loopinv obj(p.buffer) == old(obj(p.buffer)) || fresh(p.buffer)
  loopinv p.depth == old(p.depth) && jpos(p) > old(jpos(p))
  variant jlen() - jpos(p)
  decreases 3 * (10001 - p.depth) + 2
