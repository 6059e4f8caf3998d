# ---- C30: timestamps ----

func proxy.Microseconds(us) (r)
  props C30
  ensures [micros] r == wrapi64(us * 1000)
  ensures [exact] -9223372036854775 <= us && us <= 9223372036854775 ==> r == us * 1000

func proxy.Timestamp.ToMillis(ts) (r)
  props C30
  ensures [millis] r == tdiv(ts, 1000000)

func proxy.Timestamp.ToMicros(ts) (r)
  props C30
  ensures [micros] r == tdiv(ts, 1000)

func proxy.Timestamp.ToNanos(ts) (r)
  props C30
  ensures [nanos] r == ts

func proxy.Timestamp.ToTime(ts) (r)
  props C30
  ensures [totime] r == ts

func proxy.Timestamp.Add(ts, duration) (r)
  props C30
  ensures [add] r == wrapi64(ts + duration)

func proxy.Timestamp.IsValid(ts) (r)
  props C30
  ensures [valid] r <==> ts > 0

# ---- C03: ids ----

macro isHex(c int) = '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
macro hexOf(c int) = ite('0' <= c && c <= '9', c - '0', ite('a' <= c && c <= 'f', c - 'a' + 10, c - 'A' + 10))
# value of the first n characters of s
rec hexval(s str, n int) int = ite(n <= 0, 0, 16 * hexval(s, n - 1) + hexOf(s[n - 1]))

macro allHex(s str) = forall i int :: 0 <= i && i < len(s) ==> isHex(s[i])

func proxy.ParseId(bytes) (id, err)
  props C03
  ensures [accept] err == nil <==> len(bytes) <= 16 && (forall i int :: 0 <= i && i < len(bytes) ==> isHex(bytes[i]))
  ensures [value] err == nil ==> id == wrapi64(hexval(str(bytes), len(bytes)))
  loopinv (i int) forall j int :: 0 <= j && j < i ==> isHex(bytes[j])
  loopinv (i int, v num) v == wrapi64(hexval(str(bytes), i))

# the 16 lowercase digits of the 64 bit pattern of v
macro hexDigit(d int) = ite(d < 10, d + '0', d - 10 + 'a')
macro nibble(v int, k int) = (v / p2(60 - 4 * k)) % 16

func proxy.Id.String(id) (r)
  props C03
  ensures [length] len(r) == 16
  ensures [digits] forall k int :: 0 <= k && k < 16 ==> r[k] == hexDigit(nibble(id, k))

func proxy.Id.MarshalJSON(id) (r, err)
  props C03
  requires id != nil
  ensures [ok] err == nil
  ensures [length] len(r) == 18
  ensures [quotes] r[0] == '"' && r[17] == '"'
  ensures [digits] forall k int :: 0 <= k && k < 16 ==> r[k + 1] == hexDigit(nibble(old(*id), k))
  ensures [unchanged] *id == old(*id)

func proxy.Id.UnmarshalJSON(id, bytes) (err)
  props C03
  requires id != nil
  modifies *id
  ensures [accept] err == nil <==> len(bytes) >= 2 && len(bytes) <= 18 && bytes[0] == '"' && bytes[len(bytes) - 1] == '"' && (forall i int :: 1 <= i && i < len(bytes) - 1 ==> isHex(bytes[i]))
  ensures [value] err == nil ==> *id == wrapi64(hexval(str(bytes[1:len(bytes) - 1]), len(bytes) - 2))
  ensures [untouched] err != nil ==> *id == old(*id)

# parsing the printed digits returns the printed id
lemma roundtrip(u int, s str)
  props C03
  requires 0 <= u && u < p2(64) && len(s) == 16
  requires forall k int :: 0 <= k && k < 16 ==> s[k] == hexDigit(nibble(u, k))
  ensures forall k int :: 0 <= k && k < 16 ==> hexOf(s[k]) == nibble(u, k)
  ensures forall k int :: 1 <= k && k <= 16 ==> hexval(s, k) == u / p2(64 - 4 * k)
  ensures hexval(s, 16) == u
