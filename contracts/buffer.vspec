# The span buffer (C25): a ring that holds the last spans received

# bufrec(k) is the k-th span that entered the ring (the initial slots count as entered before the
# first one); btotal is the number of spans that have entered it
ufun bufrec(k int) proxy.Span
ghostvar btotal int

# the slot that is overwritten next holds the oldest span
macro ringOk(b *zipkinproxy.SpansBuffer, total int) = b.position >= 0 && b.position < len(b.spans) && (forall j int :: 0 <= j && j < len(b.spans) ==> b.spans[j] == bufrec(ite(j < b.position, total - b.position + j, total - len(b.spans) - b.position + j)))

func zipkinproxy.NewSpansBuffer(capacity) (r)
  props C25
  requires capacity >= 1 && capacity < p2(40)
  ensures [empty] r != nil && r.position == 0 && len(r.spans) == capacity
  ensures [zero] forall j int :: 0 <= j && j < len(r.spans) ==> r.spans[j].Id == 0

func zipkinproxy.SpansBuffer.ReadFrom(buffer, tracesCh)
  props C25 C29
  option locks=1
  guard buffer.lock protects buffer.position, buffer.spans, elems(buffer.spans)
  requires !held(buffer.lock)
  requires buffer != nil && len(buffer.spans) >= 1
  requires ringOk(buffer, btotal)
  modifies buffer.position, elems(buffer.spans), btotal, buffer.lock
  onrecv tracesCh(trace, ok) requires [ring] ringOk(buffer, btotal)
  # nobody else has the memory of the buffer
  onrecv tracesCh(trace, ok) assume obj(trace) != obj(buffer.spans)
  onrecv tracesCh(trace, ok) assume forall i int :: 0 <= i && i < len(trace) ==> trace[i] == bufrec(btotal + i)
  onrecv tracesCh(trace, ok) set btotal := btotal + len(trace)
  ensures [ring] ringOk(buffer, btotal)
  loopinv heldsame(buffer.lock)
  loopinv heldonly(buffer.lock)
  loopinv ringOk(buffer, btotal)
  loopinv (j int, tr slice) ringOk(buffer, btotal - len(tr) + j)

# slot of the i-th oldest span
macro slot(p int, n int, i int) = ite(p + i < n, p + i, p + i - n)
# how many of the i oldest spans have a non-zero id
rec nz(a arr(proxy.Span), o int, p int, n int, i int) int = ite(i <= 0, 0, nz(a, o, p, n, i - 1) + ite(a[o + slot(p, n, i - 1)].Id != 0, 1, 0))
macro bnz(b *zipkinproxy.SpansBuffer, i int) = nz(elems(b.spans), off(b.spans), b.position, len(b.spans), i)

func zipkinproxy.SpansBuffer.ToSlice(buffer) (r)
  props C25 C29
  option locks=1
  guard buffer.lock protects buffer.position, buffer.spans, elems(buffer.spans)
  requires !held(buffer.lock)
  requires buffer != nil && len(buffer.spans) >= 1 && buffer.position >= 0 && buffer.position < len(buffer.spans)
  modifies buffer.lock
  ensures [count] len(r) == bnz(buffer, len(buffer.spans))
  ensures [shown] forall i int :: 0 <= i && i < len(buffer.spans) && buffer.spans[slot(buffer.position, len(buffer.spans), i)].Id != 0 ==> r[bnz(buffer, i)] == buffer.spans[slot(buffer.position, len(buffer.spans), i)]
  ensures [unchanged] buffer.position == old(buffer.position) && (forall j int :: 0 <= j && j < len(buffer.spans) ==> buffer.spans[j] == old(buffer.spans[j]))
  loopinv (i int, s []proxy.Span) len(s) == bnz(buffer, i) && len(s) <= i
  loopinv (i int) forall k int {bnz(buffer, k)} :: 0 <= k && k < i ==> 0 <= bnz(buffer, k) && bnz(buffer, k) <= bnz(buffer, i)
  loopinv (i int, s []proxy.Span) forall k int {bnz(buffer, k)} :: 0 <= k && k < i && buffer.spans[slot(buffer.position, len(buffer.spans), k)].Id != 0 ==> bnz(buffer, k) < bnz(buffer, i) && s[bnz(buffer, k)] == buffer.spans[slot(buffer.position, len(buffer.spans), k)]
