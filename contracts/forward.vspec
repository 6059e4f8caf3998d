# Fan-out of finished traces to the sinks (C24)

# the n-th trace received and what the converter says to its k-th span
ufun fspan(n int, k int) proxy.Span
ufun flen(n int) int
ufun fconv(n int, k int) proxy.Span
ufun fok(n int, k int) bool
ghostvar fnum int
ghostvar fk int
ghostvar fsent int
ghostvar flast proxy.Trace
ghostvar fused set(int)
macro fkeeps(n int, k int) = fok(n, k) && fconv(n, k).Id != 0 && fconv(n, k).Trace != 0
# how many of the first k spans are kept
rec fkept(n int, k int) int = ite(k <= 0, 0, fkept(n, k - 1) + ite(fkeeps(n, k - 1), 1, 0))
macro fresult(v proxy.Trace, n int) = len(v) == fkept(n, flen(n)) && (forall k int {fkept(n, k)} :: 0 <= k && k < flen(n) && fkeeps(n, k) ==> 0 <= fkept(n, k) && fkept(n, k) < len(v) && v[fkept(n, k)] == fconv(n, k))
macro fdone(m int) = fk == flen(fnum) && fsent == m && (m > 0 ==> fresult(flast, fnum))

func zipkinproxy.forwardSpansToChannels(source, targets, converter)
  option loops=invariant
  option merge
  props C24
  requires source != nil && converter != nil && (forall i int :: 0 <= i && i < len(targets) ==> targets[i] != nil)
  requires fnum == 0 && fk == 0 && fsent == len(targets) && flen(0) == 0 && len(flast) == 0
  modifies everything
  # a trace is finished before the next one is taken, and what was sent is left alone
  onrecv source(trace, ok) requires [finished] fdone(len(targets))
  # the memory of a trace is not one that was given to the sinks before
  onrecv source(trace, ok) assume ok ==> !fused[obj(trace)] && obj(trace) != obj(targets) && obj(trace) != obj(flast)
  onrecv source(trace, ok) assume ok ==> flen(fnum + 1) == len(trace) && (forall i int :: 0 <= i && i < len(trace) ==> trace[i] == fspan(fnum + 1, i))
  onrecv source(trace, ok) set fnum := ite(ok, fnum + 1, 0 - 1)
  onrecv source(trace, ok) set fk := 0
  onrecv source(trace, ok) set fsent := 0
  oncall converter(span, r, err) requires [inorder] fsent == 0 && 0 <= fk && fk < flen(fnum) && span == fspan(fnum, fk)
  oncall converter(span, r, err) assume r == fconv(fnum, fk) && (err == nil <==> fok(fnum, fk))
  oncall converter(span, r, err) set fk := fk + 1
  onsend any(ch, v) requires [target] 0 <= fsent && fsent < len(targets) && ch == targets[fsent]
  onsend any(ch, v) requires [all] fk == flen(fnum) && fresult(v, fnum)
  onsend any(ch, v) requires [memory] fsent == 0 ==> !fused[obj(v)]
  onsend any(ch, v) set fsent := fsent + 1
  onsend any(ch, v) set flast := v
  onsend any(ch, v) set fused := store(fused, obj(v), true)
  # ends only when the source is closed
  ensures [closed] fnum == 0 - 1
  loopinv fdone(len(targets))
  loopinv fk == flen(fnum)
  loopinv (i int) fsent == i
  loopinv (i int) i > 0 ==> fresult(flast, fnum)
  loopinv (i int) fk == i
  loopinv (i int, s []proxy.Span) len(s) == fkept(fnum, i) && len(s) <= i
  loopinv (i int) forall k int {fkept(fnum, k)} :: 0 <= k && k < i ==> 0 <= fkept(fnum, k) && fkept(fnum, k) <= fkept(fnum, i)
  loopinv (i int, s []proxy.Span) forall k int {fkept(fnum, k)} :: 0 <= k && k < i && fkeeps(fnum, k) ==> fkept(fnum, k) < fkept(fnum, i) && s[fkept(fnum, k)] == fconv(fnum, k)
  loopinv (i int, s []proxy.Span) forall k int :: i <= k && k < flen(fnum) ==> s[k] == fspan(fnum, k)
  loopinv (s []proxy.Span) fsent == 0 ==> !fused[obj(s)]
