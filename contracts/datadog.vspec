# The datadog sink (C26, C27)

# drec(k) is the k-th span that comes in, dnum the number of spans that came in, dfrom the number that
# came in before the current batch
ufun drec(k int) proxy.Span
ghostvar dnum int
ghostvar dfrom int
# the timer went off and the batch is due
ghostvar ddue bool
ghostvar dclosed bool
ghostvar dtick bool
# the batch that the span with the number watch was put into, and where that batch began
ghostvar dbatch map[uint64][]*tracer.Span
ghostvar dbase int
ghostvar dsent bool

macro dgroup(k int) = wrapu64(drec(k).Trace)
# how many of the spans b to n-1 have the trace id g
rec dcount(b int, n int, g int) int = ite(n <= b, 0, dcount(b, n - 1, g) + ite(dgroup(n - 1) == g, 1, 0))

macro derror(s proxy.Span) = has(s.Tags, "error") && s.Tags["error"] != "false" && s.Tags["error"] != "0"
macro dids(d tracer.Span, s proxy.Span) = d.SpanID == wrapu64(s.Id) && d.TraceID == wrapu64(s.Trace) && d.ParentID == wrapu64(s.Parent)
macro dtexts(d tracer.Span, s proxy.Span) = d.Service == s.Service && d.Name == s.Service && d.Resource == ite(s.Name == "", "(resource empty)", s.Name) && d.Meta == s.Tags
macro dtimes(d tracer.Span, s proxy.Span) = d.Start == s.Timestamp && d.Duration == max(s.Duration, 1000)
macro dflag(d tracer.Span, s proxy.Span) = (derror(s) ==> d.Error == 1) && (!derror(s) ==> d.Error == 0)
macro dmirrors(d tracer.Span, s proxy.Span) = dids(d, s) && dtexts(d, s) && dtimes(d, s) && dflag(d, s)

# span k is in its group, after the earlier spans of the group
macro dplace(m map[uint64][]*tracer.Span, b int, k int) = has(m, dgroup(k)) && dcount(b, k, dgroup(k)) >= 0 && dcount(b, k, dgroup(k)) < len(m[dgroup(k)])
macro dspan(m map[uint64][]*tracer.Span, b int, k int) = m[dgroup(k)][dcount(b, k, dgroup(k))]
# the map has the spans b to n-1
macro dkeys(m map[uint64][]*tracer.Span, b int, n int) = forall g int :: has(m, g) <==> dcount(b, n, g) > 0
macro dlens(m map[uint64][]*tracer.Span, b int, n int) = forall g int :: has(m, g) ==> len(m[g]) == dcount(b, n, g)
lemma notneg(b int, n int, g int) induction n auto {dcount(b, n, g)}
  props C26, C27
  requires b >= 0
  ensures dcount(b, n, g) >= 0 && (n >= b ==> dcount(b, n, g) <= n - b)
macro dspans(m map[uint64][]*tracer.Span, b int, n int) = forall k int {drec(k)} :: b <= k && k < n ==> dplace(m, b, k) && dspan(m, b, k) != nil && dmirrors(*dspan(m, b, k), drec(k))

# the slot p is not one that gets used for a span to come
macro dused(p *tracer.Span, free []tracer.Span) = allocated(p) && (obj(p) != obj(free) || idx(p) < off(free))
macro sgroups(m map[uint64][]*tracer.Span) = forall g int, h int :: g != h && has(m, g) && has(m, h) ==> obj(m[g]) != obj(m[h])
macro dkept(watch int) = dsent ==> dbase >= 0 && dplace(dbatch, dbase, watch) && dspan(dbatch, dbase, watch) != nil && dmirrors(*dspan(dbatch, dbase, watch), drec(watch))

func datadog.Sink(transport, tracesCh)
  option lemmas=notneg
  props C26, C27
  option merge
  option loops=invariant
  ghost watch int
  requires tracesCh != nil && transport != nil && !logTraces && !spending && dnum == 0 && dfrom == 0 && !ddue && !dtick && !dclosed && !dsent
  modifies everything
  onrecv tracesCh(trace, ok) requires [full,C27] dnum - dfrom < 1000
  onrecv tracesCh(trace, ok) requires [timer,C27] dnum > dfrom ==> !ddue
  onrecv tracesCh(trace, ok) requires [kept,C27] dkept(watch)
  onrecv tracesCh(trace, ok) assume len(trace) <= 1000000000000
  onrecv tracesCh(trace, ok) assume forall i int :: 0 <= i && i < len(trace) ==> trace[i] == drec(dnum + i)
  onrecv tracesCh(trace, ok) set dnum := dnum + len(trace)
  onrecv tracesCh(trace, ok) set ddue := false
  onrecv tracesCh(trace, ok) set dtick := false
  onrecv tracesCh(trace, ok) set dclosed := !ok
  onrecv chan_time.Time(ch, t, ok) requires [timer,C27] dnum > dfrom ==> !ddue
  onrecv chan_time.Time(ch, t, ok) requires [kept,C27] dkept(watch)
  onrecv chan_time.Time(ch, t, ok) set ddue := true
  onrecv chan_time.Time(ch, t, ok) set dtick := true
  # a tick right after a batch was handed on may pass
  oncall time.Since(t, d) set ddue := ddue && d >= 2000000000
  onsend any(ch, v) requires [groups] v != nil && dkeys(v, dfrom, dnum) && dlens(v, dfrom, dnum)
  onsend any(ch, v) requires [spans] dspans(v, dfrom, dnum)
  onsend any(ch, v) requires [apart] sgroups(v) && len(v) > 0
  onsend any(ch, v) requires [notempty,C27] dnum > dfrom
  onsend any(ch, v) requires [when,C27] dnum - dfrom >= 1000 || dtick
  onsend any(ch, v) requires [kept,C27] dkept(watch)
  onsend any(ch, v) set dbatch := ite(dfrom <= watch && watch < dnum, v, dbatch)
  onsend any(ch, v) set dbase := ite(dfrom <= watch && watch < dnum, dfrom, dbase)
  onsend any(ch, v) set dsent := dsent || dfrom <= watch && watch < dnum
  onsend any(ch, v) set dfrom := dnum
  # the queue is full, the batch is dropped
  ondrop any(ch, v) set dfrom := dnum
  ensures [closed,C27] dclosed
  loopinv (c int) c == dnum - dfrom
  loopinv (c int, i int, tr proxy.Trace) c == dnum - len(tr) - dfrom
  loopinv 0 <= dfrom
  loopinv dfrom <= dnum && dnum - dfrom < 1000 && (dnum > dfrom ==> !ddue) && !dclosed
  loopinv dkept(watch)
  loopinv dsent ==> watch < dfrom
  loopinv (m map) m != nil
  loopinv (m map) dkeys(m, dfrom, dnum)
  loopinv (m map) dlens(m, dfrom, dnum)
  loopinv (m map) forall g int :: has(m, g) ==> allocated(m[g])
  loopinv (m map) dspans(m, dfrom, dnum)
  loopinv (m map, s []tracer.Span) forall k int {drec(k)} :: dfrom <= k && k < dnum ==> dused(dspan(m, dfrom, k), s)
  loopinv (m map) forall g int, h int :: g != h && has(m, g) && has(m, h) ==> obj(m[g]) != obj(m[h])
  loopinv (m map) dsent ==> m != dbatch
  loopinv dsent ==> allocated(dbatch) && allocated(dbatch[dgroup(watch)])
  loopinv (m map) dsent ==> (forall g int :: has(m, g) ==> obj(m[g]) != obj(dbatch[dgroup(watch)]))
  loopinv (s []tracer.Span) dsent ==> dused(dspan(dbatch, dbase, watch), s)
  loopinv (m map, i int, tr proxy.Trace) dkeys(m, dfrom, dnum - len(tr) + i)
  loopinv (m map, i int, tr proxy.Trace) dlens(m, dfrom, dnum - len(tr) + i)
  loopinv (m map, i int, tr proxy.Trace) dspans(m, dfrom, dnum - len(tr) + i)
  loopinv (m map, s []tracer.Span, i int, tr proxy.Trace) forall k int {drec(k)} :: dfrom <= k && k < dnum - len(tr) + i ==> dused(dspan(m, dfrom, k), s)
  loopinv (m map) dnum > dfrom ==> len(m) > 0
  loopinv (m map, i int, tr proxy.Trace) dnum - len(tr) + i > dfrom ==> len(m) > 0
  loopinv (tr proxy.Trace) dfrom <= dnum - len(tr)
  loopinv (i int, tr proxy.Trace) forall k int :: i <= k && k < len(tr) ==> tr[k] == drec(dnum - len(tr) + k)

# the batch that is to be sent
ghostvar sbatch map[uint64][]*tracer.Span
ghostvar spending bool

extern tracer.Transport.SendTraces(t, traces) (resp, err)


func datadog.submitTraces(transport, spansByTrace)
  option merge
  option loops=invariant
  props C27
  requires spansByTrace != nil && transport != nil && !logTraces && !spending
  modifies everything
  onrecv spansByTrace(buffer, ok) requires [sent] !spending
  onrecv spansByTrace(buffer, ok) assume ok ==> buffer != nil && sgroups(buffer)
  onrecv spansByTrace(buffer, ok) assume ok ==> (forall g int :: has(buffer, g) ==> allocated(buffer[g]))
  onrecv spansByTrace(buffer, ok) set sbatch := buffer
  # batches have a group
  onrecv spansByTrace(buffer, ok) assume ok ==> len(buffer) > 0
  onrecv spansByTrace(buffer, ok) set spending := ok
  oncall tracer.Transport.SendTraces(t, traces, resp, err) requires [once] spending
  # as many groups as the batch has, each a group of it and no two the same: all of them
  oncall tracer.Transport.SendTraces(t, traces, resp, err) requires [all] len(traces) == len(sbatch)
  oncall tracer.Transport.SendTraces(t, traces, resp, err) requires [only] forall i int :: 0 <= i && i < len(traces) ==> (exists g int :: has(sbatch, g) && traces[i] == sbatch[g])
  oncall tracer.Transport.SendTraces(t, traces, resp, err) requires [distinct] forall i int, j int :: 0 <= i && i < j && j < len(traces) ==> obj(traces[i]) != obj(traces[j])
  oncall tracer.Transport.SendTraces(t, traces, resp, err) set spending := false
  ensures [sent] !spending
  loopinv !spending
  loopinv (s [][]*tracer.Span, it iter) forall i int :: 0 <= i && i < len(s) ==> (exists g int :: visited(it, g) && s[i] == sbatch[g])
  loopinv (s [][]*tracer.Span) forall i int, j int :: 0 <= i && i < j && j < len(s) ==> obj(s[i]) != obj(s[j])
  loopinv (s [][]*tracer.Span, it iter) len(s) == visits(it)
  loopinv (it iter) forall g int :: visited(it, g) ==> has(sbatch, g)
