# Conversion of decoded spans to the common form (C09, C10, C11)

ufun eqFold(a str, b str) bool
extern strings.EqualFold(a, b) (r)
  ensures r == eqFold(a, b)

# microseconds that are still exact as nanoseconds
macro usOk(x int) = x <= 9223372036854775

func proxy.NewSpan(name, trace, id, parent) (r)
  props C09, C10, C11
  ensures [id] r.Id == id && r.Parent == parent && r.Trace == trace && r.Name == name
  ensures [empty] r.Service == "" && r.Timestamp == 0 && r.Duration == 0 && r.Tags == nil
  ensures [timings] r.Timings.CS == 0 && r.Timings.CR == 0 && r.Timings.SS == 0 && r.Timings.SR == 0

func proxy.Span.AddTag(span, key, value)
  props C09, C10, C11, C18
  requires span != nil
  modifies span.Tags, map(span.Tags)
  ensures [kept] old(span.Tags) != nil ==> span.Tags == old(span.Tags)
  ensures [new] old(span.Tags) == nil ==> fresh(span.Tags)
  ensures [set] span.Tags != nil && has(span.Tags, key) && span.Tags[key] == value
  ensures [others] forall k str :: k != key ==> (has(span.Tags, k) <==> old(has(span.Tags, k))) && (has(span.Tags, k) ==> span.Tags[k] == old(span.Tags[k]))

func proxy.Span.AddTiming(span, key, ns)
  props C09
  requires span != nil
  modifies span.Timings
  ensures [cs] span.Timings.CS == ite(key == "cs", ns, old(span.Timings.CS))
  ensures [cr] span.Timings.CR == ite(key == "cr", ns, old(span.Timings.CR))
  ensures [sr] span.Timings.SR == ite(key == "sr", ns, old(span.Timings.SR))
  ensures [ss] span.Timings.SS == ite(key == "ss", ns, old(span.Timings.SS))

# ---- C10 ----

func codec.spanV2.ToSpan(span) (r)
  props C10
  requires span != nil
  modifies *span, map(span.Tags)
  ensures [id] r.Id == old(span.ID) && r.Trace == old(span.TraceID) && r.Parent == old(span.ParentID) && r.Name == old(span.Name)
  ensures [service] r.Service == old(span.Endpoint.ServiceName)
  ensures [tags] forall k str :: k != "protocolVersion" ==> (has(r.Tags, k) <==> old(has(span.Tags, k))) && (has(r.Tags, k) ==> r.Tags[k] == old(span.Tags[k]))
  ensures [protocol] has(r.Tags, "protocolVersion") && r.Tags["protocolVersion"] == "json v2"
  ensures [timestamp] usOk(old(span.Timestamp)) ==> r.Timestamp == old(span.Timestamp) * 1000
  ensures [duration] usOk(old(span.Duration)) ==> r.Duration == ite(old(span.Duration) == 0, 1000000, old(span.Duration) * 1000)
  ensures [client] eqFold(old(span.Kind), "client") ==> r.Timings.CS == r.Timestamp && r.Timings.CR == wrapi64(r.Timestamp + r.Duration)
  ensures [notclient] !eqFold(old(span.Kind), "client") ==> r.Timings.CS == 0 && r.Timings.CR == 0
  ensures [server] eqFold(old(span.Kind), "server") ==> r.Timings.SR == r.Timestamp && r.Timings.SS == wrapi64(r.Timestamp + r.Duration)
  ensures [notserver] !eqFold(old(span.Kind), "server") ==> r.Timings.SR == 0 && r.Timings.SS == 0

# ---- C09 ----

rec bsvc(a arr(codec.binaryAnnotationV1), o int, n int) str = ite(n <= 0, "", ite(bsvc(a, o, n - 1) != "", bsvc(a, o, n - 1), a[o + n - 1].Endpoint.ServiceName))
rec bhas(a arr(codec.binaryAnnotationV1), o int, n int, k str) bool = ite(n <= 0, false, a[o + n - 1].Key == k || bhas(a, o, n - 1, k))
rec bval(a arr(codec.binaryAnnotationV1), o int, n int, k str) str = ite(n <= 0, "", ite(a[o + n - 1].Key == k, a[o + n - 1].Value, bval(a, o, n - 1, k)))

rec atime(a arr(codec.annotationV1), n int, k str) int = ite(n <= 0, 0, ite(a[n - 1].Timestamp != 0 && a[n - 1].Value == k, a[n - 1].Timestamp * 1000, atime(a, n - 1, k)))
rec asvc(a arr(codec.annotationV1), n int) str = ite(n <= 0, "", ite(asvc(a, n - 1) != "" || a[n - 1].Timestamp == 0, asvc(a, n - 1), a[n - 1].Endpoint.ServiceName))
macro v1ok(s codec.spanV1) = usOk(s.Timestamp) && usOk(s.Duration) && (forall i int :: 0 <= i && i < 4 ==> usOk(s.Annotations[i].Timestamp))
macro v1svc(s codec.spanV1, bs str) = ite(asvc(s.Annotations, 4) != "", asvc(s.Annotations, 4), bs)
macro orMs(d int) = ite(d == 0, 1000000, d)

func codec.fillInTimestamp(proxySpan) ()
  props C09
  requires proxySpan != nil
  modifies proxySpan.Timestamp, proxySpan.Duration
  ensures [client] old(proxySpan.Timings.CS) > 0 && old(proxySpan.Timings.CR) > 0 ==> proxySpan.Timestamp == proxySpan.Timings.CS && proxySpan.Duration == orMs(proxySpan.Timings.CR - proxySpan.Timings.CS)
  ensures [server] !(old(proxySpan.Timings.CS) > 0 && old(proxySpan.Timings.CR) > 0) && old(proxySpan.Timings.SR) > 0 && old(proxySpan.Timings.SS) > 0 ==> proxySpan.Timestamp == proxySpan.Timings.SR && proxySpan.Duration == orMs(proxySpan.Timings.SS - proxySpan.Timings.SR)
  ensures [own] !(old(proxySpan.Timings.CS) > 0 && old(proxySpan.Timings.CR) > 0) && !(old(proxySpan.Timings.SR) > 0 && old(proxySpan.Timings.SS) > 0) ==> proxySpan.Timestamp == old(proxySpan.Timestamp) && proxySpan.Duration == orMs(old(proxySpan.Duration))

func codec.spanV1.ToSpan(span) (r)
  props C09
  option merge
  option loops=invariant
  requires span != nil
  ensures [id] r.Id == span.ID && r.Trace == span.TraceID && r.Parent == span.ParentID && r.Name == span.Name
  ensures [unchanged] *span == old(*span)
  ensures [service] r.Service == v1svc(*span, bsvc(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), len(span.BinaryAnnotations)))
  ensures [tags] forall k str :: k != "protocolVersion" ==> (has(r.Tags, k) <==> bhas(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), len(span.BinaryAnnotations), k)) && (has(r.Tags, k) ==> r.Tags[k] == bval(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), len(span.BinaryAnnotations), k))
  ensures [protocol] has(r.Tags, "protocolVersion") && r.Tags["protocolVersion"] == "json v1"
  ensures [cs] v1ok(*span) ==> r.Timings.CS == atime(span.Annotations, 4, "cs")
  ensures [cr] v1ok(*span) ==> r.Timings.CR == atime(span.Annotations, 4, "cr")
  ensures [sr] v1ok(*span) ==> r.Timings.SR == atime(span.Annotations, 4, "sr")
  ensures [ss] v1ok(*span) ==> r.Timings.SS == atime(span.Annotations, 4, "ss")
  ensures [client] r.Timings.CS > 0 && r.Timings.CR > 0 ==> r.Timestamp == r.Timings.CS && r.Duration == orMs(r.Timings.CR - r.Timings.CS)
  ensures [server] !(r.Timings.CS > 0 && r.Timings.CR > 0) && r.Timings.SR > 0 && r.Timings.SS > 0 ==> r.Timestamp == r.Timings.SR && r.Duration == orMs(r.Timings.SS - r.Timings.SR)
  ensures [own] v1ok(*span) && !(r.Timings.CS > 0 && r.Timings.CR > 0) && !(r.Timings.SR > 0 && r.Timings.SS > 0) ==> r.Timestamp == span.Timestamp * 1000 && r.Duration == orMs(span.Duration * 1000)
  loopinv (i int, s proxy.Span) s.Service == asvc(span.Annotations, i)
  loopinv (i int, s proxy.Span) v1ok(*span) ==> s.Timings.CS == atime(span.Annotations, i, "cs") && s.Timings.CR == atime(span.Annotations, i, "cr")
  loopinv (i int, s proxy.Span) v1ok(*span) ==> s.Timings.SR == atime(span.Annotations, i, "sr") && s.Timings.SS == atime(span.Annotations, i, "ss")
  loopinv (i int, s proxy.Span) s.Service == v1svc(*span, bsvc(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), i))
  loopinv (i int, s proxy.Span) s.Tags != nil && fresh(s.Tags)
  loopinv (i int, s proxy.Span) forall k str :: has(s.Tags, k) <==> bhas(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), i, k)
  loopinv (i int, s proxy.Span) forall k str :: has(s.Tags, k) ==> s.Tags[k] == bval(elems(span.BinaryAnnotations), off(span.BinaryAnnotations), i, k)

# ---- C11 ----

macro keptTag(t codec.jaegerTag) = typeis(t.Value, "string") && t.Key != "internal.span.format" && t.Key != "span.kind"
macro jkey(k str) = ite(k == "component", "lc", k)
rec jparent(a arr(codec.jaegerSpan.References.elem), o int, n int, d int) int = ite(n <= 0, d, ite(a[o + n - 1].RefType == "CHILD_OF", a[o + n - 1].SpanId, jparent(a, o, n - 1, d)))
rec jkind(a arr(codec.jaegerTag), o int, n int) str = ite(n <= 0, "", ite(a[o + n - 1].Key == "span.kind" && typeis(a[o + n - 1].Value, "string"), unbox(a[o + n - 1].Value, "string"), jkind(a, o, n - 1)))
rec jhas(a arr(codec.jaegerTag), o int, n int, k str) bool = ite(n <= 0, false, keptTag(a[o + n - 1]) && jkey(a[o + n - 1].Key) == k || jhas(a, o, n - 1, k))
rec jval(a arr(codec.jaegerTag), o int, n int, k str) str = ite(n <= 0, "", ite(keptTag(a[o + n - 1]) && jkey(a[o + n - 1].Key) == k, unbox(a[o + n - 1].Value, "string"), jval(a, o, n - 1, k)))

macro jok(s codec.jaegerSpan) = usOk(s.Timestamp) && usOk(s.Duration)

func codec.jaegerSpan.ToSpan(span, procs) (r)
  props C11
  requires span != nil
  ensures [id] r.Id == span.SpanId && r.Trace == span.TraceId && r.Name == span.OperationName
  ensures [unchanged] *span == old(*span)
  ensures [parent] r.Parent == jparent(elems(span.References), off(span.References), len(span.References), span.SpanId)
  ensures [service] r.Service == ite(has(procs, span.ProcessId), procs[span.ProcessId].ServiceName, "")
  ensures [tags] forall k str :: k != "protocolVersion" ==> (has(r.Tags, k) <==> jhas(elems(span.Tags), off(span.Tags), len(span.Tags), k)) && (has(r.Tags, k) ==> r.Tags[k] == jval(elems(span.Tags), off(span.Tags), len(span.Tags), k))
  ensures [protocol] has(r.Tags, "protocolVersion") && r.Tags["protocolVersion"] == "jaeger"
  ensures [timestamp] usOk(span.Timestamp) ==> r.Timestamp == span.Timestamp * 1000
  ensures [duration] usOk(span.Duration) ==> r.Duration == ite(span.Duration == 0, 1000000, span.Duration * 1000)
  ensures [client] eqFold(jkind(elems(span.Tags), off(span.Tags), len(span.Tags)), "client") ==> r.Timings.CS == r.Timestamp && r.Timings.CR == wrapi64(r.Timestamp + r.Duration)
  ensures [notclient] !eqFold(jkind(elems(span.Tags), off(span.Tags), len(span.Tags)), "client") ==> r.Timings.CS == 0 && r.Timings.CR == 0
  ensures [server] eqFold(jkind(elems(span.Tags), off(span.Tags), len(span.Tags)), "server") ==> r.Timings.SR == r.Timestamp && r.Timings.SS == wrapi64(r.Timestamp + r.Duration)
  ensures [notserver] !eqFold(jkind(elems(span.Tags), off(span.Tags), len(span.Tags)), "server") ==> r.Timings.SR == 0 && r.Timings.SS == 0
  loopinv (i int, p num) p == jparent(elems(span.References), off(span.References), i, span.SpanId)
  loopinv (i int, k str) k == jkind(elems(span.Tags), off(span.Tags), i)
  loopinv (i int, s proxy.Span) s.Tags == nil || fresh(s.Tags)
  loopinv (i int, s proxy.Span) forall k str :: has(s.Tags, k) <==> jhas(elems(span.Tags), off(span.Tags), i, k)
  loopinv (i int, s proxy.Span) forall k str :: has(s.Tags, k) ==> s.Tags[k] == jval(elems(span.Tags), off(span.Tags), i, k)
