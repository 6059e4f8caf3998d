# Traces: merging, the span list, roots and children, skew correction, release and shedding (C18-C23, C28)

# ---- C18 ----

macro isServer(s proxy.Span) = s.Timings.SR > 0 || s.Timings.SS > 0
macro isClient(s proxy.Span) = s.Timings.CS > 0 || s.Timings.CR > 0
# how two texts merge when the server's is w and the other is l
macro win(w str, l str) = ite(w != "", w, l)
# a is the merge of o (the span that is there) and n (the one that comes): the server half wins, without a single server half either may
macro mtext(a str, o str, n str, so bool, sn bool) = (sn && !so ==> a == win(n, o)) && (so && !sn ==> a == win(o, n)) && (a == o || a == n) && (a == "" ==> o == "" && n == "")
macro mtime(a int, o int, n int) = a == ite(n > 0, n, o)
# the tag k of the merge of the maps o and n
macro mhas(h bool, ho bool, hn bool) = h <==> ho || hn
macro mtag(a str, ho bool, o str, hn bool, n str, so bool, sn bool) = (ho && !hn ==> a == o) && (hn && !ho ==> a == n) && (ho && hn ==> a == o || a == n) && (ho && hn && sn && !so && n != "" ==> a == n) && (ho && hn && so && !sn && o != "" ==> a == o)

func zipkinproxy.mergeSpansInPlace(s, n)
  option merge
  props C18, C19, C22, C23, C28
  requires s != nil
  # each span has tags of its own
  requires n.Tags == nil || n.Tags != s.Tags
  modifies *s, map(s.Tags)
  ensures [ids] s.Id == old(s.Id) && s.Trace == old(s.Trace) && s.Parent == old(s.Parent)
  ensures [times,C18] s.Timestamp == old(s.Timestamp) && s.Duration == old(s.Duration)
  ensures [service,C18] mtext(s.Service, old(s.Service), n.Service, old(isServer(*s)), isServer(n))
  ensures [name,C18] mtext(s.Name, old(s.Name), n.Name, old(isServer(*s)), isServer(n))
  ensures [keys,C18] forall k str :: has(s.Tags, k) <==> old(has(s.Tags, k)) || has(n.Tags, k)
  ensures [tags,C18] forall k str :: has(s.Tags, k) ==> mtag(s.Tags[k], old(has(s.Tags, k)), old(s.Tags[k]), has(n.Tags, k), n.Tags[k], old(isServer(*s)), isServer(n))
  # valid timings of both are kept, a report of one side has no valid timing of the other
  ensures [client,C18] !isServer(n) ==> mtime(s.Timings.CS, old(s.Timings.CS), n.Timings.CS) && mtime(s.Timings.CR, old(s.Timings.CR), n.Timings.CR) && s.Timings.SR == old(s.Timings.SR) && s.Timings.SS == old(s.Timings.SS)
  ensures [server,C18] isServer(n) && !isClient(n) ==> mtime(s.Timings.SR, old(s.Timings.SR), n.Timings.SR) && mtime(s.Timings.SS, old(s.Timings.SS), n.Timings.SS) && s.Timings.CS == old(s.Timings.CS) && s.Timings.CR == old(s.Timings.CR)
  ensures [owntags] s.Tags == nil || s.Tags == old(s.Tags) || fresh(s.Tags) && allocated(s.Tags)
  # the other span stays as it is
  ensures [newtags] forall k str :: (has(n.Tags, k) <==> old(has(n.Tags, k))) && n.Tags[k] == old(n.Tags[k])
  loopinv (it iter) forall k str :: has(s.Tags, k) <==> visited(it, k) || old(has(s.Tags, k))
  loopinv (it iter) forall k str :: has(s.Tags, k) <==> visited(it, k) || has(n.Tags, k)
  loopinv (it iter) forall k str :: has(s.Tags, k) <==> visited(it, k)
  loopinv (it iter) forall k str :: visited(it, k) ==> has(ranged(it), k) && s.Tags[k] == ranged(it)[k]
  loopinv (it iter) forall k str :: !visited(it, k) && has(s.Tags, k) ==> s.Tags[k] == old(s.Tags[k])
  loopinv (it iter) forall k str :: !visited(it, k) && has(s.Tags, k) ==> s.Tags[k] == n.Tags[k]
  loopinv s.Tags == old(s.Tags) || fresh(s.Tags)
  loopinv s.Tags == nil || fresh(s.Tags)
  loopinv forall k str :: (has(n.Tags, k) <==> old(has(n.Tags, k))) && n.Tags[k] == old(n.Tags[k])
  loopinv forall k str :: (has(old(s.Tags), k) <==> old(has(s.Tags, k))) && old(s.Tags)[k] == old(s.Tags[k])

# ---- C19 ----

# the spans of a trace are kept in descending order of their ids, which are distinct
macro sorted(s []proxy.Span) = forall i int, j int :: 0 <= i && i < j && j < len(s) ==> s[i].Id > s[j].Id
# every span has tags of its own
macro ownTags(s []proxy.Span) = forall i int, j int :: 0 <= i && i < j && j < len(s) ==> s[i].Tags == nil || s[i].Tags != s[j].Tags
macro treeOk(t *zipkinproxy.tree) = sorted(t.spans) && t.nodeCount == len(t.spans) && len(t.spans) < p2(40)

func zipkinproxy.newTree(traceId) (r)
  props C19, C28
  ensures [empty] r != nil && r.traceId == traceId && treeOk(r) && len(r.spans) == 0
  option reveal=rown,rsorted
  ensures [new] fresh(r) && allocated(r)
  ensures [ok] sorted1(r.spans) && own1(r.spans)
  ensures [zero] r.nodeCount == 0
  ensures [none] obj(r.spans) == 0

func zipkinproxy.SpanSlice.GetSpanRef(spans, spanId) (r)
  props C18, C19, C22, C23, C28
  requires sorted(spans)
  ensures [none] r == nil ==> (forall i int :: 0 <= i && i < len(spans) ==> spans[i].Id != spanId)
  ensures [found] r != nil ==> obj(r) == obj(spans) && off(spans) <= idx(r) && idx(r) < off(spans) + len(spans) && r.Id == spanId

func zipkinproxy.SpanSlice.HasSpan(spans, id) (r)
  props C19
  requires sorted(spans)
  ensures [found] r ==> (exists i int :: 0 <= i && i < len(spans) && spans[i].Id == id)
  ensures [none] !r ==> (forall i int :: 0 <= i && i < len(spans) ==> spans[i].Id != id)

func zipkinproxy.tree.GetSpan(t, spanId) (r)
  props C19
  requires t != nil && sorted(t.spans)
  ensures [none] r == nil ==> (forall i int :: 0 <= i && i < len(t.spans) ==> t.spans[i].Id != spanId)
  ensures [found] r != nil ==> obj(r) == obj(t.spans) && off(t.spans) <= idx(r) && idx(r) < off(t.spans) + len(t.spans) && r.Id == spanId

func zipkinproxy.tree.Root(t) (r)
  props C19
  requires t != nil && sorted(t.spans)
  ensures [none] r == nil ==> (forall i int :: 0 <= i && i < len(t.spans) ==> t.spans[i].Id != t.traceId)
  ensures [found] r != nil ==> obj(r) == obj(t.spans) && off(t.spans) <= idx(r) && idx(r) < off(t.spans) + len(t.spans) && r.Id == t.traceId

func zipkinproxy.SpanSlice.Append(spans, span)
  props C18, C19, C22, C23, C28
  requires spans != nil && sorted(*spans) && len(*spans) < p2(40)
  requires forall i int :: 0 <= i && i < len(*spans) ==> (*spans)[i].Id != span.Id
  modifies *spans, elems(*spans), spare(*spans)
  ensures [count] len(*spans) == old(len(*spans)) + 1
  ensures [memory] obj(*spans) == old(obj(*spans)) || fresh(*spans) && allocated(*spans)
  ensures [before] forall i int :: 0 <= i && i < old(len(*spans)) && old((*spans)[i].Id) > span.Id ==> (*spans)[i] == old((*spans)[i])
  ensures [after] forall i int :: 0 <= i && i < old(len(*spans)) && old((*spans)[i].Id) < span.Id ==> (*spans)[i + 1] == old((*spans)[i])
  ensures [there] exists i int :: 0 <= i && i < len(*spans) && (*spans)[i] == span
  ensures [sorted] sorted(*spans)

# the span at i is the one that gets merged with a span with this id
macro at(s []proxy.Span, i int, id int) = 0 <= i && i < len(s) && s[i].Id == id
macro in(s []proxy.Span, x int) = exists i int :: 0 <= i && i < len(s) && s[i].Id == x

func zipkinproxy.tree.AddSpan(tree, newSpan)
  option merge
  props C18, C19
  requires tree != nil && treeOk(tree) && ownTags(tree.spans)
  requires forall i int :: 0 <= i && i < len(tree.spans) ==> newSpan.Tags == nil || tree.spans[i].Tags != newSpan.Tags
  modifies *tree, elems(tree.spans), spare(tree.spans), region("map[string]string")
  ensures [tree,C19] tree.traceId == old(tree.traceId) && tree.started == old(tree.started)
  ensures [sorted,C19] sorted(tree.spans)
  ensures [count,C19] tree.nodeCount == len(tree.spans)
  ensures [known,C19] old(in(tree.spans, newSpan.Id)) ==> tree.nodeCount == old(tree.nodeCount)
  ensures [unknown,C19] !old(in(tree.spans, newSpan.Id)) ==> tree.nodeCount == old(tree.nodeCount) + 1
  ensures [there,C19] in(tree.spans, newSpan.Id)
  # known id: every span keeps its place, only the one with this id changes, and it stays itself
  ensures [kept,C19] old(in(tree.spans, newSpan.Id)) ==> (forall i int :: 0 <= i && i < len(tree.spans) && old(tree.spans[i].Id) != newSpan.Id ==> tree.spans[i] == old(tree.spans[i]))
  ensures [same,C19] old(in(tree.spans, newSpan.Id)) ==> (forall i int :: 0 <= i && i < len(tree.spans) && old(tree.spans[i].Id) == newSpan.Id ==> tree.spans[i].Id == newSpan.Id)
  # new id: the span is put in its place
  ensures [before,C19] !old(in(tree.spans, newSpan.Id)) ==> (forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) > newSpan.Id ==> tree.spans[i] == old(tree.spans[i]))
  ensures [after,C19] !old(in(tree.spans, newSpan.Id)) ==> (forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) < newSpan.Id ==> tree.spans[i + 1] == old(tree.spans[i]))
  ensures [new,C19] !old(in(tree.spans, newSpan.Id)) ==> (exists i int :: 0 <= i && i < len(tree.spans) && tree.spans[i] == newSpan)
  # only the tags of the span with this id change
  ensures [tags,C19] forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) != newSpan.Id ==> (forall k str :: (has(old(tree.spans[i].Tags), k) <==> old(has(tree.spans[i].Tags, k))) && old(tree.spans[i].Tags)[k] == old(tree.spans[i].Tags[k]))
  ensures [owntags,C19] ownTags(tree.spans)
  # merging
  ensures [parent,C18] forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) == newSpan.Id ==> tree.spans[i].Parent == ite(old(tree.spans[i].Parent) == 0, newSpan.Parent, old(tree.spans[i].Parent))
  ensures [id,C18] forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) == newSpan.Id ==> tree.spans[i].Id == old(tree.spans[i].Id) && tree.spans[i].Trace == old(tree.spans[i].Trace) && tree.spans[i].Timestamp == old(tree.spans[i].Timestamp) && tree.spans[i].Duration == old(tree.spans[i].Duration)
  ensures [service,C18] forall i int :: old(at(tree.spans, i, newSpan.Id)) ==> mtext(tree.spans[i].Service, old(tree.spans[i].Service), newSpan.Service, old(isServer(tree.spans[i])), isServer(newSpan))
  ensures [name,C18] forall i int :: old(at(tree.spans, i, newSpan.Id)) ==> mtext(tree.spans[i].Name, old(tree.spans[i].Name), newSpan.Name, old(isServer(tree.spans[i])), isServer(newSpan))
  ensures [keys,C18] forall i int, k str :: old(at(tree.spans, i, newSpan.Id)) ==> (has(tree.spans[i].Tags, k) <==> old(has(tree.spans[i].Tags, k)) || old(has(newSpan.Tags, k)))
  ensures [mtags,C18] forall i int, k str :: old(at(tree.spans, i, newSpan.Id)) && has(tree.spans[i].Tags, k) ==> mtag(tree.spans[i].Tags[k], old(has(tree.spans[i].Tags, k)), old(tree.spans[i].Tags[k]), old(has(newSpan.Tags, k)), old(newSpan.Tags[k]), old(isServer(tree.spans[i])), isServer(newSpan))
  ensures [client,C18] forall i int :: old(at(tree.spans, i, newSpan.Id)) && !isServer(newSpan) ==> mtime(tree.spans[i].Timings.CS, old(tree.spans[i].Timings.CS), newSpan.Timings.CS) && mtime(tree.spans[i].Timings.CR, old(tree.spans[i].Timings.CR), newSpan.Timings.CR) && tree.spans[i].Timings.SR == old(tree.spans[i].Timings.SR) && tree.spans[i].Timings.SS == old(tree.spans[i].Timings.SS)
  ensures [server,C18] forall i int :: old(at(tree.spans, i, newSpan.Id)) && isServer(newSpan) && !isClient(newSpan) ==> mtime(tree.spans[i].Timings.SR, old(tree.spans[i].Timings.SR), newSpan.Timings.SR) && mtime(tree.spans[i].Timings.SS, old(tree.spans[i].Timings.SS), newSpan.Timings.SS) && tree.spans[i].Timings.CS == old(tree.spans[i].Timings.CS) && tree.spans[i].Timings.CR == old(tree.spans[i].Timings.CR)

func zipkinproxy.tree.Spans(tree) (r)
  props C19, C22, C23, C28
  requires tree != nil
  ensures [all] r == tree.spans

# ---- C20 ----

# where the id x is among the first n spans, or -1
rec whereis(a arr(proxy.Span), o int, n int, x int) int = ite(n <= 0, 0 - 1, ite(a[o + n - 1].Id == x, n - 1, whereis(a, o, n - 1, x)))
lemma found(a arr(proxy.Span), o int, n int, x int) induction n auto {whereis(a, o, n, x)}
  props C20, C22
  ensures whereis(a, o, n, x) >= 0 - 1 && whereis(a, o, n, x) < max(n, 0)
  ensures whereis(a, o, n, x) >= 0 ==> a[o + whereis(a, o, n, x)].Id == x
  ensures whereis(a, o, n, x) < 0 ==> (forall i int :: 0 <= i && i < n ==> a[o + i].Id != x)

# a root is its own parent or has none in the trace
macro isRootAt(a arr(proxy.Span), o int, n int, i int) = a[o + i].Parent == a[o + i].Id || whereis(a, o, n, a[o + i].Parent) < 0
macro isChildAt(a arr(proxy.Span), o int, i int, id int) = a[o + i].Parent == id && a[o + i].Parent != a[o + i].Id
# how many of the first i spans are roots, or children of id
rec nroots(a arr(proxy.Span), o int, n int, i int) int = ite(i <= 0, 0, nroots(a, o, n, i - 1) + ite(isRootAt(a, o, n, i - 1), 1, 0))
rec nkids(a arr(proxy.Span), o int, i int, id int) int = ite(i <= 0, 0, nkids(a, o, i - 1, id) + ite(isChildAt(a, o, i - 1, id), 1, 0))
macro troots(s []proxy.Span, i int) = nroots(elems(s), off(s), len(s), i)
macro tkids(s []proxy.Span, i int, id int) = nkids(elems(s), off(s), i, id)
macro rootIn(s []proxy.Span, i int) = isRootAt(elems(s), off(s), len(s), i)
macro childIn(s []proxy.Span, i int, id int) = isChildAt(elems(s), off(s), i, id)
# p points to the span at i of s
macro pointsTo(p *proxy.Span, s []proxy.Span, i int) = p != nil && obj(p) == obj(s) && idx(p) == off(s) + i
macro pointsInto(p *proxy.Span, s []proxy.Span) = p != nil && obj(p) == obj(s) && off(s) <= idx(p) && idx(p) < off(s) + len(s)

func zipkinproxy.tree.Roots(tree) (r)
  props C20, C22
  option loops=invariant
  requires tree != nil
  ensures [count] len(r) == troots(tree.spans, len(tree.spans))
  ensures [roots] forall i int :: 0 <= i && i < len(tree.spans) && rootIn(tree.spans, i) ==> 0 <= troots(tree.spans, i) && troots(tree.spans, i) < len(r) && pointsTo(r[troots(tree.spans, i)], tree.spans, i)
  ensures [only] forall k int :: 0 <= k && k < len(r) ==> pointsInto(r[k], tree.spans) && rootIn(tree.spans, idx(r[k]) - off(tree.spans)) && troots(tree.spans, idx(r[k]) - off(tree.spans)) == k
  loopinv (i int, m map) forall x proxy.Id :: has(m, x) <==> whereis(elems(tree.spans), off(tree.spans), i, x) >= 0
  loopinv (i int, s slice) len(s) == troots(tree.spans, i) && len(s) <= i
  loopinv (i int, s []*proxy.Span) forall j int {troots(tree.spans, j)} :: 0 <= j && j < i && rootIn(tree.spans, j) ==> 0 <= troots(tree.spans, j) && troots(tree.spans, j) < len(s) && pointsTo(s[troots(tree.spans, j)], tree.spans, j)
  loopinv (i int, s []*proxy.Span) forall k int :: 0 <= k && k < len(s) ==> pointsInto(s[k], tree.spans) && idx(s[k]) < off(tree.spans) + i && rootIn(tree.spans, idx(s[k]) - off(tree.spans)) && troots(tree.spans, idx(s[k]) - off(tree.spans)) == k

func zipkinproxy.tree.ChildrenOf(tree, spanId) (r)
  props C20
  option loops=invariant
  requires tree != nil
  ensures [count] len(r) == tkids(tree.spans, len(tree.spans), spanId)
  ensures [children] forall i int :: 0 <= i && i < len(tree.spans) && childIn(tree.spans, i, spanId) ==> 0 <= tkids(tree.spans, i, spanId) && tkids(tree.spans, i, spanId) < len(r) && pointsTo(r[tkids(tree.spans, i, spanId)], tree.spans, i)
  ensures [only] forall k int :: 0 <= k && k < len(r) ==> pointsInto(r[k], tree.spans) && childIn(tree.spans, idx(r[k]) - off(tree.spans), spanId) && tkids(tree.spans, idx(r[k]) - off(tree.spans), spanId) == k
  loopinv (i int, s slice) len(s) == tkids(tree.spans, i, spanId) && len(s) <= i
  loopinv (i int, s []*proxy.Span) forall j int {tkids(tree.spans, j, spanId)} :: 0 <= j && j < i && childIn(tree.spans, j, spanId) ==> 0 <= tkids(tree.spans, j, spanId) && tkids(tree.spans, j, spanId) < len(s) && pointsTo(s[tkids(tree.spans, j, spanId)], tree.spans, j)
  loopinv (i int, s []*proxy.Span) forall k int :: 0 <= k && k < len(s) ==> pointsInto(s[k], tree.spans) && idx(s[k]) < off(tree.spans) + i && childIn(tree.spans, idx(s[k]) - off(tree.spans), spanId) && tkids(tree.spans, idx(s[k]) - off(tree.spans), spanId) == k

# a time that is far from the ends of the range
macro timeOk(t int) = t > 0 - p2(61) && t < p2(61)
macro endOf(s *proxy.Span) = s.Timestamp + s.Duration

func zipkinproxy.createFakeRoot(spans) (r)
  props C20
  option loops=invariant
  option merge
  requires len(spans) > 0
  requires forall i int :: 0 <= i && i < len(spans) ==> spans[i] != nil && timeOk(spans[i].Timestamp) && timeOk(spans[i].Duration)
  ensures [self] r.Id == spans[0].Parent && r.Parent == r.Id && r.Trace == spans[0].Trace
  ensures [covers] forall i int :: 0 <= i && i < len(spans) ==> r.Timestamp <= spans[i].Timestamp && endOf(spans[i]) <= r.Timestamp + r.Duration
  ensures [first] exists i int :: 0 <= i && i < len(spans) && r.Timestamp == spans[i].Timestamp
  ensures [last] exists i int :: 0 <= i && i < len(spans) && r.Timestamp + r.Duration == endOf(spans[i])
  ensures [notags] r.Tags == nil
  loopinv (i int, f proxy.Timestamp) forall j int :: 0 <= j && j <= i && j < len(spans) ==> f <= spans[j].Timestamp
  loopinv (i int, f proxy.Timestamp) forall j int :: 0 <= j && j < i && j < len(spans) ==> f <= spans[j].Timestamp
  loopinv (i int, f proxy.Timestamp) forall j int :: 0 <= j && j <= i && j < len(spans) ==> f >= endOf(spans[j])
  loopinv (i int, f proxy.Timestamp) forall j int :: 0 <= j && j < i && j < len(spans) ==> f >= endOf(spans[j])
  loopinv (f proxy.Timestamp) exists j int :: 0 <= j && j < len(spans) && f == spans[j].Timestamp
  loopinv (f proxy.Timestamp) exists j int :: 0 <= j && j < len(spans) && f == endOf(spans[j])

func zipkinproxy.allTheSameParent(spans) (r)
  props C20, C22
  option loops=invariant
  requires forall i int :: 0 <= i && i < len(spans) ==> spans[i] != nil
  ensures [same] r ==> (forall i int :: 0 <= i && i < len(spans) ==> spans[i].Parent == spans[0].Parent)
  ensures [differ] !r ==> (exists i int :: 0 <= i && i < len(spans) && spans[i].Parent != spans[0].Parent)
  loopinv (i int) forall j int :: 0 <= j && j < i ==> spans[j].Parent == spans[0].Parent

# if all roots of a trace share one parent that is missing, a root with that id is the only one of the new trace
macro addedAt(a arr(proxy.Span), o int, n int, b arr(proxy.Span), q int, w int) = 0 <= w && w <= n && (forall i int :: 0 <= i && i < w ==> b[q + i] == a[o + i]) && (forall i int :: w <= i && i < n ==> b[q + i + 1] == a[o + i])

lemma onlyOne(b arr(proxy.Span), q int, n int, w int, i int) induction i
  props C20
  requires 0 <= w && isRootAt(b, q, n, w) && i <= n && (forall j int :: 0 <= j && j < n && j != w ==> !isRootAt(b, q, n, j))
  ensures nroots(b, q, n, i) == ite(i > w, 1, 0)

lemma substitute(a arr(proxy.Span), o int, n int, b arr(proxy.Span), q int, w int, id int)
  props C20
  requires n >= 0 && addedAt(a, o, n, b, q, w) && b[q + w].Id == id && b[q + w].Parent == id
  requires forall i int :: 0 <= i && i < n ==> a[o + i].Id != id
  requires forall i int :: 0 <= i && i < n && isRootAt(a, o, n, i) ==> a[o + i].Parent == id
  use forall x int :: found(a, o, n, x)
  use forall x int :: found(b, q, n + 1, x)
  use onlyOne(b, q, n + 1, w, n + 1)
  ensures isRootAt(b, q, n + 1, w)
  ensures forall i int :: 0 <= i && i < w ==> !isRootAt(b, q, n + 1, i)
  ensures forall i int :: w <= i && i < n ==> !isRootAt(b, q, n + 1, i + 1)
  ensures forall i int :: 0 <= i && i <= n && i != w ==> !isRootAt(b, q, n + 1, i)
  ensures nroots(b, q, n + 1, n + 1) == 1

# ---- C21 ----

# The trace before the correction: orig(i) is its i-th span of spanCount. The spans below the root are
# numbered depth first: span i has the number num(i) and its descendants (itself included) are those with
# the numbers num(i) to upto(i)-1; the k-th child of span i starts at cut(i, k). Such a numbering exists for
# every trace; spans that are not below its root have numbers < 0.
ufun orig(i int) proxy.Span
ufun num(i int) int
ufun upto(i int) int
ufun cut(i int, k int) int
# the skew that span i inherits and the timestamp it must get
ufun inherits(i int) int
ufun time1(i int) int

macro isKid(i int, id int) = orig(i).Parent == id && orig(i).Parent != orig(i).Id
# how many of the first i spans are children of id
rec kids(i int, id int) int = ite(i <= 0, 0, kids(i - 1, id) + ite(isKid(i - 1, id), 1, 0))
macro sameBut(s proxy.Span, o proxy.Span) = s.Id == o.Id && s.Parent == o.Parent && s.Trace == o.Trace && s.Name == o.Name && s.Service == o.Service && s.Tags == o.Tags && s.Timings == o.Timings
macro matches(s []proxy.Span) = forall i int :: 0 <= i && i < len(s) ==> sameBut(s[i], orig(i))

macro all4(s proxy.Span) = s.Timings.CS != 0 && s.Timings.CR != 0 && s.Timings.SR != 0 && s.Timings.SS != 0
macro skew(s proxy.Span) = ite(all4(s), tdiv(s.Timings.CR + s.Timings.CS, 2) - tdiv(s.Timings.SR + s.Timings.SS, 2), 0)
macro shifted(s proxy.Span, inh int) = ite(all4(s), s.Timings.CS + inh, s.Timestamp + inh)
# 1577836800000 ms is the start of 2020
macro stamp(s proxy.Span, inh int, child bool, up int) = ite(child && tdiv(shifted(s, inh), 1000000) < 1577836800000, up, shifted(s, inh))
macro dur1(s proxy.Span) = ite(all4(s), s.Timings.CR - s.Timings.CS, s.Duration)
macro done(s proxy.Span, i int) = s.Timestamp == time1(i) && s.Duration == dur1(orig(i))
macro todo(s proxy.Span, i int) = s.Timestamp == orig(i).Timestamp && s.Duration == orig(i).Duration
macro timesOk(s proxy.Span) = timeOk(s.Timings.CS) && timeOk(s.Timings.CR) && timeOk(s.Timings.SR) && timeOk(s.Timings.SS) && timeOk(s.Timestamp)
macro below(i int, r int) = num(r) <= num(i) && num(i) < upto(r)

macro numbered(n int) = forall i int, j int {num(i), num(j)} :: 0 <= i && i < n && 0 <= j && j < n && num(i) >= 0 && num(i) == num(j) ==> i == j
macro cuts(n int) = forall i int :: 0 <= i && i < n && num(i) >= 0 ==> num(i) < upto(i) && cut(i, 0) == num(i) + 1 && upto(i) == cut(i, kids(n, orig(i).Id))
macro steps(n int) = forall i int, j int {num(i), num(j)} :: 0 <= i && i < n && 0 <= j && j < n && num(i) >= 0 && isKid(j, orig(i).Id) ==> num(j) == cut(i, kids(j, orig(i).Id)) && upto(j) == cut(i, kids(j, orig(i).Id) + 1)
macro grows(n int) = forall i int, k int {cut(i, k)} :: 0 <= i && i < n && num(i) >= 0 && 0 <= k && k <= kids(n, orig(i).Id) ==> num(i) < cut(i, k) && cut(i, k) <= upto(i)
macro skews(n int) = forall i int, j int {num(i), num(j)} :: 0 <= i && i < n && 0 <= j && j < n && num(i) >= 0 && isKid(j, orig(i).Id) ==> inherits(j) == inherits(i) + skew(orig(i)) && time1(j) == stamp(orig(j), inherits(j), true, time1(i))
macro ranges(n int) = forall i int :: 0 <= i && i < n ==> timesOk(orig(i)) && timeOk(inherits(i)) && timeOk(inherits(i) + skew(orig(i)))
macro forest(n int) = numbered(n) && cuts(n) && steps(n) && grows(n) && skews(n) && ranges(n)
macro at0(p *proxy.Span, s []proxy.Span) = idx(p) - off(s)

func zipkinproxy.tree.ChildrenOf(tree, spanId) (r)
  props C21
  option loops=invariant
  requires tree != nil && matches(tree.spans)
  ensures [count] len(r) == kids(len(tree.spans), spanId)
  ensures [children] forall k int :: 0 <= k && k < len(r) ==> pointsInto(r[k], tree.spans) && isKid(at0(r[k], tree.spans), spanId) && kids(at0(r[k], tree.spans), spanId) == k
  loopinv (i int, s slice) len(s) == kids(i, spanId) && len(s) <= i
  loopinv (i int, s []*proxy.Span) forall k int :: 0 <= k && k < len(s) ==> pointsInto(s[k], tree.spans) && idx(s[k]) < off(tree.spans) + i && isKid(at0(s[k], tree.spans), spanId) && kids(at0(s[k], tree.spans), spanId) == k

func zipkinproxy.correctTreeTimings(tree, node, parent, offset)
  props C21
  option loops=invariant
  option merge
  requires tree != nil && pointsInto(node, tree.spans) && (parent == nil || pointsInto(parent, tree.spans))
  requires matches(tree.spans) && forest(len(tree.spans))
  requires num(at0(node, tree.spans)) >= 0 && inherits(at0(node, tree.spans)) == offset
  requires parent != nil ==> !below(at0(parent, tree.spans), at0(node, tree.spans))
  requires time1(at0(node, tree.spans)) == stamp(orig(at0(node, tree.spans)), offset, parent != nil, ite(parent != nil, parent.Timestamp, 0))
  requires forall i int :: 0 <= i && i < len(tree.spans) && below(i, at0(node, tree.spans)) ==> todo(tree.spans[i], i)
  modifies tree.spans[0:len(tree.spans)]
  decreases upto(at0(node, tree.spans)) - num(at0(node, tree.spans))
  ensures [corrected] forall i int :: 0 <= i && i < len(tree.spans) && below(i, at0(node, tree.spans)) ==> done(tree.spans[i], i)
  ensures [others] forall i int :: 0 <= i && i < len(tree.spans) && !below(i, at0(node, tree.spans)) ==> tree.spans[i] == old(tree.spans[i])
  ensures [rest] matches(tree.spans)
  loopinv (k int) forall i int :: 0 <= i && i < len(tree.spans) && num(at0(node, tree.spans)) <= num(i) && num(i) < cut(at0(node, tree.spans), k) ==> done(tree.spans[i], i)
  loopinv (k int) forall i int :: 0 <= i && i < len(tree.spans) && !(num(at0(node, tree.spans)) <= num(i) && num(i) < cut(at0(node, tree.spans), k)) ==> tree.spans[i] == old(tree.spans[i])
  loopinv matches(tree.spans)

# ---- C23 ----

# cnode[id]: the number of spans of the trace with this id at the start of a tick; csmall: without the traces that are too large
ghostvar cnode arr(proxy.Id, int)
ghostvar csmall arr(proxy.Id, int)
# the number of spans of all traces of a set
ufun csum(c arr(proxy.Id, int), s set(proxy.Id)) int
axiom csum0 forall c arr(proxy.Id, int), s set(proxy.Id) {csum(c, s)} :: csum(c, s) != 0 ==> (exists k proxy.Id :: s[k])
axiom csumext forall c arr(proxy.Id, int), s set(proxy.Id), t set(proxy.Id) {csum(c, s), csum(c, t)} :: csum(c, s) != csum(c, t) ==> (exists k proxy.Id :: s[k] != t[k])
axiom csumadd forall c arr(proxy.Id, int), s set(proxy.Id), k proxy.Id {csum(c, store(s, k, true))} :: csum(c, store(s, k, true)) == csum(c, s) + ite(s[k], 0, c[k])
axiom csumdel forall c arr(proxy.Id, int), s set(proxy.Id), k proxy.Id {csum(c, store(s, k, false))} :: csum(c, store(s, k, false)) == csum(c, s) - ite(s[k], c[k], 0)
macro counted(m map[proxy.Id]*zipkinproxy.tree) = forall k proxy.Id {has(m, k)} :: has(m, k) ==> m[k] != nil && m[k].nodeCount == cnode[k]
# the memory does not hold more spans
macro csane(c arr(proxy.Id, int)) = (forall s set(proxy.Id) {csum(c, s)} :: 0 - p2(50) < csum(c, s) && csum(c, s) < p2(50)) && (forall k proxy.Id :: 0 <= c[k] && c[k] < p2(40))

func zipkinproxy.discardSuspiciousTraces(trees, maxSpans)
  props C22, C23, C28
  option loops=invariant
  option axioms=csum0,csumext,csumadd,csumdel
  requires trees != nil && len(trees) < p2(40) && maxSpans >= 1 && maxSpans < p2(40)
  requires counted(trees) && csane(cnode)
  modifies map(trees)
  ensures [limit,C23] csum(cnode, dom(trees)) < maxSpans
  ensures [below,C23] old(csum(cnode, dom(trees))) < maxSpans ==> dom(trees) == old(dom(trees))
  ensures [kept] forall k proxy.Id {has(trees, k)} :: has(trees, k) ==> old(has(trees, k)) && trees[k] == old(trees[k])
  ensures [largest,C23] forall k proxy.Id, l proxy.Id :: old(has(trees, k)) && !has(trees, k) && has(trees, l) ==> cnode[k] >= cnode[l]
  ensures [enough,C23] (forall k proxy.Id {has(trees, k)} :: old(has(trees, k)) ==> has(trees, k)) || (exists k proxy.Id :: old(has(trees, k)) && !has(trees, k) && csum(cnode, dom(trees)) + cnode[k] >= maxSpans)
  ensures [count] len(trees) <= old(len(trees))
  loopinv len(trees) <= old(len(trees))
  # the list of all traces
  loopinv (it iter, n int) n == csum(cnode, visited(it))
  loopinv (it iter, s []trace) len(s) == visits(it)
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: visited(it, k) ==> has(trees, k)
  loopinv (it iter, s []trace) forall i int :: 0 <= i && i < len(s) ==> visited(it, s[i].id) && has(trees, s[i].id) && s[i].tree == trees[s[i].id]
  loopinv (it iter, s []trace) forall i int :: 0 <= i && i < len(s) ==> s[i].tree != nil && s[i].tree.nodeCount == cnode[s[i].id]
  loopinv (it iter, s []trace) forall i int, j int :: 0 <= i && i < j && j < len(s) ==> s[i].id != s[j].id
  loopinv (it iter, s []trace) forall k proxy.Id {visited(it, k)} :: visited(it, k) ==> 0 <= order(it, k) && order(it, k) < len(s) && s[order(it, k)].id == k
  # shedding
  loopinv (n int) n == csum(cnode, dom(trees))
  loopinv (i int, s []trace) forall j int :: 0 <= j && j < i ==> !has(trees, s[j].id)
  loopinv (i int, s []trace) forall j int :: i <= j && j < len(s) ==> has(trees, s[j].id)
  loopinv forall k proxy.Id {has(trees, k)} :: has(trees, k) ==> old(has(trees, k)) && trees[k] == old(trees[k])
  loopinv (i int, s []trace) i > 0 ==> csum(cnode, dom(trees)) + cnode[s[i - 1].id] >= maxSpans

# ---- C22 ----

macro tagsThere(s []proxy.Span) = forall i int :: 0 <= i && i < len(s) ==> s[i].Tags == nil || allocated(s[i].Tags)
opaque rown(a arr(proxy.Span), o int, n int) bool = forall i int, j int {a[i], a[j]} :: o <= i && i < j && j < o + n ==> a[i].Tags == nil || a[i].Tags != a[j].Tags
opaque rsorted(a arr(proxy.Span), o int, n int) bool = forall i int, j int {a[i], a[j]} :: o <= i && i < j && j < o + n ==> a[i].Id > a[j].Id
macro sorted1(s []proxy.Span) = rsorted(elems(s), off(s), len(s))
macro own1(s []proxy.Span) = rown(elems(s), off(s), len(s))
macro heldTree(t *zipkinproxy.tree, k int) = t != nil && t.traceId == k && t.nodeCount == len(t.spans) && len(t.spans) < p2(40) && allocated(t) && allocated(t.spans)
macro trees1(m map[proxy.Id]*zipkinproxy.tree) = forall k proxy.Id {has(m, k)} :: has(m, k) ==> heldTree(m[k], k)
macro trees2(m map[proxy.Id]*zipkinproxy.tree) = forall k proxy.Id {has(m, k)} :: has(m, k) ==> sorted1(m[k].spans)
macro trees3(m map[proxy.Id]*zipkinproxy.tree) = forall k proxy.Id {has(m, k)} :: has(m, k) ==> own1(m[k].spans) && tagsThere(m[k].spans)
# no two traces share memory
macro trees4(m map[proxy.Id]*zipkinproxy.tree) = forall k proxy.Id, l proxy.Id {has(m, k), has(m, l)} :: has(m, k) && has(m, l) && k != l ==> m[k] != m[l] && (obj(m[k].spans) == 0 || obj(m[k].spans) != obj(m[l].spans))
macro treesOk(m map[proxy.Id]*zipkinproxy.tree) = m != nil && len(m) < p2(40) && trees1(m) && trees2(m) && trees3(m) && trees4(m)

func zipkinproxy.tree.AddSpan(tree, newSpan)
  option merge
  option reveal=rown,rsorted
  props C22, C23, C28
  requires [tree] tree != nil && tree.nodeCount == len(tree.spans) && len(tree.spans) < p2(40)
  requires [sorted] sorted1(tree.spans)
  requires [own] own1(tree.spans)
  requires [there] tagsThere(tree.spans)
  requires [tags] newSpan.Tags == nil || allocated(newSpan.Tags)
  requires forall i int :: 0 <= i && i < len(tree.spans) ==> newSpan.Tags == nil || tree.spans[i].Tags != newSpan.Tags
  modifies *tree, elems(tree.spans), spare(tree.spans), region("map[string]string")
  ensures [tree] tree.traceId == old(tree.traceId) && tree.started == old(tree.started)
  ensures [sorted] sorted1(tree.spans)
  ensures [count] tree.nodeCount == len(tree.spans) && (tree.nodeCount == old(tree.nodeCount) || tree.nodeCount == old(tree.nodeCount) + 1)
  ensures [memory] obj(tree.spans) == old(obj(tree.spans)) || fresh(tree.spans) && allocated(tree.spans)
  ensures [tags] own1(tree.spans)
  ensures [there] tagsThere(tree.spans)
  ensures [there] in(tree.spans, newSpan.Id)
  # every other span stays as it is
  ensures [known] tree.nodeCount == old(tree.nodeCount) ==> (forall i int :: 0 <= i && i < old(len(tree.spans)) && old(tree.spans[i].Id) != newSpan.Id ==> tree.spans[i] == old(tree.spans[i]))
  ensures [same] tree.nodeCount == old(tree.nodeCount) ==> (forall i int :: 0 <= i && i < old(len(tree.spans)) ==> tree.spans[i].Id == old(tree.spans[i].Id))
  ensures [new] tree.nodeCount != old(tree.nodeCount) ==> (forall j int {old(elems(tree.spans)[j])} :: old(off(tree.spans)) <= j && j < old(off(tree.spans) + len(tree.spans)) ==> ite(old(elems(tree.spans)[j].Id) > newSpan.Id, elems(tree.spans)[off(tree.spans) + j - old(off(tree.spans))], elems(tree.spans)[off(tree.spans) + j - old(off(tree.spans)) + 1]) == old(elems(tree.spans)[j]))

func zipkinproxy.createFakeRoot(spans) (r)
  props C22, C23, C28
  option loops=invariant
  option merge
  requires len(spans) > 0
  requires forall i int :: 0 <= i && i < len(spans) ==> spans[i] != nil
  ensures [self] r.Id == spans[0].Parent && r.Parent == r.Id && r.Trace == spans[0].Trace && r.Tags == nil

func zipkinproxy.correctTreeTimings(tree, node, parent, offset)
  props C22, C23, C28
  option loops=invariant
  option merge
  requires tree != nil && pointsInto(node, tree.spans) && (parent == nil || pointsInto(parent, tree.spans))
  modifies tree.spans[0:len(tree.spans)]
  # nothing but the times changes
  ensures [rest] forall i int :: 0 <= i && i < len(tree.spans) ==> sameBut(tree.spans[i], old(tree.spans[i]))
  loopinv forall i int :: 0 <= i && i < len(tree.spans) ==> sameBut(tree.spans[i], old(tree.spans[i]))

func zipkinproxy.tree.ChildrenOf(tree, spanId) (r)
  props C22, C23, C28
  option loops=invariant
  requires tree != nil
  ensures [children] forall k int :: 0 <= k && k < len(r) ==> pointsInto(r[k], tree.spans)
  loopinv (i int, s slice) len(s) <= i
  loopinv (s []*proxy.Span) forall k int :: 0 <= k && k < len(s) ==> pointsInto(s[k], tree.spans)

# the traces sent in a tick, the one that was corrected last, the id of its substitute root and the time
ghostvar rsent set(proxy.Id)
ghostvar rcur *zipkinproxy.tree
ghostvar rroot proxy.Id
ghostvar rtime int

# how long a trace is kept after its last update
macro keepFor(n int) = ite(n >= 80000, 2000000000, ite(n >= 60000, 4000000000, ite(n >= 40000, 6000000000, 8000000000)))
macro asBefore(t *zipkinproxy.tree) = t.traceId == old(t.traceId) && t.spans == old(t.spans) && t.nodeCount == old(t.nodeCount) && t.updated == old(t.updated) && t.started == old(t.started) && elems(t.spans) == old(elems(t.spans))
macro hold(m map[proxy.Id]*zipkinproxy.tree) = old(keepFor(csum(csmall, dom(m))))

# logging
func zipkinproxy.debugPrintTrace(trace)
  props C22, C23, C28
  requires trace != nil

func zipkinproxy.debugPrintTrace$1(node, level)
  props C22, C23, C28
  requires node != nil && *trace != nil && *printNode != nil
  # the variable holds this very function
  oncall printNode(n, l) requires n != nil

macro was(t *zipkinproxy.tree, j int) = old(elems(now(t).spans)[now(j)])
macro had(t *zipkinproxy.tree, j int) = old(off(now(t).spans)) <= j && j < old(off(now(t).spans) + len(now(t).spans))
macro nowAt(t *zipkinproxy.tree, s []proxy.Span, j int) = elems(s)[off(s) + j - old(off(now(t).spans))]
# as things were at the start of the tick: the trace must stay, must leave, must be sent
macro stays(m map[proxy.Id]*zipkinproxy.tree, k int) = old(has(m, k)) && old(m[k].nodeCount) <= 8192 && old(m[k].updated) > rtime - hold(m) && old(m[k].started) >= rtime - 5 * hold(m)
macro bad(m map[proxy.Id]*zipkinproxy.tree, k int) = old(has(m, k)) && (old(m[k].nodeCount) > 8192 || old(m[k].started) < old(rtime) - 5 * hold(m))
macro leaves(m map[proxy.Id]*zipkinproxy.tree, k int) = bad(m, k) || old(has(m, k)) && old(m[k].updated) <= old(rtime) - hold(m)
macro released(m map[proxy.Id]*zipkinproxy.tree, k int) = old(has(m, k)) && old(m[k].nodeCount) <= 8192 && old(m[k].started) >= rtime - 5 * hold(m) && old(m[k].updated) <= old(rtime) - hold(m) && old(troots(m[k].spans, len(m[k].spans))) == 1

func zipkinproxy.finishTraces(traces, blacklist, outputCh)
  props C22, C23, C28
  option merge
  option loops=invariant
  option axioms=csumext,csumadd,csum0
  requires treesOk(traces) && blacklist != nil && len(blacklist) < p2(40)
  requires counted(traces) && csane(cnode) && csane(csmall) && (forall k proxy.Id :: csmall[k] == ite(cnode[k] > 8192, 0, cnode[k]))
  requires rsent == emptyset("proxy.Id") && rcur == nil && rtime == rtime && rroot == rroot
  modifies everything
  oncall time.Now(t) assume t >= rtime
  oncall time.Now(t) set rtime := t
  oncall zipkinproxy.createFakeRoot(s, r) set rroot := r.Id
  # a root is only substituted when there are several that have one parent
  oncall zipkinproxy.tree.AddSpan(t, s) requires [substitute,C22] s.Id == rroot && s.Parent == rroot && troots(t.spans, len(t.spans)) > 1 && (forall i int :: 0 <= i && i < len(t.spans) && rootIn(t.spans, i) ==> t.spans[i].Parent == rroot)
  oncall zipkinproxy.correctTreeTimings(t, node, parent, offset) requires [root,C22] troots(t.spans, len(t.spans)) == 1 && pointsInto(node, t.spans) && rootIn(t.spans, at0(node, t.spans)) && parent == nil && offset == 0
  oncall zipkinproxy.correctTreeTimings(t, node, parent, offset) set rcur := t
  # so far the spans are the ones collected, next to the substitute root
  oncall zipkinproxy.correctTreeTimings(t, node, parent, offset) requires [below,C22] len(t.spans) == old(len(now(t).spans)) + 1 ==> (forall j int {was(t, j)} :: had(t, j) && was(t, j).Id > rroot ==> nowAt(t, t.spans, j) == was(t, j))
  oncall zipkinproxy.correctTreeTimings(t, node, parent, offset) requires [above,C22] len(t.spans) == old(len(now(t).spans)) + 1 ==> (forall j int {was(t, j)} :: had(t, j) && was(t, j).Id <= rroot ==> nowAt(t, t.spans, j + 1) == was(t, j))
  onsend outputCh(v) requires [tree,C22] rcur != nil && v == rcur.spans && old(has(traces, now(rcur.traceId))) && old(traces[now(rcur.traceId)]) == rcur
  onsend outputCh(v) requires [left,C22] !has(traces, rcur.traceId)
  onsend outputCh(v) requires [once,C22] !rsent[rcur.traceId]
  onsend outputCh(v) requires [size,C22] old(now(rcur).nodeCount) <= 8192
  onsend outputCh(v) requires [age,C22] old(now(rcur).started) >= old(rtime) - 5 * hold(traces)
  onsend outputCh(v) requires [due,C22] old(now(rcur).updated) <= rtime - hold(traces)
  # every span that was collected is there, with nothing but its times changed; the substitute root is the only one that may come in between
  onsend outputCh(v) requires [number,C22] len(v) == old(len(now(rcur).spans)) || len(v) == old(len(now(rcur).spans)) + 1
  onsend outputCh(v) requires [complete,C22] len(v) == old(len(now(rcur).spans)) ==> (forall j int {was(rcur, j)} :: had(rcur, j) ==> nowAt(rcur, v, j).Id == was(rcur, j).Id)
  onsend outputCh(v) requires [intact,C22] len(v) == old(len(now(rcur).spans)) ==> (forall j int {was(rcur, j)} :: had(rcur, j) ==> was(rcur, j).Id == rroot || sameBut(nowAt(rcur, v, j), was(rcur, j)))
  onsend outputCh(v) requires [low,C22] len(v) == old(len(now(rcur).spans)) + 1 ==> (forall j int {was(rcur, j)} :: had(rcur, j) && was(rcur, j).Id > rroot ==> sameBut(nowAt(rcur, v, j), was(rcur, j)))
  onsend outputCh(v) requires [high,C22] len(v) == old(len(now(rcur).spans)) + 1 ==> (forall j int {was(rcur, j)} :: had(rcur, j) && was(rcur, j).Id <= rroot ==> sameBut(nowAt(rcur, v, j + 1), was(rcur, j)))
  onsend outputCh(v) set rsent := store(rsent, rcur.traceId, true)
  ensures [held] traces != nil && len(traces) < p2(40) && trees1(traces)
  ensures [sorted] trees2(traces)
  ensures [tags] trees3(traces)
  ensures [apart] trees4(traces)
  ensures [blacklist] len(blacklist) < 1024
  ensures [untouched,C22] forall k proxy.Id {has(traces, k)} :: has(traces, k) ==> old(has(traces, k)) && traces[k] == old(traces[k]) && asBefore(traces[k])
  ensures [stays,C22] old(csum(csmall, dom(traces))) <= 100000 ==> (forall k proxy.Id {old(has(traces, k))} :: stays(traces, k) ==> has(traces, k))
  ensures [dropped,C22] forall k proxy.Id {old(has(traces, k))} :: bad(traces, k) ==> !has(traces, k) && !rsent[k]
  ensures [leaves,C22] forall k proxy.Id {old(has(traces, k))} :: leaves(traces, k) ==> !has(traces, k)
  ensures [released,C22] forall k proxy.Id {old(has(traces, k))} :: released(traces, k) ==> rsent[k]
  oncall zipkinproxy.discardSuspiciousTraces(trees, n) requires [over,C23] old(csum(csmall, dom(traces))) > 100000 && trees == traces && n == 100000
  ensures [shed,C23] old(csum(csmall, dom(traces))) > 100000 ==> csum(cnode, dom(traces)) < 100000
  ensures [below,C23] old(csum(csmall, dom(traces))) <= 100000 ==> (forall k proxy.Id {old(has(traces, k))} :: stays(traces, k) ==> has(traces, k))
  ensures [largest,C23] forall k proxy.Id, l proxy.Id :: stays(traces, k) && !has(traces, k) && has(traces, l) ==> cnode[k] >= cnode[l]
  loopinv len(traces) <= old(len(traces))
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: visited(it, k) && stays(traces, k) ==> has(traces, k)
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: visited(it, k) && leaves(traces, k) ==> !has(traces, k)
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: visited(it, k) && released(traces, k) ==> rsent[k]
  loopinv forall k proxy.Id {rsent[k]} :: bad(traces, k) ==> !rsent[k]
  # the spans that are held
  loopinv (it iter, n int) n == csum(csmall, visited(it))
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: visited(it, k) ==> old(has(traces, k))
  loopinv (i int, b time.Duration) b == ite(i >= 4 && old(csum(csmall, dom(traces))) >= 80000, 2000000000, ite(i >= 3 && old(csum(csmall, dom(traces))) >= 60000, 4000000000, ite(i >= 2 && old(csum(csmall, dom(traces))) >= 40000, 6000000000, ite(i >= 1, 8000000000, 0))))
  # what is still there is as before
  loopinv forall k proxy.Id {has(traces, k)} :: has(traces, k) ==> old(has(traces, k)) && traces[k] == old(traces[k])
  loopinv forall k proxy.Id {has(traces, k)} :: has(traces, k) ==> asBefore(traces[k])
  loopinv rtime >= old(rtime)
  loopinv (it iter) forall k proxy.Id {rsent[k]} :: rsent[k] ==> visited(it, k)
  loopinv (it iter) forall k proxy.Id {rsent[k]} :: rsent[k] ==> !has(traces, k)
  loopinv (it iter) len(blacklist) + visits(it) == pre(len(blacklist))
  loopinv (it iter) forall k proxy.Id {visited(it, k)} :: dom0(it)[k] && !visited(it, k) ==> has(ranged(it), k)

# ---- C28 ----

# the traces that are collected, their trees as they were left last, the banned ids
ghostvar ccoll set(proxy.Id)
ghostvar ctree arr(proxy.Id, *zipkinproxy.tree)
ghostvar cval arr(proxy.Id, zipkinproxy.tree)
ghostvar celem arr(proxy.Id, arr(proxy.Span))
ghostvar cban set(proxy.Id)
# the span received last, it is still to be collected, the intake is closed
ghostvar cspan proxy.Span
ghostvar cpend bool
ghostvar cclosed bool
ghostvar ccount int

extern time.NewTicker(d) (r)
  ensures r != nil

# the trees are as they were left
macro tr(k int) = as(ctree[k], "*zipkinproxy.tree")
macro asLeft(c set(proxy.Id)) = forall k proxy.Id {c[k]} :: c[k] ==> *tr(k) == cval[k] && elems(tr(k).spans) == celem[k]

func zipkinproxy.ErrorCorrectSpans(inputCh, outputCh)
  props C28
  option loops=invariant
  requires ccoll == emptyset("proxy.Id") && cban == emptyset("proxy.Id") && !cpend && !cclosed && ccount == 0
  requires cnode == cnode && csmall == csmall && rsent == rsent && rcur == rcur && rtime == rtime && rroot == rroot && ctree == ctree && cval == cval && celem == celem && cspan == cspan
  modifies everything
  onrecv inputCh(span, ok) requires [collected] !cpend
  onrecv inputCh(span, ok) requires [open] !cclosed
  onrecv inputCh(span, ok) requires [untouched] asLeft(ccoll)
  # every span comes with its own tags
  onrecv inputCh(span, ok) assume span.Tags == nil || allocated(span.Tags) && (ccoll[span.Trace] ==> (forall i int :: 0 <= i && i < len(tr(span.Trace).spans) ==> tr(span.Trace).spans[i].Tags != span.Tags))
  onrecv inputCh(span, ok) set cspan := span
  onrecv inputCh(span, ok) set cpend := ok && span.Trace != 0 && span.Id != 0 && !cban[span.Trace]
  onrecv inputCh(span, ok) set cclosed := !ok
  oncall zipkinproxy.newTree(id) assume ccount < p2(40) - 1
  oncall zipkinproxy.tree.AddSpan(t, s) requires [valid] cpend && s == cspan
  oncall zipkinproxy.tree.AddSpan(t, s) requires [own] t != nil && t.traceId == s.Trace
  oncall zipkinproxy.tree.AddSpan(t, s) requires [known] ccoll[s.Trace] ==> t == ctree[s.Trace]
  oncall zipkinproxy.tree.AddSpan(t, s) requires [new] !ccoll[s.Trace] ==> len(t.spans) == 0
  oncall zipkinproxy.tree.AddSpan(t, s) requires [others] forall k proxy.Id {ccoll[k]} :: ccoll[k] && k != s.Trace ==> ctree[k] != t && (obj(t.spans) == 0 || obj(tr(k).spans) != obj(t.spans))
  oncall zipkinproxy.tree.AddSpan(t, s) assume len(t.spans) < p2(40)
  oncall zipkinproxy.tree.AddSpan(t, s) set ccount := ite(ccoll[s.Trace], ccount, ccount + 1)
  oncall zipkinproxy.tree.AddSpan(t, s) set ccoll := store(ccoll, s.Trace, true)
  oncall zipkinproxy.tree.AddSpan(t, s) set ctree := store(ctree, s.Trace, t)
  oncall zipkinproxy.tree.AddSpan(t, s) set cval := store(cval, s.Trace, *t)
  oncall zipkinproxy.tree.AddSpan(t, s) set celem := store(celem, s.Trace, elems(t.spans))
  oncall zipkinproxy.tree.AddSpan(t, s) set cpend := false
  onrecv chan_time.Time(ch, t, ok) requires [untouched] asLeft(ccoll)
  onrecv chan_time.Time(ch, t, ok) modifies cnode
  onrecv chan_time.Time(ch, t, ok) modifies csmall
  # the number of spans of each trace
  onrecv chan_time.Time(ch, t, ok) assume (forall k proxy.Id {ccoll[k]} :: ccoll[k] ==> tr(k).nodeCount == cnode[k]) && csane(cnode) && csane(csmall) && (forall k proxy.Id :: csmall[k] == ite(cnode[k] > 8192, 0, cnode[k]))
  onrecv chan_time.Time(ch, t, ok) set rsent := emptyset("proxy.Id")
  onrecv chan_time.Time(ch, t, ok) set rcur := zero("*zipkinproxy.tree")
  oncall zipkinproxy.finishTraces(traces, blacklist, out) requires [state] !cpend && !cclosed && dom(traces) == ccoll && dom(blacklist) == cban && out == outputCh
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set cpend := false
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set cclosed := false
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set ccoll := dom(traces)
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set ctree := vals(traces)
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set cban := dom(blacklist)
  oncall zipkinproxy.finishTraces(traces, blacklist, out) set ccount := len(traces)
  oncall zipkinproxy.finishTraces(traces, blacklist, out) modifies cval
  oncall zipkinproxy.finishTraces(traces, blacklist, out) modifies celem
  oncall zipkinproxy.finishTraces(traces, blacklist, out) assume forall k proxy.Id {has(traces, k)} :: has(traces, k) ==> *(traces[k]) == cval[k] && elems(traces[k].spans) == celem[k]
  ensures [closed] cclosed
  ensures [all] !cpend
  loopinv !cpend && !cclosed
  loopinv asLeft(ccoll)
  loopinv (m map[proxy.Id]*zipkinproxy.tree) m != nil && dom(m) == ccoll && len(m) == ccount && ccount < p2(40)
  loopinv (m map[proxy.Id]*zipkinproxy.tree) forall k proxy.Id {has(m, k)} :: has(m, k) ==> m[k] == ctree[k]
  loopinv (m map[proxy.Id]*zipkinproxy.tree) trees1(m)
  loopinv (m map[proxy.Id]*zipkinproxy.tree) trees2(m)
  loopinv (m map[proxy.Id]*zipkinproxy.tree) trees3(m)
  loopinv (m map[proxy.Id]*zipkinproxy.tree) trees4(m)
  loopinv (b map[proxy.Id]zipkinproxy.none) b != nil && dom(b) == cban && len(b) < 1024
