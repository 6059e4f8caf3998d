# The string cache (C14, C15, C29)

# lstamp[e] orders the entries by their last use, lnow is the time of the next use
ghostvar lstamp arr(*cache.entry, int)
ghostvar lnow int

# the number of bytes of all strings of a set
ufun lsum(s set(str)) int
# the number of strings of a set
ufun lnum(s set(str)) int
axiom lnum0 lnum(emptyset("str")) == 0
axiom lnumadd forall s set(str), k str {lnum(store(s, k, true))} :: lnum(store(s, k, true)) == lnum(s) + ite(s[k], 0, 1)
axiom lnumdel forall s set(str), k str {lnum(store(s, k, false))} :: lnum(store(s, k, false)) == lnum(s) - ite(s[k], 1, 0)
axiom lnumpos forall s set(str) {lnum(s)} :: lnum(s) >= 0
axiom lnumlen forall s set(str), k str {lnum(s), s[k]} :: s[k] ==> lnum(s) >= 1
axiom lsum0 lsum(emptyset("str")) == 0
axiom lsumadd forall s set(str), k str {lsum(store(s, k, true))} :: lsum(store(s, k, true)) == lsum(s) + ite(s[k], 0, len(k))
axiom lsumdel forall s set(str), k str {lsum(store(s, k, false))} :: lsum(store(s, k, false)) == lsum(s) - ite(s[k], len(k), 0)
axiom lsumlen forall s set(str), k str {lsum(s), s[k]} :: s[k] ==> lsum(s) >= len(k)
axiom lsumpos forall s set(str) {lsum(s)} :: lsum(s) >= 0

macro lsize(c *cache.lruCache) = c.size + c.count * 56

# e is an entry of the cache
macro lin(c *cache.lruCache, e *cache.entry) = e != nil && has(c.values, e.Value) && c.values[e.Value] == e
# the entries of the map are the nodes of the list, which runs from the most to the least recently used one
macro lentry(c *cache.lruCache, k str) = c.values[k] != nil && allocated(c.values[k]) && c.values[k].Value == k && lstamp[c.values[k]] < lnow
macro lprev(c *cache.lruCache, k str) = ite(c.values[k].prev == nil, c.usage.head == c.values[k], lin(c, c.values[k].prev) && c.values[k].prev.next == c.values[k] && lstamp[c.values[k].prev] > lstamp[c.values[k]])
macro lnext(c *cache.lruCache, k str) = ite(c.values[k].next == nil, c.usage.tail == c.values[k], lin(c, c.values[k].next) && c.values[k].next.prev == c.values[k] && lstamp[c.values[k].next] < lstamp[c.values[k]])
macro lruVal(c *cache.lruCache) = forall k str {has(c.values, k)} :: has(c.values, k) ==> lentry(c, k)
macro lruPrev(c *cache.lruCache) = forall k str {c.values[k].prev} :: has(c.values, k) ==> lprev(c, k)
macro lruNext(c *cache.lruCache) = forall k str {c.values[k].next} :: has(c.values, k) ==> lnext(c, k)
macro lruInj(c *cache.lruCache) = forall k str, l str {has(c.values, k), has(c.values, l)} :: has(c.values, k) && has(c.values, l) && k != l ==> lstamp[c.values[l]] != lstamp[c.values[k]]
# there is no entry between an entry and its neighbours
macro lruUp(c *cache.lruCache) = forall k str, l str {c.values[l].prev, has(c.values, k)} :: has(c.values, k) && has(c.values, l) && lstamp[c.values[l]] < lstamp[c.values[k]] ==> c.values[l].prev != nil && lstamp[c.values[l].prev] <= lstamp[c.values[k]]
macro lruTop(c *cache.lruCache) = forall k str {has(c.values, k)} :: has(c.values, k) ==> lstamp[c.values[k]] <= lstamp[c.usage.head] && lstamp[c.values[k]] >= lstamp[c.usage.tail]
macro lruEnds(c *cache.lruCache) = ite(c.usage.head == nil, c.usage.tail == nil && dom(c.values) == emptyset("str"), lin(c, c.usage.head) && c.usage.head.prev == nil && lin(c, c.usage.tail) && c.usage.tail.next == nil)
macro lcount(c *cache.lruCache) = c.count == lnum(dom(c.values)) && c.size == lsum(dom(c.values)) && 0 <= c.size && 0 <= c.count && lsize(c) < p2(42)
macro lruOk(c *cache.lruCache) = c.values != nil && c.maxSize >= 1 && c.maxSize < p2(40) && lruVal(c) && lruPrev(c) && lruNext(c) && lruInj(c) && lruTop(c) && lruUp(c) && lruEnds(c) && lcount(c)

# the list moves one node to its head
func cache.linkedList.PushHead(l, e)
  props C14 C15
  requires l != nil && e != nil && e.prev != e && e.next != e && (e.next != nil ==> e.next != l.head && e.next != e.prev) && (l.tail == nil <==> l.head == nil)
  requires l.head == nil ==> e.prev == nil && e.next == nil
  modifies l.head, l.tail, region("cache.entry")
  ensures [head] l.head == e
  ensures [tail] l.tail == ite(old(l.head) == e, old(l.tail), ite(old(l.tail) == nil, e, ite(old(l.tail) == e && old(e.prev) != nil, old(e.prev), ite(old(l.tail) == e, e, old(l.tail)))))
  ensures [prev] forall x *cache.entry {x.prev} :: x != nil ==> x.prev == ite(old(l.head) == e, old(x.prev), ite(x == e, nil, ite(x == old(l.head), e, ite(x == old(e.next), old(e.prev), old(x.prev)))))
  ensures [next] forall x *cache.entry {x.next} :: x != nil ==> x.next == ite(old(l.head) == e, old(x.next), ite(x == e, old(l.head), ite(x == old(e.prev), old(e.next), old(x.next))))
  ensures [value] forall x *cache.entry {x.Value} :: x != nil ==> x.Value == old(x.Value)

# the list loses its last node
func cache.linkedList.DropTail(l) (r)
  props C14 C15
  requires l != nil && (l.tail != nil ==> l.tail.prev != l.tail) && (l.tail == nil <==> l.head == nil)
  modifies l.head, l.tail, region("cache.entry")
  ensures [last] r == old(l.tail)
  ensures [ends] l.head == ite(old(l.head) == r, nil, old(l.head)) && (old(l.head) == r ==> l.tail == nil) && (old(l.head) != r ==> l.tail == ite(old(l.tail.prev) == nil, old(l.tail), old(l.tail.prev)))
  ensures [next] forall x *cache.entry {x.next} :: x != nil ==> x.next == ite(r != nil && x == old(l.tail.prev), nil, old(x.next))
  ensures [prev] forall x *cache.entry {x.prev} :: x != nil ==> x.prev == old(x.prev)
  ensures [value] forall x *cache.entry {x.Value} :: x != nil ==> x.Value == old(x.Value)

func cache.NewLRUCache(maxSize) (r)
  props C14 C15
  option axioms=lsum0,lnum0
  requires maxSize >= 1 && maxSize < p2(40) && lnow == lnow
  ensures [ok] r != nil && lruOk(r) && r.maxSize == maxSize

func cache.lruCache.Get(c, key) (r)
  props C14 C15
  requires c != nil && lruOk(c)
  modifies lstamp, lnow, c.usage, region("cache.entry")
  atexit lstamp := ite(has(c.values, key), store(lstamp, c.values[key], lnow), lstamp)
  atexit lnow := lnow + 1
  ensures [found] r == ite(has(c.values, key), key, "")
  ensures [values] lruVal(c)
  ensures [ends] lruEnds(c)
  ensures [prev] lruPrev(c)
  ensures [next] lruNext(c)
  ensures [order] lruInj(c)
  ensures [top] lruTop(c)
  ensures [up] lruUp(c)
  ensures [count] c.values != nil && lcount(c)

func cache.lruCache.Set(c, value)
  props C14 C15
  option axioms=lsumadd,lsumpos,lnumadd,lnumpos
  requires c != nil && lruOk(c) && len(value) < p2(40)
  modifies lstamp, lnow, c.usage, c.count, c.size, map(c.values), region("cache.entry")
  atexit lstamp := store(lstamp, c.values[value], lnow)
  atexit lnow := lnow + 1
  ensures [inserted] has(c.values, value)
  ensures [hit] old(has(c.values, value)) ==> lsize(c) == old(lsize(c)) && (forall k str {has(c.values, k)} :: has(c.values, k) <==> old(has(c.values, k)))
  ensures [bounded] !old(has(c.values, value)) ==> lsize(c) < c.maxSize + 56 + len(value)
  ensures [least] forall k str, l str {old(has(c.values, k)), has(c.values, l)} :: old(has(c.values, k)) && !has(c.values, k) && has(c.values, l) && l != value ==> old(has(c.values, l)) && c.values[l] == old(c.values[l]) && old(lstamp[c.values[k]]) < old(lstamp[c.values[l]])
  ensures [kept] old(lsize(c)) < c.maxSize ==> (forall k str {old(has(c.values, k))} :: old(has(c.values, k)) ==> has(c.values, k) && c.values[k] == old(c.values[k]))
  ensures [values] lruVal(c)
  ensures [ends] lruEnds(c)
  ensures [prev] lruPrev(c)
  ensures [next] lruNext(c)
  ensures [order] lruInj(c)
  ensures [top] lruTop(c)
  ensures [up] lruUp(c)
  ensures [count] c.values != nil && lcount(c)

func cache.lruCache.ensureCacheSize(c)
  props C14 C15
  option terminates
  option axioms=lsumlen,lsumdel,lsumpos,lsum0,lnum0,lnumdel,lnumpos,lnumlen
  requires c != nil && lruOk(c) && lstamp == lstamp
  modifies c.usage, c.count, c.size, map(c.values), region("cache.entry")
  ensures [bounded] lsize(c) < c.maxSize
  ensures [stamps] forall k str {has(c.values, k)} :: has(c.values, k) ==> old(has(c.values, k)) && c.values[k] == old(c.values[k])
  ensures [least] forall k str, l str {old(has(c.values, k)), has(c.values, l)} :: old(has(c.values, k)) && !has(c.values, k) && has(c.values, l) ==> lstamp[old(c.values[k])] < lstamp[c.values[l]]
  ensures [needed] forall k str {old(has(c.values, k))} :: old(has(c.values, k)) && !has(c.values, k) && (forall l str {old(has(c.values, l))} :: old(has(c.values, l)) && !has(c.values, l) ==> lstamp[old(c.values[l])] <= lstamp[old(c.values[k])]) ==> lsize(c) + 56 + len(k) >= c.maxSize
  ensures [kept] old(lsize(c)) < c.maxSize ==> (forall k str {old(has(c.values, k))} :: old(has(c.values, k)) ==> has(c.values, k))
  ensures [values] lruVal(c)
  ensures [ends] lruEnds(c)
  ensures [prev] lruPrev(c)
  ensures [next] lruNext(c)
  ensures [order] lruInj(c)
  ensures [top] lruTop(c)
  ensures [up] lruUp(c)
  ensures [count] c.values != nil && lcount(c)
  loopinv lruVal(c)
  loopinv lruEnds(c)
  loopinv lruPrev(c)
  loopinv lruNext(c)
  loopinv lruInj(c)
  loopinv lruTop(c)
  loopinv lruUp(c)
  loopinv c.values != nil && lcount(c)
  loopinv forall k str {has(c.values, k)} :: has(c.values, k) ==> old(has(c.values, k)) && c.values[k] == old(c.values[k])
  loopinv forall k str, l str {old(has(c.values, k)), has(c.values, l)} :: old(has(c.values, k)) && !has(c.values, k) && has(c.values, l) ==> lstamp[old(c.values[k])] < lstamp[c.values[l]]
  loopinv forall k str {old(has(c.values, k))} :: old(has(c.values, k)) && !has(c.values, k) && (forall l str {old(has(c.values, l))} :: old(has(c.values, l)) && !has(c.values, l) ==> lstamp[old(c.values[l])] <= lstamp[old(c.values[k])]) ==> lsize(c) + 56 + len(k) >= c.maxSize
  loopinv old(lsize(c)) < c.maxSize ==> (forall k str {old(has(c.values, k))} :: old(has(c.values, k)) ==> has(c.values, k))
  loopinv lsize(c) <= old(lsize(c))
  variant c.count

# ---- C14, C29: the shared cache ----

monitor cache.binaryCacheLock protects lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry") 
  invariant [bounds] binaryCache.values != nil && binaryCache.maxSize >= 1 && binaryCache.maxSize < p2(40)
  invariant [values] lruVal(binaryCache)
  invariant [prev] lruPrev(binaryCache)
  invariant [next] lruNext(binaryCache)
  invariant [order] lruInj(binaryCache)
  invariant [top] lruTop(binaryCache)
  invariant [up] lruUp(binaryCache)
  invariant [ends] lruEnds(binaryCache)
  invariant [count] lcount(binaryCache)

func cache.lookupCache(copyOnInsert, value) (r)
  props C14 C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  option axioms=lsum0
  requires len(value) < p2(40)
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.metricHitCount, cache.metricMissCount, cache.binaryCacheLock
  ensures [text] len(r) == len(value) && (forall i int :: 0 <= i && i < len(value) ==> r[i] == value[i])
  # a string made of the memory of a slice is only kept if nobody else has that memory
  oncall cache.lruCache.Set(c, v) requires [owned,C14] !copyOnInsert || alias(v) == 0 || fresh0(alias(v))
  ensures [owned,C14] !copyOnInsert || alias(r) == 0 || fresh0(alias(r))
  ensures [released] !held(cache.binaryCacheLock)

func cache.StringForByteSliceCopy(value) (r)
  props C14 C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  requires len(value) < p2(40)
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.metricHitCount, cache.metricMissCount, cache.binaryCacheLock
  oncall cache.lookupCache(c, v, s) requires [copied,C14] c
  ensures [text] len(r) == len(value) && (forall i int :: 0 <= i && i < len(value) ==> r[i] == value[i])
  ensures [released] !held(cache.binaryCacheLock)

func cache.StringForByteSliceNoCopy(value) (r)
  props C14 C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  requires len(value) < p2(40)
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.metricHitCount, cache.metricMissCount, cache.binaryCacheLock
  ensures [text] len(r) == len(value) && (forall i int :: 0 <= i && i < len(value) ==> r[i] == value[i])
  ensures [released] !held(cache.binaryCacheLock)

func cache.String(str) (r)
  props C14 C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  requires len(str) < p2(40)
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.metricHitCount, cache.metricMissCount, cache.binaryCacheLock
  ensures [text] r == str
  ensures [released] !held(cache.binaryCacheLock)

# the callbacks of the gauges
func cache.RegisterCacheMetrics$2() (r)
  props C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.binaryCacheLock
  ensures [released] !held(cache.binaryCacheLock)

func cache.RegisterCacheMetrics$3() (r)
  props C29
  option locks=1
  guard cache.binaryCacheLock protects binaryCache
  requires !held(cache.binaryCacheLock) && lnow == lnow && lstamp == lstamp
  requires binaryCache != nil
  modifies lstamp, lnow, binaryCache.usage, binaryCache.count, binaryCache.size, map(binaryCache.values), region("cache.entry"), cache.binaryCacheLock
  ensures [released] !held(cache.binaryCacheLock)

func cache.lruCache.Size(c) (r)
  props C15
  requires c != nil && lruOk(c)
  ensures [size] r == lsize(c)

func cache.lruCache.Count(c) (r)
  props C15
  requires c != nil && lruOk(c)
  ensures [count] r == lnum(dom(c.values))
