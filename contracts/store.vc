// ---- the caching store (C08, C10, C12, C13) ----
fnspec func(store.Entry)(string,error) pure
fnspec func(store.Entry)() event
fnspec func(store.Entry,store.Entry)() event

def okcache(c: *store.objectCache) = c != nil && c.storage != nil && c.keyFunc != nil && indexersok(c.storage) && keyok(c)
// the store's key function is a function of the entry other than its update time, and a record merged from two with one key has that key too
def keyok(c: *store.objectCache) = (forall e: store.Entry {call(c.keyFunc, e)} {keyof(c.storage, e)} :: keyof(c.storage, e) == call(c.keyFunc, e)) && (forall e: store.Entry, f: store.Entry {keyof(c.storage, e), keyof(c.storage, f)} :: samebutdate(e, f) ==> keyof(c.storage, e) == keyof(c.storage, f)) && (forall a: store.Entry, p: store.Entry, x: store.Entry {keyof(c.storage, a), keyof(c.storage, p), keyof(c.storage, x)} :: keyof(c.storage, a) == keyof(c.storage, p) && x.TypeMeta == a.TypeMeta && x.Meta.Source == a.Meta.Source && x.Meta.Annotations == a.Meta.Annotations && partof(box(a.Record), box(p.Record), box(x.Record)) ==> keyof(c.storage, x) == keyof(c.storage, a))
// the attributes of x are those of a overridden by those of p (x may lack some)
def partof(a: any, p: any, x: any) = forall k: any :: attrset(x, k) ==> (attrset(a, k) || attrset(p, k)) && attrval(x, k) == ite(attrset(p, k), attrval(p, k), attrval(a, k))

// the two entries differ at most in their update time
def samebutdate(a: store.Entry, b: store.Entry) = a.Record == b.Record && a.TypeMeta == b.TypeMeta && a.Meta.Source == b.Meta.Source && a.Meta.Annotations == b.Meta.Annotations

def quiet() = evn() == old(evn())
def called1(f: func(store.Entry), e: store.Entry) = evn() == old(evn()) + 1 && evfn(old(evn())) == f && evarg(old(evn()), "0") == box(e)
def called2(f: func(store.Entry, store.Entry), e: store.Entry, e2: store.Entry) = evn() == old(evn()) + 1 && evfn(old(evn())) == f && evarg(old(evn()), "0") == box(e) && evarg(old(evn()), "1") == box(e2)

unit (*store.objectCache).Get(c, ctx, ex)(result, err)
  props C08
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let key = call(c.keyFunc, ex)
  ensures badkey: call2(c.keyFunc, ex) != nil ==> err != nil && quiet()
  ensures goodkey: call2(c.keyFunc, ex) == nil ==> err == nil
  ensures found: err == nil ==> result.Found == in(key, c.storage.items)
  ensures entry: err == nil && result.Found ==> result.Entry == c.storage.items[key].Resource
  ensures kept: err == nil ==> samemap(c.storage)
  ensures [C10] etag: err == nil && result.Found ==> call2(store.decodeETag, result.ETag) == nil && call(store.decodeETag, result.ETag).Version == c.storage.items[key].Version

unit (*store.objectCache).Add(c, ctx, obj)(err)
  props C08
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let key = call(c.keyFunc, obj)
  let had = atlock(in(key, m.items))
  ensures badkey: call2(c.keyFunc, obj) != nil ==> err != nil
  ensures onlynew: call2(c.keyFunc, obj) == nil ==> (err == nil) == !had
  ensures unaffected: call2(c.keyFunc, obj) == nil && err != nil ==> samemap(m)
  ensures keys: err == nil ==> (forall k: string :: in(k, m.items) == (k == key || atlock(in(k, m.items))))
  ensures others: err == nil ==> (forall k: string :: k != key && in(k, m.items) ==> m.items[k] == atlock(m.items[k]))
  ensures stored: err == nil ==> samebutdate(m.items[key].Resource, obj)
  ensures [C12] silent: err != nil || c.eventHandlers.OnAdd == nil ==> quiet()
  ensures [C12] told: err == nil && c.eventHandlers.OnAdd != nil ==> called1(c.eventHandlers.OnAdd, m.items[key].Resource)

unit (*store.objectCache).Update(c, ctx, obj)(err)
  props C08
  requires okcache(c) && ctx != nil
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let key = call(c.keyFunc, obj)
  let had = atlock(in(key, m.items))
  let cond = is(ctx.Value(box(store.condKey)), store.ifMatch)
  let tag = as(ctx.Value(box(store.condKey)), store.ifMatch)
  ensures badkey: call2(c.keyFunc, obj) != nil ==> err != nil && quiet()
  ensures [C08] plain: call2(c.keyFunc, obj) == nil && !cond ==> err == nil
  ensures [C10] malformed: cond && call2(store.decodeETag, tag) != nil ==> err != nil && quiet()
  ensures [C10] stale: err == nil && cond ==> atlock(m.items[key].Version) == call(store.decodeETag, tag).Version
  ensures [C10] fresh: call2(c.keyFunc, obj) == nil && cond && call2(store.decodeETag, tag) == nil && atlock(m.items[key].Version) == call(store.decodeETag, tag).Version ==> err == nil
  ensures unaffected: err != nil && call2(c.keyFunc, obj) == nil && !(cond && call2(store.decodeETag, tag) != nil) ==> samemap(m)
  ensures keys: err == nil ==> (forall k: string :: in(k, m.items) == (k == key || atlock(in(k, m.items))))
  ensures others: err == nil ==> (forall k: string :: k != key && in(k, m.items) ==> m.items[k] == atlock(m.items[k]))
  ensures stored: err == nil ==> samebutdate(m.items[key].Resource, obj)
  ensures [C12] silent: err != nil || !had && c.eventHandlers.OnAdd == nil || had && c.eventHandlers.OnChange == nil ==> quiet()
  ensures [C12] added: err == nil && !had && c.eventHandlers.OnAdd != nil ==> called1(c.eventHandlers.OnAdd, m.items[key].Resource)
  ensures [C12] changed: err == nil && had && c.eventHandlers.OnChange != nil ==> called2(c.eventHandlers.OnChange, atlock(m.items[key].Resource), m.items[key].Resource)

unit (*store.objectCache).Delete(c, ctx, obj)(err)
  props C08
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let key = call(c.keyFunc, obj)
  let had = atlock(in(key, m.items))
  ensures badkey: (call2(c.keyFunc, obj) != nil) == (err != nil)
  ensures removed: err == nil ==> (forall k: string :: in(k, m.items) == (k != key && atlock(in(k, m.items))))
  ensures others: err == nil ==> (forall k: string :: k != key && in(k, m.items) ==> m.items[k] == atlock(m.items[k]))
  ensures [C12] silent: err != nil || !had || c.eventHandlers.OnDelete == nil ==> quiet()
  ensures [C12] told: err == nil && had && c.eventHandlers.OnDelete != nil ==> called1(c.eventHandlers.OnDelete, atlock(m.items[key].Resource))

unit store.WithIfMatch(ctx, etag)(r)
  props C10
  requires ctx != nil
  ensures carries: r.Value(box(store.condKey)) == box(cast(etag, store.ifMatch))

unit (*store.objectCache).Replace(c, ctx, entries)(err)
  props C08
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  loop keyed(i: int): forall j: int :: 0 <= j && j <= i ==> call2(c.keyFunc, entries[j]) == nil
  loop filled(i: int, items: map[string]store.Entry): forall j: int :: 0 <= j && j <= i ==> in(call(c.keyFunc, entries[j]), items)
  loop onlythese(i: int, items: map[string]store.Entry): forall k: string :: in(k, items) ==> (exists j: int :: 0 <= j && j <= i && call(c.keyFunc, entries[j]) == k && items[k] == entries[j] && (forall l: int :: j < l && l <= i ==> call(c.keyFunc, entries[l]) != k))
  ensures badkey: (exists j: int :: 0 <= j && j < len(entries) && call2(c.keyFunc, entries[j]) != nil) ==> err != nil
  ensures goodkey: (forall j: int :: 0 <= j && j < len(entries) ==> call2(c.keyFunc, entries[j]) == nil) ==> err == nil
  ensures installed: forall j: int :: err == nil && 0 <= j && j < len(entries) ==> in(call(c.keyFunc, entries[j]), m.items)
  ensures only: forall k: string :: err == nil && in(k, m.items) ==> (exists j: int :: 0 <= j && j < len(entries) && call(c.keyFunc, entries[j]) == k && m.items[k].Resource == entries[j] && (forall l: int :: j < l && l < len(entries) ==> call(c.keyFunc, entries[l]) != k))
  ensures [C12] silent: quiet()

// recordPatcher.Patch: the merged entry, or why there is none
// the entry a partial record stands for when it arrives
def arrive(r: vanflow.Record, s: store.SourceRef) = mk(store.Entry, mk(store.Metadata, s, zero(time.Time), zero(map[string]string)), r.GetTypeMeta(), r)
def sameattrs(a: any, b: any) = forall k: any :: attrset(b, k) ==> attrset(a, k) && attrval(a, k) == attrval(b, k)
unit (store.recordPatcher).Patch(p, curr)(next, err)
  use
  props C11
  requires p.Record != nil
  let rec = box(p.Record)
  let was = box(old(curr.Record))
  loop merged(it: iter[any], m: map[any]any): forall k: any :: in(k, m) == (attrset(box(old(curr.Record)), k) || visited(it, k)) && (in(k, m) ==> m[k] == ite(visited(it, k), attrval(box(p.Record), k), attrval(box(old(curr.Record)), k)))
  loop source(m: map[any]any): forall k: any :: in(k, m) == attrset(box(p.Record), k) && (in(k, m) ==> m[k] == attrval(box(p.Record), k) && anycmp(m[k]))
  loop comparable(m: map[any]any): forall k: any :: in(k, m) ==> anycmp(m[k])
  loop changed(it: iter[any], ch: bool): ch == (exists k: any :: visited(it, k) && !(attrset(box(old(curr.Record)), k) && attrval(box(old(curr.Record)), k) == attrval(box(p.Record), k)))
  ensures new: curr == nil ==> err == nil && next.Record == p.Record && next.Meta.Source == p.Source && next.TypeMeta == p.Record.GetTypeMeta() && next.Meta.Annotations == nil
  ensures kept: curr != nil && err == nil ==> next.Meta.Source == old(curr.Meta.Source) && next.Meta.Annotations == old(curr.Meta.Annotations) && next.TypeMeta == old(curr.TypeMeta)
  ensures unencodable: curr != nil && !(encodes(was) && encodes(rec)) ==> err != nil && !iserr(err, store.errNoChange)
  ensures nochange: curr != nil && encodes(was) && encodes(rec) && sameattrs(was, rec) ==> err != nil && iserr(err, store.errNoChange)
  ensures partof: curr != nil && err == nil ==> partof(was, rec, box(next.Record))
  ensures onlythen: iserr(err, store.errNoChange) ==> curr != nil && encodes(was) && encodes(rec) && sameattrs(was, rec)
  ensures merged: curr != nil && err == nil && code(was) == code(rec) ==> encodes(box(next.Record)) && (forall k: any :: attrset(box(next.Record), k) == (attrset(was, k) || attrset(rec, k)) && (attrset(box(next.Record), k) ==> attrval(box(next.Record), k) == ite(attrset(rec, k), attrval(rec, k), attrval(was, k))))

unit (*store.objectCache).Accumulate(c, source, partial)(err)
  props C08 C11
  requires okcache(c) && partial != nil
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let e0 = arrive(partial, source)
  let key = call(c.keyFunc, e0)
  let had = atlock(in(key, m.items))
  let was = box(atlock(m.items[key].Resource.Record))
  let now = box(m.items[key].Resource.Record)
  let rec = box(partial)
  let ok = call2(c.keyFunc, e0) == nil
  ensures badkey: !ok ==> err != nil && quiet()
  ensures unaffected: ok && err != nil ==> samemap(m)
  ensures others: ok ==> (forall k: string :: k != key ==> in(k, m.items) == atlock(in(k, m.items)) && (in(k, m.items) ==> m.items[k] == atlock(m.items[k])))
  ensures [C08,C11] new: ok && !had ==> err == nil && in(key, m.items) && m.items[key].Resource.Record == partial && m.items[key].Resource.Meta.Source == source && m.items[key].Resource.TypeMeta == partial.GetTypeMeta() && m.items[key].Resource.Meta.Annotations == nil
  ensures [C11] unencodable: ok && had && !(encodes(was) && encodes(rec)) ==> err != nil
  ensures [C11] nochange: ok && had && encodes(was) && encodes(rec) && sameattrs(was, rec) ==> err == nil && samemap(m) && quiet()
  ensures [C11] kept: ok && had ==> in(key, m.items) && m.items[key].Resource.Meta.Source == atlock(m.items[key].Resource.Meta.Source) && m.items[key].Resource.Meta.Annotations == atlock(m.items[key].Resource.Meta.Annotations) && m.items[key].Resource.TypeMeta == atlock(m.items[key].Resource.TypeMeta)
  ensures [C11] merged: ok && had && err == nil && code(was) == code(rec) ==> encodes(now) && (forall k: any :: attrset(now, k) == (attrset(was, k) || attrset(rec, k)) && (attrset(now, k) ==> attrval(now, k) == ite(attrset(rec, k), attrval(rec, k), attrval(was, k))))
  ensures [C12] silent: ok && (err != nil || had && samemap(m) || !had && c.eventHandlers.OnAdd == nil || had && c.eventHandlers.OnChange == nil) ==> quiet()
  ensures [C12] added: ok && err == nil && !had && c.eventHandlers.OnAdd != nil ==> called1(c.eventHandlers.OnAdd, m.items[key].Resource)
  ensures [C12] changed: ok && err == nil && had && !samemap(m) && c.eventHandlers.OnChange != nil ==> called2(c.eventHandlers.OnChange, atlock(m.items[key].Resource), m.items[key].Resource)

// ---- listings (C13) ----
def keyat(c: *store.objectCache, i: int) = call(c.keyFunc, sortedat(i, store.Entry))
// the entries lie in key order
def ordered(c: *store.objectCache, n: int, desc: bool) = forall i: int, j: int :: 0 <= i && i < j && j < n ==> ite(desc, !(sord(keyat(c, i)) < sord(keyat(c, j))), !(sord(keyat(c, j)) < sord(keyat(c, i))))
def start(sel: store.Selector) = ite(sel.Continue == "", sel.Offset, call(store.decodeCacheContinue, sel.Continue))
def from(sel: store.Selector) = ite(start(sel) < 0, 0, start(sel))
def rest(sel: store.Selector, n: int) = ite(from(sel) >= n, 0, n - from(sel))
def cut(sel: store.Selector, n: int) = sel.Limit > 0 && rest(sel, n) > sel.Limit
// r holds the selected part of the n entries in order
def page(c: *store.objectCache, sel: store.Selector, n: int, r: store.Set) = len(r.Entries) == ite(cut(sel, n), sel.Limit, rest(sel, n)) && (forall i: int :: 0 <= i && i < len(r.Entries) ==> r.Entries[i] == sortedat(from(sel) + i, store.Entry))
def token(sel: store.Selector, n: int, r: store.Set) = (r.Continue != "") == cut(sel, n) && (cut(sel, n) ==> call2(store.decodeCacheContinue, r.Continue) == nil && call(store.decodeCacheContinue, r.Continue) == from(sel) + sel.Limit)
def badtoken(sel: store.Selector) = sel.Continue != "" && call2(store.decodeCacheContinue, sel.Continue) != nil

unit (*store.objectCache).List(c, ctx, opts)(r, err)
  props C13
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let n = len(m.items)
  let sel = *opts
  loop copied(i: int, all: []internal.VersionContainer[store.Entry], es: []store.Entry): forall j: int {es[j]} :: 0 <= j && j <= i ==> es[j] == all[j].Resource
  ensures [C08] kept: samemap(m)
  ensures [C08] error: (err != nil) == (opts != nil && badtoken(sel))
  ensures [C08] count: opts == nil ==> len(r.Entries) == n && r.Continue == ""
  ensures [C08] every: forall k: string :: opts == nil && in(k, m.items) ==> (exists i: int :: 0 <= i && i < n && r.Entries[i] == m.items[k].Resource)
  ensures [C08,C13] once: forall i: int, j: int :: err == nil && 0 <= i && i < len(r.Entries) && 0 <= j && j < len(r.Entries) && i != j ==> call(c.keyFunc, r.Entries[i]) != call(c.keyFunc, r.Entries[j])
  ensures [C08] onlystored: forall i: int :: opts == nil && 0 <= i && i < n ==> (exists k: string :: in(k, m.items) && r.Entries[i] == m.items[k].Resource)
  ensures arranged: forall i: int :: opts != nil && err == nil && 0 <= i && i < n ==> (exists k: string :: in(k, m.items) && sortedat(i, store.Entry) == m.items[k].Resource)
  ensures arrangedall: forall k: string :: opts != nil && err == nil && in(k, m.items) ==> (exists i: int :: 0 <= i && i < n && sortedat(i, store.Entry) == m.items[k].Resource)
  ensures ordered: opts != nil && err == nil ==> ordered(c, n, sel.Ordering == 1)
  ensures distinct: forall i: int, j: int :: opts != nil && err == nil && 0 <= i && i < n && 0 <= j && j < n && i != j ==> keyat(c, i) != keyat(c, j)
  ensures page: opts != nil && err == nil ==> page(c, sel, n, r)
  ensures token: opts != nil && err == nil && n <= 2147483647 ==> token(sel, n, r)

def shares(c: *store.objectCache, idx: string, obj: store.Entry, x: store.Entry) = common(c.storage.indexers[idx], obj, x)
unit (*store.objectCache).Index(c, ctx, idx, obj, opts)(r, err)
  props C13
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  let n = sortedlen(store.Entry)
  let sel = *opts
  loop copied(i: int, all: []internal.VersionContainer[store.Entry], es: []store.Entry): forall j: int {es[j]} :: 0 <= j && j <= i ==> es[j] == all[j].Resource
  ensures [C09] kept: samemap(m)
  ensures [C09] error: (err != nil) == (!in(idx, m.indexers) || opts != nil && badtoken(sel))
  ensures [C09] every: forall k: string :: err == nil && opts == nil && in(k, m.items) && shares(c, idx, obj, m.items[k].Resource) ==> (exists i: int :: 0 <= i && i < len(r.Entries) && r.Entries[i] == m.items[k].Resource)
  ensures [C09,C13] once: forall i: int, j: int :: err == nil && 0 <= i && i < len(r.Entries) && 0 <= j && j < len(r.Entries) && i != j ==> call(c.keyFunc, r.Entries[i]) != call(c.keyFunc, r.Entries[j])
  ensures [C09] onlysharing: forall i: int :: err == nil && opts == nil && 0 <= i && i < len(r.Entries) ==> (exists k: string :: in(k, m.items) && shares(c, idx, obj, m.items[k].Resource) && r.Entries[i] == m.items[k].Resource)
  ensures [C09] nocontinue: err == nil && opts == nil ==> r.Continue == ""
  ensures arranged: forall i: int :: opts != nil && err == nil && 0 <= i && i < n ==> (exists k: string :: in(k, m.items) && shares(c, idx, obj, m.items[k].Resource) && sortedat(i, store.Entry) == m.items[k].Resource)
  ensures arrangedall: forall k: string :: opts != nil && err == nil && in(k, m.items) && shares(c, idx, obj, m.items[k].Resource) ==> (exists i: int :: 0 <= i && i < n && sortedat(i, store.Entry) == m.items[k].Resource)
  ensures ordered: opts != nil && err == nil ==> ordered(c, n, sel.Ordering == 1)
  ensures distinct: forall i: int, j: int :: opts != nil && err == nil && 0 <= i && i < n && 0 <= j && j < n && i != j ==> keyat(c, i) != keyat(c, j)
  ensures page: opts != nil && err == nil ==> page(c, sel, n, r)
  ensures token: opts != nil && err == nil && n <= 2147483647 ==> token(sel, n, r)

unit (*store.objectCache).IndexValues(c, ctx, idx)(r, err)
  props C09
  requires okcache(c)
  locks internal.SyncIndexedMap[store.Entry].mu
  let m = c.storage
  ensures unknown: (err != nil) == !in(idx, m.indexers)
  ensures every: forall v: string, k: string :: err == nil && in(k, m.items) && hasval(m.indexers[idx], m.items[k].Resource, v) ==> (exists i: int :: 0 <= i && i < len(r) && r[i] == v)
  ensures onlyused: forall i: int :: err == nil && 0 <= i && i < len(r) ==> (exists k: string :: in(k, m.items) && hasval(m.indexers[idx], m.items[k].Resource, r[i]))
  ensures once: forall i: int, j: int :: err == nil && 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures kept: samemap(m)

unit store.NewDefaultCachingStore(cfg)(r)
  props C08
  requires forall n: string :: in(n, cfg.Indexers) ==> cfg.Indexers[n] != nil
  let c = as(r, *store.objectCache)
  loop wrapped(it: iter[string], g: map[string]internal.Indexer[store.Entry], src: map[string]store.CacheIndexer): itermap(it) == src && (forall n: string :: in(n, g) == visited(it, n) && (in(n, g) ==> g[n] == src[n]))
  ensures cache: is(r, *store.objectCache) && c != nil && c.storage != nil && c.keyFunc != nil && indexersok(c.storage)
  ensures empty: forall k: string :: !in(k, c.storage.items)
  ensures key: cfg.Key != nil ==> c.keyFunc == cfg.Key
  ensures [C12] handlers: c.eventHandlers == cfg.EventHandlers
  ensures [C09] indexers: cfg.Indexers != nil ==> (forall n: string :: in(n, c.storage.indexers) == in(n, cfg.Indexers) && (in(n, c.storage.indexers) ==> c.storage.indexers[n] == cfg.Indexers[n]))
  ensures defaultkey: forall e: store.Entry {call(c.keyFunc, e)} :: cfg.Key == nil && e.Record != nil ==> call(c.keyFunc, e) == e.Record.Identity() && call2(c.keyFunc, e) == nil
  ensures [C09] defaultindexes: cfg.Indexers == nil ==> (forall n: string :: in(n, c.storage.indexers) == (n == "source" || n == "site"))
