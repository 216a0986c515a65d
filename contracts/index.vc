// ---- the indexed map under the store (C08, C09, C10, C23) ----
fnspec func(store.Entry)([]string) pure

lock internal.SyncIndexedMap[store.Entry].mu (m)
  deep
  guards items, indicies, version
  contents map[string]internal.VersionContainer[store.Entry]; map[string]internal.Index; map[string]internal.KeySet; internal.KeySet
  invariant [C08,C09,C10] maps: m.items != nil && m.indicies != nil
  // fewer than 2^62 writes are made to one store
  definition fewwrites: m.version < 4611686018427387904
  invariant [C08,C10] versions: m.version >= 0 && (forall k: string :: in(k, m.items) ==> 1 <= m.items[k].Version && m.items[k].Version <= m.version)
  // every entry lies under its own key
  invariant [C08,C13] keyed: forall k: string :: in(k, m.items) ==> keyof(m, m.items[k].Resource) == k
  // a write gives an entry a version later than any version given before
  history [C10] rewritten: m.version >= old(m.version) && (forall k: string :: in(k, m.items) && !(old(in(k, m.items)) && m.items[k] == old(m.items[k])) ==> m.items[k].Version > old(m.version))
  invariant [C09] shape: ishape(m)
  invariant [C09] nonempty: alive(m)
  invariant [C09] exact: forall n: string, v: string, k: string {listed(m, n, v, k)} :: listed(m, n, v, k) == (in(n, m.indexers) && in(k, m.items) && hasval(m.indexers[n], m.items[k].Resource, v))

// the key of an entry of m
fun keyof(*internal.SyncIndexedMap[store.Entry], store.Entry) string

// v is among the first i values the indexer f gives for e
fun among(internal.Indexer[store.Entry], store.Entry, int, string) bool
fun amongi(internal.Indexer[store.Entry], store.Entry, int, string) int
axiom witness@among: forall f: internal.Indexer[store.Entry], e: store.Entry, i: int, v: string {among(f, e, i, v)} :: among(f, e, i, v) ==> 0 <= amongi(f, e, i, v) && amongi(f, e, i, v) < i && callelem(f, e, amongi(f, e, i, v)) == v
axiom member@among: forall f: internal.Indexer[store.Entry], e: store.Entry, i: int, j: int, v: string {among(f, e, i, v), callelem(f, e, j)} :: 0 <= j && j < i && callelem(f, e, j) == v ==> among(f, e, i, v)
def hasval(f: internal.Indexer[store.Entry], e: store.Entry, v: string) = among(f, e, calllen(f, e), v)

// key k is listed under value v of index n
def listed(m: *internal.SyncIndexedMap[store.Entry], n: string, v: string, k: string) = in(n, m.indicies) && in(v, m.indicies[n]) && in(k, m.indicies[n][v])
// every index and key set is an object of its own
def s1(m: *internal.SyncIndexedMap[store.Entry]) = (forall n: string :: in(n, m.indicies) ==> m.indicies[n] != nil)
def s2(m: *internal.SyncIndexedMap[store.Entry]) = (forall n: string, v: string :: in(n, m.indicies) && in(v, m.indicies[n]) ==> m.indicies[n][v] != nil)
def s3(m: *internal.SyncIndexedMap[store.Entry]) = (forall n: string, n2: string :: in(n, m.indicies) && in(n2, m.indicies) && n != n2 ==> m.indicies[n] != m.indicies[n2])
def s4(m: *internal.SyncIndexedMap[store.Entry]) = (forall n: string, v: string, n2: string, v2: string :: in(n, m.indicies) && in(v, m.indicies[n]) && in(n2, m.indicies) && in(v2, m.indicies[n2]) && (n != n2 || v != v2) ==> m.indicies[n][v] != m.indicies[n2][v2])
def ishape(m: *internal.SyncIndexedMap[store.Entry]) = s1(m) && s2(m) && s3(m) && s4(m)

helper (*store/internal.SyncIndexedMap[store.Entry]).unindex(m, key, obj)()
  use
  props C09
  requires m != nil && m.indicies != nil && ishape(m) && indexersok(m)
  holds m.mu
  modifies maps(internal.Index), maps(internal.KeySet)
  ensures shape: ishape(m)
  ensures gone: forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(k == key && in(n, m.indexers) && hasval(m.indexers[n], obj, v)))
  loop shape(): ishape(m)
  loop outer(it: iter[string]): forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(k == key && visited(it, n) && hasval(m.indexers[n], obj, v)))
  loop inner(it: iter[string], i: int, cn: string): forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(k == key && (visited(it, n) && n != cn && hasval(m.indexers[n], obj, v) || n == cn && among(m.indexers[cn], obj, i + 1, v))))
  ensures nonempty: (forall n: string, v: string :: old(in(n, m.indicies) && in(v, m.indicies[n]) ==> len(m.indicies[n][v]) > 0)) ==> (forall n: string, v: string :: in(n, m.indicies) && in(v, m.indicies[n]) ==> len(m.indicies[n][v]) > 0)
  loop nonempty(): (forall n: string, v: string :: old(in(n, m.indicies) && in(v, m.indicies[n]) ==> len(m.indicies[n][v]) > 0)) ==> (forall n: string, v: string :: in(n, m.indicies) && in(v, m.indicies[n]) ==> len(m.indicies[n][v]) > 0)

def indexersok(m: *internal.SyncIndexedMap[store.Entry]) = forall n: string :: in(n, m.indexers) ==> m.indexers[n] != nil
def alive(m: *internal.SyncIndexedMap[store.Entry]) = forall n: string, v: string :: in(n, m.indicies) && in(v, m.indicies[n]) ==> len(m.indicies[n][v]) > 0

helper (*store/internal.SyncIndexedMap[store.Entry]).reindex(m, key, prev, curr)()
  use
  props C09
  requires m != nil && m.indicies != nil && ishape(m) && indexersok(m) && alive(m)
  holds m.mu
  modifies maps(map[string]internal.Index), maps(internal.Index), maps(internal.KeySet)
  ensures shape: ishape(m)
  ensures nonempty: alive(m)
  ensures placed: forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(prev != nil && k == key && in(n, m.indexers) && hasval(m.indexers[n], old(*prev), v)) || k == key && in(n, m.indexers) && hasval(m.indexers[n], curr, v))
  loop shape(): ishape(m) && alive(m)
  loop outer(it: iter[string]): forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(prev != nil && k == key && in(n, m.indexers) && hasval(m.indexers[n], old(*prev), v)) || k == key && visited(it, n) && hasval(m.indexers[n], curr, v))
  loop inner(it: iter[string], i: int, cn: string): forall n: string, v: string, k: string :: listed(m, n, v, k) == (old(listed(m, n, v, k)) && !(prev != nil && k == key && in(n, m.indexers) && hasval(m.indexers[n], old(*prev), v)) || k == key && (visited(it, n) && n != cn && hasval(m.indexers[n], curr, v) || n == cn && among(m.indexers[cn], curr, i + 1, v)))
  loop innershape(i: int, cn: string): m.indicies[cn] != nil && in(cn, m.indicies)

fnspec func(store/internal.VersionContainer[store.Entry])(error) pure

unit store/internal.NewSyncIndexedMap[store.Entry](indexers)(r)
  props C08 C09
  ensures empty: r != nil && r.items != nil && r.indicies != nil && (forall k: string :: !in(k, r.items)) && (forall n: string :: !in(n, r.indicies))
  ensures indexers: r.indexers == indexers
  ensures version: r.version == 0

unit (*store/internal.SyncIndexedMap[store.Entry]).Get(m, key)(cc, ok)
  use
  props C08 C10
  requires m != nil
  locks internal.SyncIndexedMap[store.Entry].mu
  ensures found: ok == atlock(in(key, m.items))
  ensures value: ok ==> cc == atlock(m.items[key])
  ensures absent: !ok ==> cc == zero(internal.VersionContainer[store.Entry])
  ensures kept: samemap(m)

def samemap(m: *internal.SyncIndexedMap[store.Entry]) = atlock(dom(m.items)) == dom(m.items) && atlock(mvals(m.items)) == mvals(m.items) && m.version == atlock(m.version) && (forall n: string, v: string, k: string :: listed(m, n, v, k) == atlock(listed(m, n, v, k)))

unit (*store/internal.SyncIndexedMap[store.Entry]).Update(m, key, obj, cond)(d, err)
  use
  props C08 C10
  requires m != nil && indexersok(m)
  requires keyof(m, obj) == key
  requires forall i: int :: 0 <= i && i < len(cond) ==> cond[i] != nil
  locks internal.SyncIndexedMap[store.Entry].mu
  loop passed(i: int): forall j: int :: 0 <= j && j <= i ==> call(cond[j], atlock(m.items[key])) == nil
  ensures [C10] refused: (exists i: int :: 0 <= i && i < len(cond) && call(cond[i], atlock(m.items[key])) != nil) ==> err != nil
  ensures [C10] accepted: err != nil ==> (exists i: int :: 0 <= i && i < len(cond) && call(cond[i], atlock(m.items[key])) != nil)
  ensures unaffected: err != nil ==> samemap(m)
  ensures keys: err == nil ==> (forall k: string :: in(k, m.items) == (k == key || atlock(in(k, m.items))))
  ensures others: err == nil ==> (forall k: string :: k != key && in(k, m.items) ==> m.items[k] == atlock(m.items[k]))
  ensures stored: err == nil ==> m.items[key].Resource == obj
  ensures [C10] newversion: err == nil ==> m.items[key].Version > atlock(m.version) && m.version == m.items[key].Version
  ensures [C12] prev: err == nil ==> (d.Prev != nil) == atlock(in(key, m.items)) && (d.Prev != nil ==> *d.Prev == atlock(m.items[key].Resource))
  ensures [C12] next: err == nil ==> d.Next == obj

unit (*store/internal.SyncIndexedMap[store.Entry]).Delete(m, key)(deleted, ok)
  use
  props C08
  requires m != nil && indexersok(m)
  locks internal.SyncIndexedMap[store.Entry].mu
  ensures found: ok == atlock(in(key, m.items))
  ensures value: ok ==> deleted == atlock(m.items[key])
  ensures removed: forall k: string :: in(k, m.items) == (k != key && atlock(in(k, m.items)))
  ensures others: forall k: string :: k != key && in(k, m.items) ==> m.items[k] == atlock(m.items[k])
  ensures [C10] version: m.version == atlock(m.version)

unit (*store/internal.SyncIndexedMap[store.Entry]).Replace(m, items)()
  use
  props C08
  requires m != nil && indexersok(m)
  requires forall k: string :: in(k, items) ==> keyof(m, items[k]) == k
  locks internal.SyncIndexedMap[store.Entry].mu
  loop copied(it: iter[string], cc: map[string]internal.VersionContainer[store.Entry]): cc != nil && m.version >= atlock(m.version) && m.version <= atlock(m.version) + itern(it) && (forall k: string :: in(k, cc) == visited(it, k) && (visited(it, k) ==> cc[k].Resource == items[k] && cc[k].Version > atlock(m.version) && cc[k].Version <= m.version))
  loop shape(): ishape(m) && alive(m)
  loop indexed(it: iter[string]): forall n: string, v: string, k: string :: listed(m, n, v, k) == (visited(it, k) && in(n, m.indexers) && hasval(m.indexers[n], items[k], v))
  ensures keys: forall k: string :: in(k, m.items) == in(k, items)
  ensures values: forall k: string :: in(k, items) ==> m.items[k].Resource == items[k]
  ensures [C10] newversions: forall k: string :: in(k, m.items) ==> m.items[k].Version > atlock(m.version)

unit (*store/internal.SyncIndexedMap[store.Entry]).List(m)(r)
  use
  props C08
  requires m != nil
  locks internal.SyncIndexedMap[store.Entry].mu
  loop seen(it: iter[string], list: []internal.VersionContainer[store.Entry]): len(list) == itern(it) && (forall i: int :: 0 <= i && i < len(list) ==> list[i] == m.items[iterkey(it, i)])
  ensures all: forall k: string :: in(k, m.items) ==> (exists i: int :: 0 <= i && i < len(r) && r[i] == m.items[k])
  ensures only: forall i: int {r[i]} :: 0 <= i && i < len(r) ==> (exists k: string :: in(k, m.items) && r[i] == m.items[k])
  ensures count: len(r) == len(m.items)
  ensures once: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && i != j ==> keyof(m, r[i].Resource) != keyof(m, r[j].Resource)
  ensures kept: samemap(m)

// x has one of the first i values the indexer f gives for e
fun sharing(internal.Indexer[store.Entry], store.Entry, int, store.Entry) bool
fun sharingj(internal.Indexer[store.Entry], store.Entry, int, store.Entry) int
axiom witness@sharing: forall f: internal.Indexer[store.Entry], e: store.Entry, i: int, x: store.Entry {sharing(f, e, i, x)} :: sharing(f, e, i, x) ==> 0 <= sharingj(f, e, i, x) && sharingj(f, e, i, x) < i && hasval(f, x, callelem(f, e, sharingj(f, e, i, x)))
axiom member@sharing: forall f: internal.Indexer[store.Entry], e: store.Entry, i: int, x: store.Entry, j: int {sharing(f, e, i, x), callelem(f, e, j)} :: 0 <= j && j < i && hasval(f, x, callelem(f, e, j)) ==> sharing(f, e, i, x)
def common(f: internal.Indexer[store.Entry], e: store.Entry, x: store.Entry) = sharing(f, e, calllen(f, e), x)

unit (*store/internal.SyncIndexedMap[store.Entry]).IndexValues(m, name)(r, err)
  use
  props C09
  requires m != nil && indexersok(m)
  locks internal.SyncIndexedMap[store.Entry].mu
  loop seen(it: iter[string], vs: []string): len(vs) == itern(it) && (forall i: int :: 0 <= i && i < len(vs) ==> vs[i] == iterkey(it, i))
  ensures unknown: (err != nil) == !in(name, m.indexers)
  ensures all: forall v: string, k: string :: err == nil && in(k, m.items) && hasval(m.indexers[name], m.items[k].Resource, v) ==> (exists i: int :: 0 <= i && i < len(r) && r[i] == v)
  ensures only: forall i: int :: err == nil && 0 <= i && i < len(r) ==> (exists k: string :: in(k, m.items) && hasval(m.indexers[name], m.items[k].Resource, r[i]))
  ensures once: forall i: int, j: int :: err == nil && 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures kept: samemap(m)

unit (*store/internal.SyncIndexedMap[store.Entry]).Index(m, name, obj)(r, err)
  use
  props C09
  requires m != nil && indexersok(m)
  locks internal.SyncIndexedMap[store.Entry].mu
  loop outer(keys: internal.KeySet, i: int): forall k: string :: in(k, keys) == (in(k, m.items) && sharing(m.indexers[name], obj, i + 1, m.items[k].Resource))
  loop inner(keys: internal.KeySet, i: int, it: iter[string]): forall k: string :: in(k, keys) == (in(k, m.items) && sharing(m.indexers[name], obj, i + 1, m.items[k].Resource) || visited(it, k))
  loop listing(it: iter[string], list: []internal.VersionContainer[store.Entry]): len(list) == itern(it) && (forall i: int :: 0 <= i && i < len(list) ==> list[i] == m.items[iterkey(it, i)])
  ensures unknown: (err != nil) == !in(name, m.indexers)
  ensures all: forall k: string :: err == nil && in(k, m.items) && common(m.indexers[name], obj, m.items[k].Resource) ==> (exists i: int :: 0 <= i && i < len(r) && r[i] == m.items[k])
  ensures only: forall i: int :: err == nil && 0 <= i && i < len(r) ==> (exists k: string :: in(k, m.items) && common(m.indexers[name], obj, m.items[k].Resource) && r[i] == m.items[k])
  ensures once: forall i: int, j: int {r[i], r[j]} :: err == nil && 0 <= i && i < len(r) && 0 <= j && j < len(r) && i != j ==> keyof(m, r[i].Resource) != keyof(m, r[j].Resource)
  ensures kept: samemap(m)

helper store/internal.WhenVersionMatches[store.Entry](target)(r)
  use
  props C10
  ensures some: r != nil
  ensures match: forall cc: internal.VersionContainer[store.Entry] {call(r, cc)} :: (call(r, cc) == nil) == (cc.Version == target)

helper store/internal.WhenNotExists[store.Entry]()(r)
  use
  props C08
  ensures some: r != nil
  ensures match: forall cc: internal.VersionContainer[store.Entry] {call(r, cc)} :: (call(r, cc) == nil) == (cc.Version == 0)
