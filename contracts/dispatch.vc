// ---- dispatching records to stores (C14) ----
fnspec method store.RecordAccumulator.Accumulate event
fnspec method store.Interface.Accumulate event

def typekey(m: vanflow.TypeMeta) = m.APIVersion + "/" + m.Type

unit (*store.DispatchRegistry).RegisterStore(d, record, stor)()
  props C14
  safety C14
  requires d != nil && record != nil
  ensures placed: d.reg != nil && in(typekey(record.GetTypeMeta()), d.reg) && d.reg[typekey(record.GetTypeMeta())] == stor
  ensures others: forall k: string :: k != typekey(record.GetTypeMeta()) ==> in(k, d.reg) == (old(d.reg) != nil && old(in(k, d.reg))) && (in(k, d.reg) ==> d.reg[k] == old(d.reg[k]))

unit (store.DispatchRegistry).NewDispatcher(d, source)(r)
  props C14
  safety C14
  ensures source: r.source == source
  ensures own: r.accumulators != nil && isfresh(r.accumulators)
  ensures same: forall k: string :: in(k, r.accumulators) == (d.reg != nil && in(k, d.reg)) && (in(k, d.reg) ==> r.accumulators[k] == d.reg[k])
  loop copied(it: iter[string], acc: map[string]store.RecordAccumulator): itermap(it) == d.reg && isfresh(acc) && acc != d.reg && (forall k: string :: in(k, acc) == visited(it, k) && (in(k, acc) ==> acc[k] == d.reg[k]))

// how many of the first n records have a store
fun routed(store.Dispatcher, []vanflow.Record, int) int
def has(d: store.Dispatcher, r: vanflow.Record) = in(typekey(r.GetTypeMeta()), d.accumulators)
axiom none@routed: forall d: store.Dispatcher, rs: []vanflow.Record {routed(d, rs, 0)} :: routed(d, rs, 0) == 0
axiom next@routed: forall d: store.Dispatcher, rs: []vanflow.Record, n: int, m: int {routed(d, rs, n), routed(d, rs, m)} :: n >= 0 && m == n + 1 ==> routed(d, rs, m) == routed(d, rs, n) + ite(has(d, rs[n]), 1, 0)

unit (store.Dispatcher).Dispatch(d, msg)()
  props C14
  safety C14
  requires forall i: int :: 0 <= i && i < len(msg.Records) ==> msg.Records[i] != nil
  requires forall k: string :: in(k, d.accumulators) ==> d.accumulators[k] != nil
  ensures count: evn() == old(evn()) + routed(d, msg.Records, len(msg.Records))
  ensures each: forall i: int :: 0 <= i && i < len(msg.Records) && has(d, msg.Records[i]) ==> let e = old(evn()) + routed(d, msg.Records, i) :: evarg(e, "0") == box(d.accumulators[typekey(msg.Records[i].GetTypeMeta())]) && evarg(e, "1") == box(d.source) && evarg(e, "2") == box(msg.Records[i])
  loop count(i: int): evn() == old(evn()) + routed(d, msg.Records, i + 1)
  loop each(i: int): forall j: int :: 0 <= j && j <= i && has(d, msg.Records[j]) ==> let e = old(evn()) + routed(d, msg.Records, j) :: evarg(e, "0") == box(d.accumulators[typekey(msg.Records[j].GetTypeMeta())]) && evarg(e, "1") == box(d.source) && evarg(e, "2") == box(msg.Records[j])
  loop below(i: int): forall j: int :: 0 <= j && j <= i && has(d, msg.Records[j]) ==> routed(d, msg.Records, j) < routed(d, msg.Records, i + 1)
