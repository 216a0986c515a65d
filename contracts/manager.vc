// ---- the manager (C15 - C18) ----
def keycode(n: uint32) = box(cast(n, uint32))
def identifying(k: any) = is(k, uint32) && as(k, uint32) < 2
// attribute k of q is missing from p or has another value there
def differs(p: any, q: any, k: any) = attrset(q, k) && !(attrset(p, k) && attrval(p, k) == attrval(q, k))
// the update says something new
fun changed(eventsource.RecordUpdate) bool
axiom def@changed: forall d: eventsource.RecordUpdate {changed(d)} :: changed(d) == (d.Prev == nil || encodes(box(d.Prev)) && encodes(box(d.Curr)) && (exists k: any :: differs(box(d.Prev), box(d.Curr), k)))
// r is the record to send for it
fun deltaof(eventsource.RecordUpdate, vanflow.Record) bool
axiom def@deltaof: forall d: eventsource.RecordUpdate, r: vanflow.Record {deltaof(d, r)} :: deltaof(d, r) == ((d.Prev == nil ==> r == d.Curr) && (d.Prev != nil ==> encodes(box(r)) && (forall k: any :: attrset(box(r), k) == (differs(box(d.Prev), box(d.Curr), k) || attrset(box(d.Curr), k) && identifying(k)) && (attrset(box(r), k) ==> attrval(box(r), k) == attrval(box(d.Curr), k)))))
// types of records require no more than their identity
def plain() = forall c: any, k: any {required(c, k)} :: required(c, k) ==> identifying(k)

helper eventsource.diffRecord(d)(r, ok)
  use
  props C15
  safety C15
  requires plain()
  ensures changed: ok == changed(d)
  ensures delta: ok ==> deltaof(d, r)
  loop delta(it: iter[any], out: map[any]any, src: map[any]any): itermap(it) == src && (forall k: any :: in(k, out) == (visited(it, k) && (differs(box(d.Prev), box(d.Curr), k) || identifying(k))) && (in(k, out) ==> out[k] == src[k]))
  loop seen(it: iter[any], b: bool): forall k: any :: visited(it, k) && differs(box(d.Prev), box(d.Curr), k) ==> b
  loop some(it: iter[any], b: bool): b ==> (exists k: any :: differs(box(d.Prev), box(d.Curr), k))

fnspec method session.Sender.Send event
fnspec method session.Sender.Close event
fnspec method session.Container.NewSender event
fnspec method session.Container.NewReceiver event
fnspec method session.Receiver.Next event
fnspec method session.Receiver.Accept event
fnspec method session.Receiver.Close event

trusted store.Interface.List(s, ctx, sel)(set, err)
  ensures limit: err == nil && sel != nil && sel.Limit > 0 ==> len(set.Entries) <= sel.Limit

// the n-th update taken from the queue, and how many of the first n have something to send
fun upd(int) eventsource.RecordUpdate
fun news(int) int
axiom none@news: news(0) == 0
axiom next@news: forall n: int, k: int {news(n), news(k)} :: n >= 0 && k == n + 1 ==> news(k) == news(n) + ite(changed(upd(n)), 1, 0)

ghost nin: int
ghost start: int
ghost nsent: int
ghost cur: int
ghost tok: string
ghost pend: bool
ghost page: store.Set

helper (*eventsource.Manager).serve(m, ctx)()
  use
  props C16 C17
  safety C16 C17
  requires m != nil && ctx != nil && plain()
  requires forall i: int :: 0 <= i && i < len(m.Stores) ==> m.Stores[i] != nil
  // no context's Done channel is the flush queue
  requires forall c: context.Context {donechan(c)} :: donechan(c) != m.flushQueue
  begin nin = 0
  begin start = 0
  begin nsent = 0
  begin cur = len(m.Stores)
  begin tok = ""
  begin pend = false
  on recv eventsource.RecordUpdate(ch, v, ok)
    define upd(nin) == v
    assert [C16] queue: ch == m.changeQueue
    assert [C17] whole: cur == len(m.Stores) && !pend
    set start = ite(news(nin) == nsent, nin, start)
    set nin = nin + 1
  on recv struct{}(ch, v, ok)
    assert [C16] settled: ch == m.flushQueue ==> news(nin) == nsent
    assert [C17] whole: ch == m.flushQueue ==> (cur == len(m.Stores) || cur == 0 && tok == "") && !pend
    set cur = ite(ch == m.flushQueue, 0, cur)
    set tok = ite(ch == m.flushQueue, "", tok)
  on store.Interface.List(s, lctx, sel, set, err)
    assert [C17] store: cur < len(m.Stores) && s == m.Stores[cur] && !pend
    assert [C17] page: sel != nil && sel.Continue == tok && sel.Limit == m.FlushBatchSize && sel.Offset == 0 && sel.Ordering == 0
    set cur = ite(err == nil && set.Continue == "", cur + 1, cur)
    set tok = ite(err == nil, set.Continue, tok)
    set pend = err == nil && len(set.Entries) > 0
    set page = set
  on send vanflow.RecordMessage(ch, v)
    assert [C16,C17] queue: ch == m.sendQueue
    assert [C16,C17] nonempty: len(v.Records) > 0
    assert [C17] page: pend ==> len(v.Records) == len(page.Entries) && (forall i: int :: 0 <= i && i < len(v.Records) ==> v.Records[i] == page.Entries[i].Record)
    assert [C17] size: pend && m.FlushBatchSize > 0 ==> len(v.Records) <= m.FlushBatchSize
    assert [C16] count: !pend ==> len(v.Records) == news(nin) - nsent
    assert [C16] each: !pend ==> (forall j: int {upd(j)} :: start <= j && j < nin && changed(upd(j)) ==> deltaof(upd(j), v.Records[news(j) - nsent]))
    assert [C16] size: !pend ==> len(v.Records) <= ite(m.UpdateBufferTime > 0 && m.UpdateBatchSize > 1, m.UpdateBatchSize, 1)
    set nsent = ite(pend, nsent, news(nin))
    set pend = false
  ensures [C16,C17] stops: ctxdone(ctx)
  loop counts(): nin >= 0 && start <= nin
  loop settled(): news(nin) == nsent
  loop idle(): cur == len(m.Stores)
  loop clear(): !pend
  loop drain(): cur == 0 && tok == ""
  loop taken(o_: []eventsource.RecordUpdate): len(o_) <= nin && (forall j: int :: 0 <= j && j < len(o_) ==> o_[j] == upd(nin - len(o_) + j))
  loop first(o_: []eventsource.RecordUpdate): nin - len(o_) >= 1 && news(nin - len(o_) - 1) == nsent && start >= nin - len(o_) - 1
  loop few(o_: []eventsource.RecordUpdate): len(o_) + 1 < m.UpdateBatchSize
  loop built(b: []eventsource.RecordUpdate, rs_: []vanflow.Record, i_: int): len(rs_) == news(nin - len(b) + i_ + 1) - nsent && len(rs_) <= i_ + 1
  loop deltas(b: []eventsource.RecordUpdate, rs_: []vanflow.Record, i_: int): forall j: int {upd(j)} :: nin - len(b) <= j && j <= nin - len(b) + i_ && changed(upd(j)) ==> news(j) < news(nin - len(b) + i_ + 1) && deltaof(upd(j), rs_[news(j) - nsent])
  loop queue(q: []store.Interface): len(q) == len(m.Stores) - cur && (forall i: int :: 0 <= i && i < len(q) ==> q[i] == m.Stores[cur + i])
  loop selector(sel: *store.Selector): sel.Continue == tok && sel.Limit == m.FlushBatchSize && sel.Offset == 0 && sel.Ordering == 0
  loop listed(rs: []vanflow.Record, i_: int): forall j: int :: 0 <= j && j <= i_ ==> rs[j] == page.Entries[j].Record

// ---- sending queued messages (C16) ----
// the address a sender or receiver was made for
fun sendaddr(session.Sender) string
fun recvaddr(session.Receiver) string
def isrecord(msg: *amqp.Message, rm: vanflow.RecordMessage) = subject(msg, "RECORD") && is(msg.Value, []any) && (let vs = as(msg.Value, []any) :: len(vs) == len(rm.Records) && (forall i: int :: 0 <= i && i < len(vs) ==> encoding(vs[i], box(rm.Records[i]))))
def badrecord(rm: vanflow.RecordMessage) = exists i: int :: 0 <= i && i < len(rm.Records) && !encodes(box(rm.Records[i]))

ghost taken: vanflow.RecordMessage
ghost waiting: bool

helper (*eventsource.Manager).sendRecords(m, ctx)()
  props C16
  safety C16
  requires m != nil && ctx != nil && m.container != nil
  begin waiting = false
  on session.Container.NewSender(c, addr, opts, s)
    define s != nil && sendaddr(s) == addr
  on recv vanflow.RecordMessage(ch, v, ok)
    assert queue: ch == m.sendQueue
    assert sent: waiting ==> badrecord(taken)
    set taken = v
    set waiting = true
  on session.Sender.Send(s, sctx, msg, err)
    assert once: waiting
    assert to: sendaddr(s) == m.Source.Address
    assert message: isrecord(msg, taken)
    set waiting = false
  ensures stops: ctxdone(ctx)
  ensures sent: waiting ==> badrecord(taken)
  loop sent(): waiting ==> badrecord(taken)

// ---- flush requests (C17) ----
unit eventsource.NewManager(container, cfg)(m)
  props C17
  safety C17
  ensures room: m != nil && cap(m.flushQueue) >= 1
  ensures config: m.ManagerConfig == cfg && m.container == container

ghost asked: bool

helper (*eventsource.Manager).listenFlushes(m, ctx)()
  props C17
  safety C17
  requires m != nil && ctx != nil && m.container != nil
  begin asked = false
  on session.Container.NewReceiver(c, addr, opts, r)
    define r != nil && recvaddr(r) == addr
  on session.Receiver.Next(r, rctx, msg, err)
    assert from: recvaddr(r) == m.Source.Direct
    assert kept: !asked
    set asked = err == nil
  on trysend struct{}(ch, v)
    assert request: ch == m.flushQueue ==> asked
    set asked = ite(ch == m.flushQueue, false, asked)
  on send struct{}(ch, v)
    set asked = ite(ch == m.flushQueue, false, asked)
  ensures stops: ctxdone(ctx)
  ensures kept: !asked
  loop kept(): !asked

// ---- keepalives (C18) ----
def describes(msg: *amqp.Message, m: *eventsource.Manager) = forall d: vanflow.BeaconMessage :: readsbeacon(msg, d) ==> d.MessageProps.To == "mc/sfe.all" && d.Version == cast(m.Source.Version, uint32) && d.SourceType == m.Source.Type && d.Address == m.Source.Address && d.Direct == m.Source.Direct && d.Identity == m.Source.ID
def beats(msg: *amqp.Message, m: *eventsource.Manager) = forall d: vanflow.HeartbeatMessage :: readsheartbeat(msg, d) ==> d.MessageProps.To == "mc/sfe." + m.Source.ID && d.Version == cast(m.Source.Version, uint32) && d.Identity == m.Source.ID

ghost again: bool
ghost serr: error
ghost sctx: context.Context

helper eventsource.sendWithTimeout(ctx, timeout, sender, msg)(err)
  props C18
  safety C18
  config init eventsource
  requires ctx != nil && sender != nil
  on session.Sender.Send(s, c, mm, e)
    // a sender that fails with a context's error does so because it is done
    define iserr(e, ctxerr(c)) ==> ctxdone(c)
    assert same: s == sender && mm == msg
    assert deadline: ctxtimeout(c) <= timeout
    set serr = e
    set sctx = c
  ensures expired: serr != nil && iserr(serr, ctxerr(sctx)) && !ctxdone(ctx) ==> err == eventsource.errSendTimeoutExceeded
  ensures failed: (err == nil) == (serr == nil)

helper (*eventsource.Manager).sendKeepalives(m, ctx)()
  props C18
  safety C18
  config init vanflow eventsource
  requires m != nil && ctx != nil && m.container != nil
  begin again = false
  on session.Container.NewSender(c, addr, opts, s)
    define s != nil && sendaddr(s) == addr
  on recv time.Time(ch, v, ok)
    set again = false
  on session.Sender.Send(s, c, msg, err)
    assert kind: subject(msg, "BEACON") || subject(msg, "HEARTBEAT")
    assert beacon: subject(msg, "BEACON") ==> sendaddr(s) == "mc/sfe.all" && describes(msg, m)
    assert heartbeat: subject(msg, "HEARTBEAT") ==> sendaddr(s) == ite(m.UseAlternateHeartbeatAddress, m.Source.Address + ".heartbeats", m.Source.Address) && beats(msg, m)
    assert deadline: ctxtimeout(c) <= ite(subject(msg, "BEACON"), ite(m.BeaconInterval <= 0, 10000000000, m.BeaconInterval), ite(m.HeartbeatInterval <= 0, 2000000000, m.HeartbeatInterval))
    assert again: !again
    set again = err != nil && ctxdone(ctx)
  ensures stops: ctxdone(ctx)
  loop again(): !again
