// ---- discovery of event sources (C19, C20) ----
lock eventsource.Discovery.lock (d)
  guards state
  contents map[string]eventsource.Info
  invariant [C19] made: d.state != nil
  invariant [C19] keyed: forall k: string :: in(k, d.state) ==> d.state[k].ID == k

def samesource(a: eventsource.Info, b: eventsource.Info) = a.ID == b.ID && a.Version == b.Version && a.Type == b.Type && a.Address == b.Address && a.Direct == b.Direct
// the entries of d other than k are those there were
def othersources(d: *eventsource.Discovery, k: string) = forall j: string :: j != k ==> in(j, d.state) == old(in(j, d.state)) && (in(j, d.state) ==> d.state[j] == old(d.state[j]))

// announcements made by the operation
ghost dfound: int
ghost dlost: int

unit eventsource.NewDiscovery(container, opts)(d)
  props C19 C20
  safety C19
  config init eventsource
  ensures made: d != nil && d.container == container && d.state != nil && (forall k: string :: !in(k, d.state))
  ensures address: d.beaconAddress == ite(opts.BeaconAddress == "", "mc/sfe.all", opts.BeaconAddress)
  ensures channels: d.discovered != nil && d.forgotten != nil && d.discovered != d.forgotten

unit (*eventsource.Discovery).Get(d, id)(source, ok)
  props C19
  safety C19
  requires d != nil
  ensures known: ok == old(in(id, d.state))
  ensures entry: ok ==> source == old(d.state[id])

unit (*eventsource.Discovery).List(d)(rs)
  props C19
  safety C19
  requires d != nil
  ensures recorded: forall i: int :: 0 <= i && i < len(rs) ==> (let k = rs[i].ID :: old(in(k, d.state)) && rs[i] == old(d.state[k]))
  ensures distinct: forall i: int, j: int :: 0 <= i && i < j && j < len(rs) ==> rs[i].ID != rs[j].ID
  ensures all: len(rs) == old(card(d.state))
  loop listed(it: iter[string], rs: []eventsource.Info): itermap(it) == d.state && len(rs) == itern(it) && (forall j: int :: 0 <= j && j < len(rs) ==> rs[j] == d.state[iterkey(it, j)] && rs[j].ID == iterkey(it, j))

unit (*eventsource.Discovery).Add(d, info)(added)
  props C19
  safety C19
  requires d != nil && d.discovered != d.forgotten
  begin dfound = 0
  on unlock eventsource.Discovery.lock(l)
    assert known: old(in(info.ID, l.state)) ==> l.state[info.ID] == old(l.state[info.ID])
    assert recorded: !old(in(info.ID, l.state)) ==> in(info.ID, l.state) && l.state[info.ID] == info
    assert others: l == d && othersources(l, info.ID)
  on send eventsource.Info(ch, v)
    assert channel: ch == d.discovered
    assert source: v == info
    set dfound = dfound + 1
  ensures refused: added == !old(in(info.ID, d.state))
  ensures announced: dfound == ite(added, 1, 0)

unit (*eventsource.Discovery).Forget(d, id)(known)
  props C19
  safety C19
  requires d != nil && d.discovered != d.forgotten
  begin dlost = 0
  on unlock eventsource.Discovery.lock(l)
    assert removed: !in(id, l.state)
    assert others: l == d && othersources(l, id)
  on send eventsource.Info(ch, v)
    assert channel: ch == d.forgotten
    assert source: old(in(id, d.state)) && v == old(d.state[id])
    set dlost = dlost + 1
  ensures known: known == old(in(id, d.state))
  ensures announced: dlost == ite(known, 1, 0)

// ---- receiving beacons ----
ghost bmsg: *amqp.Message
ghost bgot: bool
ghost bseen: bool
ghost bnew: bool
ghost bfail: bool
ghost bclock: int
ghost gwait: bool
ghost gsrc: eventsource.Info
ghost gkind: int
ghost gstop: bool
def describedby(s: eventsource.Info, m: *amqp.Message) = s.ID == appstr(m, "id") && s.Version == cast(app32(m, "v"), int) && s.Type == appstr(m, "sourceType") && s.Address == appstr(m, "address") && s.Direct == appstr(m, "direct")
def beacon(m: *amqp.Message) = subject(m, "BEACON")

unit (*eventsource.Discovery).Run(d, ctx, handlers)(err)
  props C19 C20
  safety C20
  requires d != nil && ctx != nil && d.container != nil
  requires d.discovered != nil && d.forgotten != nil && d.discovered != d.forgotten
  begin bgot = false
  begin bseen = false
  begin bnew = false
  begin bfail = false
  begin dfound = 0
  begin gwait = false
  begin gstop = false
  on session.Container.NewReceiver(k, addr, opts, r)
    define r != nil
    assert [C20] address: addr == d.beaconAddress
  on session.Receiver.Next(r, rctx, msg, e)
    define e == nil ==> msg != nil
    assert [C20] observed: bgot && beacon(bmsg) ==> bseen
    assert [C19] announced: dfound == ite(bnew, 1, 0)
    set bmsg = msg
    set bclock = clock()
    set bgot = e == nil
    set bfail = e != nil
    set bseen = false
    set bnew = false
    set dfound = 0
  on unlock eventsource.Discovery.lock(l)
    assert [C20] beacon: l == d && bgot && beacon(bmsg) && !bseen
    assert [C19] recorded: in(appstr(bmsg, "id"), l.state)
    assert [C19] details: let id = appstr(bmsg, "id") :: old(in(id, l.state)) ==> samesource(l.state[id], old(l.state[id]))
    assert [C19] fresh: let id = appstr(bmsg, "id") :: !old(in(id, l.state)) ==> describedby(l.state[id], bmsg)
    assert [C19,C20] refreshed: let seen = l.state[appstr(bmsg, "id")].LastSeen :: nanos(seen) >= bclock && nanos(seen) <= clock()
    assert [C19] others: let id = appstr(bmsg, "id") :: othersources(l, id)
    set bseen = true
    set bnew = (let id = appstr(bmsg, "id") :: !old(in(id, l.state)))
    set gsrc = l.state[appstr(bmsg, "id")]
  on send eventsource.Info(ch, v)
    assert [C19] channel: ch == d.discovered
    assert [C19] source: bseen && bnew && v == gsrc
    set dfound = dfound + 1
  on recv eventsource.Info(ch, v, ok)
    assert [C19] queue: ch == d.discovered || ch == d.forgotten
    assert [C19] handled: !gwait
    set gkind = ite(ch == d.discovered, 1, 2)
    set gsrc = v
    set gwait = ite(ch == d.discovered, handlers.Discovered != nil, handlers.Forgotten != nil)
  on callback(fn, arg)
    assert [C19] handler: gwait && fn == ite(gkind == 1, handlers.Discovered, handlers.Forgotten)
    assert [C19] source: arg == gsrc
    set gwait = false
  on recv struct{}(ch, v, ok)
    set gstop = true
  on goexit()
    assert [C20] stops: gstop && !gwait
  ensures [C20] stops: err != nil && bfail
  loop announced(): dfound == ite(bnew, 1, 0)
  loop observed(): bgot && beacon(bmsg) ==> bseen
  loop idle(): !gwait && !gstop

// ---- watching a source through its client (C20) ----
ghost wtimer: *time.Timer
ghost wtaken: int
ghost wseen: *time.Time
ghost wstart: bool
ghost wfired: bool
ghost wstopped: bool
ghost wtold: bool
ghost wreset: bool
ghost wgone: bool
// the client was active since the activity last taken into account
def newer() = wseen != nil && nanos(*wseen) > wtaken
def wsettled() = wstart || (newer() ==> wtold && (wtimer != nil ==> wreset))
def drains(ch: chan time.Time) = wstopped && wtimer != nil && ch == wtimer.C

unit (*eventsource.Discovery).NewWatchClient(d, ctx, cfg)(err)
  props C19 C20
  safety C20
  requires d != nil && ctx != nil && cfg.Client != nil
  requires d.discovered != d.forgotten
  begin wtimer = nil
  begin wtaken = -62135596800 * 1000000000
  begin wseen = nil
  begin wstart = true
  begin wfired = false
  begin wstopped = false
  begin wtold = false
  begin wreset = false
  begin wgone = false
  on unlock eventsource.Client.lock(l)
    run record: ite(len(l.recordHandlers) > len(old(l.recordHandlers)), l.recordHandlers[len(old(l.recordHandlers))], nil) gives is(lastatomic(), *time.Time) && nanos(*as(lastatomic(), *time.Time)) == clock()
    run heartbeat: ite(len(l.heartbeatHandlers) > len(old(l.heartbeatHandlers)), l.heartbeatHandlers[len(old(l.heartbeatHandlers))], nil) gives is(lastatomic(), *time.Time) && nanos(*as(lastatomic(), *time.Time)) == clock()
  on time.NewTimer(dur, t)
    assert [C20] grace: dur == cast(cfg.GracePeriod + cfg.Timeout, int64) && cfg.Timeout > 0
    set wtimer = t
  on (*time.Timer).Reset(t, dur, was)
    assert [C20] timeout: t == wtimer && dur == cfg.Timeout
    set wreset = true
  on (*time.Timer).Stop(t, was)
    set wstopped = !was
  on (*sync/atomic.Pointer[T]).Load(p, r)
    set wseen = r
  on recv time.Time(ch, v, ok)
    assert [C20] settled: drains(ch) || wsettled()
    set wtaken = ite(!drains(ch) && newer(), nanos(*wseen), wtaken)
    set wfired = ite(drains(ch), wfired, wtimer != nil && ch == wtimer.C)
    set wseen = ite(drains(ch), wseen, nil)
    set wtold = drains(ch) && wtold
    set wreset = drains(ch) && wreset
    set wstart = drains(ch) && wstart
    set wstopped = false
  on recv struct{}(ch, v, ok)
    set wgone = true
  on unlock eventsource.Discovery.lock(l)
    assert [C20] forgets: let id = cfg.ID :: old(in(id, l.state)) && !in(id, l.state) ==> wfired && !newer()
    assert [C19] others: let id = cfg.ID :: l == d && othersources(l, id)
    assert [C19] known: let id = cfg.ID :: in(id, l.state) ==> old(in(id, l.state)) && samesource(l.state[id], old(l.state[id]))
    assert [C19] forward: let id = cfg.ID :: in(id, l.state) && old(in(id, l.state)) ==> nanos(l.state[id].LastSeen) >= nanos(old(l.state[id].LastSeen))
    assert [C20] updated: newer() && in(cfg.ID, l.state) ==> nanos(l.state[cfg.ID].LastSeen) >= nanos(*wseen)
    set wtold = wtold || newer()
  on goexit()
    assert [C20] stops: wgone || wfired && !newer()
  loop settled(): wsettled()
  loop open(): !wgone && !wstopped
  loop taken(t: time.Time): nanos(t) == ite(newer(), nanos(*wseen), wtaken)
  loop timer(t: *time.Timer): t == wtimer
