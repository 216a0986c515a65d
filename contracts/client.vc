// ---- the client (C21, C22) ----
lock eventsource.Client.lock (c)
  guards cleanup, heartbeatHandlers, recordHandlers, listeners
  contents func(); eventsource.HeartbeatMessageHandler; eventsource.RecordMessageHandler; chan struct{}
  invariant [C23] cleanups: forall i: int :: 0 <= i && i < len(c.cleanup) ==> c.cleanup[i] != nil
  invariant [C21] heartbeats: forall i: int :: 0 <= i && i < len(c.heartbeatHandlers) ==> c.heartbeatHandlers[i] != nil
  invariant [C21] records: forall i: int :: 0 <= i && i < len(c.recordHandlers) ==> c.recordHandlers[i] != nil

fnspec method eventsource.ListenerConfigProvider.Get event

// the i-th handler registered when snapshot n was taken
fun rechandler(int, int) int
fun hbhandler(int, int) int

ghost lgen: int
ghost lrecs: int
ghost lbeats: int
ghost lconf: eventsource.ListenerConfig
ghost lrcv: session.Receiver
ghost lctx: context.Context
ghost lmsg: *amqp.Message
ghost laccepted: bool
ghost ldecoded: bool
ghost lgot: any
ghost lcalls: int
def lkind() = ite(is(lgot, vanflow.RecordMessage), 1, ite(is(lgot, vanflow.HeartbeatMessage), 2, 0))
def ltotal() = ite(lkind() == 1, lrecs, ite(lkind() == 2, lbeats, 0))
def lsettled() = (laccepted ==> ldecoded && lcalls == ltotal()) && (!laccepted ==> lcalls == 0)

unit (*eventsource.Client).Listen(c, ctx, attributes)(err)
  props C21
  safety C21
  requires c != nil && ctx != nil && attributes != nil && c.container != nil
  begin lgen = 0
  begin laccepted = false
  begin ldecoded = false
  begin lgot = nil
  begin lcalls = 0
  on eventsource.ListenerConfigProvider.Get(p, info, cfg)
    assert config: p == attributes && info == c.eventSource
    set lconf = cfg
  on session.Container.NewReceiver(k, addr, opts, r)
    define r != nil
    assert address: k == c.container && addr == lconf.Address
    assert credit: opts.Credit == lconf.Credit
    set lrcv = r
  on session.Receiver.Next(r, rctx, msg, err)
    assert receiver: r == lrcv
    assert context: ctxparent(rctx) == ctx
    assert handled: lsettled()
    set lctx = rctx
    set lmsg = msg
    set laccepted = false
    set ldecoded = false
    set lgot = nil
    set lcalls = 0
  on session.Receiver.Accept(r, rctx, msg, err)
    assert message: r == lrcv && msg == lmsg
    set laccepted = err == nil
  on vanflow.Decode(msg, r, err)
    assert message: msg == lmsg
    set ldecoded = true
    set lgot = ite(err == nil, r, nil)
  on unlock eventsource.Client.lock(l)
    define l == c ==> (forall i: int {rechandler(lgen, i)} :: 0 <= i && i < len(l.recordHandlers) ==> rechandler(lgen, i) == fnid(l.recordHandlers[i]))
    define l == c ==> (forall i: int {hbhandler(lgen, i)} :: 0 <= i && i < len(l.heartbeatHandlers) ==> hbhandler(lgen, i) == fnid(l.heartbeatHandlers[i]))
    set lrecs = len(l.recordHandlers)
    set lbeats = len(l.heartbeatHandlers)
    set lgen = lgen + 1
  on callback(fn, arg)
    assert accepted: laccepted && ldecoded
    assert message: box(arg) == lgot
    assert handler: lcalls < ltotal() && fnid(fn) == ite(lkind() == 1, rechandler(lgen - 1, lcalls), hbhandler(lgen - 1, lcalls))
    set lcalls = lcalls + 1
  on goexit()
    assert stops: ctxdone(lctx)
    assert handled: lsettled()
  ensures none: err == nil
  loop settled(): lsettled()
  loop receiver(r: session.Receiver): r == lrcv
  loop open(d: chan struct{}): !closed(d)
  loop calls(i: int): laccepted && ldecoded && lcalls == i + 1

unit eventsource.NewClient(container, cfg)(c)
  props C21 C22
  safety C21
  ensures made: c != nil && c.container == container && c.eventSource == cfg.Source

unit (*eventsource.Client).OnRecord(c, handler)()
  props C21
  safety C21
  requires c != nil && handler != nil
  on unlock eventsource.Client.lock(l)
    assert added: l == c && len(l.recordHandlers) == len(old(l.recordHandlers)) + 1 && l.recordHandlers[len(old(l.recordHandlers))] == handler
    assert kept: forall i: int :: 0 <= i && i < len(old(l.recordHandlers)) ==> l.recordHandlers[i] == old(l.recordHandlers[i])
    assert others: l.heartbeatHandlers == old(l.heartbeatHandlers) && (forall i: int :: 0 <= i && i < len(l.heartbeatHandlers) ==> l.heartbeatHandlers[i] == old(l.heartbeatHandlers[i]))

unit (*eventsource.Client).OnHeartbeat(c, handler)()
  props C21
  safety C21
  requires c != nil && handler != nil
  on unlock eventsource.Client.lock(l)
    assert added: l == c && len(l.heartbeatHandlers) == len(old(l.heartbeatHandlers)) + 1 && l.heartbeatHandlers[len(old(l.heartbeatHandlers))] == handler
    assert kept: forall i: int :: 0 <= i && i < len(old(l.heartbeatHandlers)) ==> l.heartbeatHandlers[i] == old(l.heartbeatHandlers[i])
    assert others: l.recordHandlers == old(l.recordHandlers) && (forall i: int :: 0 <= i && i < len(l.recordHandlers) ==> l.recordHandlers[i] == old(l.recordHandlers[i]))

unit (*eventsource.Client).Close(c)()
  props C23
  safety C23
  requires c != nil
  ensures done: true

// ---- flushing on the first message (C22) ----
ghost fsent: int
ghost fsend: error
ghost fseen: bool
ghost frecs: int
ghost fbeats: int

unit (*eventsource.Client).SendFlush(c, ctx)(err)
  props C22
  safety C22
  config init vanflow
  requires c != nil && ctx != nil && c.container != nil
  begin fsent = 0
  on session.Container.NewSender(k, addr, opts, s)
    define s != nil && sendaddr(s) == addr
  on session.Sender.Send(s, sctx, msg, e)
    assert once: fsent == 0
    assert to: sendaddr(s) == c.eventSource.Direct
    assert flush: subject(msg, "FLUSH") && (forall d: vanflow.FlushMessage :: readsflush(msg, d) ==> d.MessageProps.To == c.eventSource.Direct)
    set fsent = fsent + 1
    set fsend = e
  ensures sent: fsent == 1
  ensures reported: (err == nil) == (fsend == nil)

unit eventsource.FlushOnFirstMessage(ctx, client)(err)
  props C22
  safety C22
  config init vanflow
  requires client != nil && ctx != nil && client.container != nil
  begin fsent = 0
  begin fseen = false
  begin frecs = 0
  begin fbeats = 0
  on session.Container.NewSender(k, addr, opts, s)
    define s != nil && sendaddr(s) == addr
  on unlock eventsource.Client.lock(l)
    run record: ite(len(l.recordHandlers) > len(old(l.recordHandlers)), l.recordHandlers[len(old(l.recordHandlers))], nil) gives exists ch: chan struct{} :: isfresh(ch) && closed(ch)
    run heartbeat: ite(len(l.heartbeatHandlers) > len(old(l.heartbeatHandlers)), l.heartbeatHandlers[len(old(l.heartbeatHandlers))], nil) gives exists ch: chan struct{} :: isfresh(ch) && closed(ch)
    set frecs = frecs + len(l.recordHandlers) - len(old(l.recordHandlers))
    set fbeats = fbeats + len(l.heartbeatHandlers) - len(old(l.heartbeatHandlers))
  on recv struct{}(ch, v, ok)
    // the channel is made here, so that only the registered handlers close it
    assert own: ch == donechan(ctx) || isfresh(ch)
    assert registered: frecs == 1 && fbeats == 1
    set fseen = fseen || ch != donechan(ctx)
  on close(ch)
    assert early: false
  on session.Sender.Send(s, sctx, msg, e)
    assert once: fsent == 0
    assert after: fseen
    assert to: sendaddr(s) == client.eventSource.Direct
    assert flush: subject(msg, "FLUSH") && (forall d: vanflow.FlushMessage :: readsflush(msg, d) ==> d.MessageProps.To == client.eventSource.Direct)
    set fsent = fsent + 1
    set fsend = e
  ensures sent: fseen ==> fsent == 1
  ensures reported: fsent == 1 ==> (err == nil) == (fsend == nil)
  ensures ended: !fseen ==> fsent == 0 && ctxdone(ctx) && err == ctxerr(ctx)
