// ---- C29: the mock router ----
lock session.MockRouter.mu (r)
  guards topics
  contents map[string]*session.multicast
  invariant [C29] topics: r.topics != nil && (forall a: string :: in(a, r.topics) ==> r.topics[a] != nil)

lock session.multicast.mu (m)
  guards receivers, update
  contents []*session.mockReceiver
  invariant [C29] update: m.update != nil && !closed(m.update)
  invariant [C29] receivers: forall i: int :: 0 <= i && i < len(m.receivers) ==> rcvok(m.receivers[i])

// a receiver's done channel is closed exactly when it was closed
def rcvok(r: *session.mockReceiver) = r != nil && r.channel != nil && r.done != nil
def rcvonce(r: *session.mockReceiver) = (r.closeOnce == 0) == !closed(r.done)
def sndonce(s: *session.mockSender) = (s.closeOnce == 0) == !closed(s.done)

unit session.NewMockRouter()(r)
  props C29
  ensures topics: r != nil && r.topics != nil && (forall a: string :: !in(a, r.topics))

unit session.NewMockContainer(router)(c)
  props C29
  ensures router: is(c, *session.mockContainer) && as(c, *session.mockContainer).Router == router

unit (session.mockFactory).Create(m)(c)
  props C29
  ensures router: is(c, *session.mockContainer) && as(c, *session.mockContainer).Router == m.Router

unit (*session.MockRouter).get(router, address)(t)
  use
  locks session.MockRouter.mu
  props C29
  requires router != nil
  ensures topic: t != nil && in(address, router.topics) && router.topics[address] == t
  ensures known: old(in(address, router.topics)) ==> t == old(router.topics[address])
  ensures others: forall a: string :: a != address ==> in(a, router.topics) == old(in(a, router.topics)) && router.topics[a] == old(router.topics[a])

// subscribing appends the receiver and wakes waiting senders
unit (*session.multicast).subscribe(m, r)()
  use
  locks session.multicast.mu
  props C29
  requires m != nil && rcvok(r)
  ensures added: len(m.receivers) == len(old(m.receivers)) + 1 && m.receivers[len(old(m.receivers))] == r
  ensures kept: forall i: int :: 0 <= i && i < len(old(m.receivers)) ==> m.receivers[i] == old(m.receivers[i])
  ensures woken: closed(old(m.update))
  ensures next: m.update != old(m.update)

ghost subs: int
ghost topic: *session.multicast
ghost topicaddr: string
unit (*session.mockContainer).NewReceiver(c, address, opts)(r)
  props C29
  requires c != nil && c.Router != nil && subs == 0
  on (*session.MockRouter).get(router, addr, t)
    assert router: router == c.Router && addr == address
    set topic = t
  on (*session.multicast).subscribe(m, rcv)
    assert topic: m == topic
    set subs = subs + 1
    set subscribed = rcv
  ensures once: subs == 1
  ensures receiver: is(r, *session.mockReceiver) && as(r, *session.mockReceiver) == subscribed
  ensures open: rcvok(subscribed) && rcvonce(subscribed) && !closed(subscribed.done)
ghost subscribed: *session.mockReceiver

unit (*session.mockContainer).NewSender(c, address, opts)(s)
  props C29
  requires c != nil
  ensures sender: is(s, *session.mockSender) && as(s, *session.mockSender).router == c.Router && as(s, *session.mockSender).address == address
  ensures open: as(s, *session.mockSender).done != nil && sndonce(as(s, *session.mockSender)) && !closed(as(s, *session.mockSender).done)

// one receiver gets the message once unless it is closed
ghost queued: int
unit (*session.mockReceiver).send(r, msg)()
  use
  props C29
  config blocking
  requires rcvok(r)
  modifies queued
  on send *amqp.Message(ch, v)
    assert message: ch == r.channel && v == msg
    set queued = queued + 1
  ensures once: queued == old(queued) + 1 || queued == old(queued) && closed(r.done)
  ensures closed: entry(closed(r.done)) ==> queued == old(queued)

// a message goes to every receiver of the topic once, in subscription order
ghost nsent: int
ghost ntotal: int
unit (*session.multicast).send(m, ctx, msg)(err)
  use
  props C29
  config blocking
  requires m != nil && ctx != nil
  modifies nsent, ntotal, queued
  on lock session.multicast.mu(l)
    set nsent = 0
    set ntotal = len(l.receivers)
  on (*session.mockReceiver).send(r, v)
    assert receiver: nsent < len(atlock(m.receivers)) && r == atlock(m.receivers)[nsent] && v == msg
    set nsent = nsent + 1
  loop count(i: int): nsent == i + 1
  loop count2(i: int): nsent == i
  loop sent(b: bool): b == (nsent > 0)
  loop wait(): forall i: int :: 0 <= i && i < len(atlock(m.receivers)) ==> rcvok(atlock(m.receivers)[i])
  ensures all: err == nil ==> nsent > 0 && nsent == ntotal
  ensures ctx: err != nil ==> ctxdone(ctx) && err == ctxerr(ctx)

unit (*session.mockReceiver).Next(r, ctx)(msg, err)
  props C29
  requires rcvok(r) && ctx != nil
  ensures closed: err == nil || closed(r.done) || ctxdone(ctx) && err == ctxerr(ctx)

unit (*session.mockReceiver).Close(r, ctx)(err)
  props C29
  requires rcvok(r) && rcvonce(r)
  ensures closed: err == nil && closed(r.done) && rcvonce(r)

unit (*session.mockSender).Close(s, ctx)(err)
  props C29
  requires s != nil && s.done != nil && sndonce(s)
  ensures closed: err == nil && closed(s.done) && sndonce(s)

ghost routed: int
unit (*session.mockSender).Send(s, ctx, msg)(err)
  props C29
  requires s != nil && s.done != nil && s.router != nil && ctx != nil && routed == 0
  on (*session.MockRouter).get(router, addr, t)
    assert address: router == s.router && addr == s.address
    set topic = t
  on (*session.multicast).send(m, sctx, v, e)
    assert topic: m == topic && sctx == ctx && v == msg
    set routed = routed + 1
  ensures closed: entry(closed(s.done)) ==> err != nil && routed == 0
  ensures once: err == nil ==> routed == 1
  ensures least: routed <= 1
