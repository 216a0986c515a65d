// ---- container: options (C26), sessions (C25), locking (C23) ----
fnspec ext github.com/Azure/go-amqp.Dial blocking
fnspec method backoff.BackOffContext.Reset quiet
trusted amqp.Dial(ctx, addr, opts)(conn, err)
  ensures ok: err == nil ==> conn != nil

trusted (*amqp.Conn).NewSession(c, ctx, opts)(sess, err)
  requires c != nil
  ensures ok: err == nil ==> sess != nil

trusted (*amqp.Session).Close(s, ctx)(err)
  requires s != nil

trusted (*amqp.Conn).Close(c)(err)
  requires c != nil

def conok(c: *session.container) = c != nil && c.sessionErrors != nil && c.notifyOK != nil

unit session.NewContainer(address, config)(r)
  props C26 C25
  ensures kind: is(r, *session.container)
  ensures address: as(r, *session.container).address == address
  ensures config: as(r, *session.container).config == config
  ensures chans: conok(as(r, *session.container))
  ensures waiting: as(r, *session.container).hasNext != nil && !closed(as(r, *session.container).hasNext)
  ensures fresh: as(r, *session.container).sess == nil && as(r, *session.container).gen == 0

unit (session.factory).Create(f)(r)
  props C26
  ensures kind: is(r, *session.container)
  ensures address: as(r, *session.container).address == f.Address
  ensures config: as(r, *session.container).config == f.Config

unit session.NewContainerFactory(address, cfg)(r)
  use
  props C26
  ensures kept: is(r, session.factory) && as(r, session.factory).Address == address && as(r, session.factory).Config == cfg

unit (*session.container).NewReceiver(c, address, opts)(r)
  props C26 C25
  requires conok(c) && opts.Credit <= 2147483647
  ensures kind: is(r, *session.link)
  ensures [C26] address: as(r, *session.link).address == address
  ensures [C26] credit: opts.Credit > 0 ==> as(r, *session.link).receiverOpts.Credit == opts.Credit
  ensures [C26] nocredit: opts.Credit <= 0 ==> as(r, *session.link).receiverOpts.Credit == 0
  ensures [C25] wired: as(r, *session.link).container == c && as(r, *session.link).sessionErrors == c.sessionErrors && as(r, *session.link).reportOK == c.notifyOK
  ensures [C25] session: as(r, *session.link).curr == old(c.sess) && as(r, *session.link).currGen == old(c.gen)
  ensures [C25] none: as(r, *session.link).rcv == nil && as(r, *session.link).snd == nil
  ensures [C24] open: !as(r, *session.link).closed

unit (*session.container).NewSender(c, address, opts)(r)
  props C26 C25
  requires conok(c)
  ensures kind: is(r, *session.link)
  ensures [C26] address: as(r, *session.link).address == address
  ensures [C25] wired: as(r, *session.link).container == c && as(r, *session.link).sessionErrors == c.sessionErrors && as(r, *session.link).reportOK == c.notifyOK
  ensures [C25] session: as(r, *session.link).curr == old(c.sess) && as(r, *session.link).currGen == old(c.gen)
  ensures [C25] none: as(r, *session.link).rcv == nil && as(r, *session.link).snd == nil
  ensures [C24] open: !as(r, *session.link).closed

unit (*session.container).OnSessionError(c, handler)()
  props C23
  requires c != nil && handler != nil
  on unlock session.container.mu(l)
    assert kept: len(l.errorHandlers) == len(old(l.errorHandlers)) + 1
    assert added: l.errorHandlers[len(old(l.errorHandlers))] == handler
    assert rest: forall i: int :: 0 <= i && i < len(old(l.errorHandlers)) ==> l.errorHandlers[i] == old(l.errorHandlers[i])

// the running container: at most one live session is published at a time
ghost live: bool
ghost pubgen: int
ghost dialed: *amqp.Conn
ghost okgen: int
unit (*session.container).Start(c, ctx)()
  props C25 C26
  requires conok(c) && ctx != nil && !live && pubgen == 0
  on amqp.Dial(dctx, addr, opts, conn, err)
    assert [C25] relive: !live || ctxdone(ctx)
    assert [C25] ctx: dctx == ctx
    assert [C26] address: addr == c.address
    assert [C26] id: opts != nil && opts.ContainerID == c.config.ContainerID
    assert [C26] frame: opts.MaxFrameSize == c.config.MaxFrameSize
    assert [C26] tls: opts.TLSConfig == c.config.TLSConfig
    assert [C26] sasl: (opts.SASLType != nil) == (c.config.SASLType == "EXTERNAL")
    set dialed = conn
  on (*amqp.Conn).NewSession(conn, _, _, sess, err)
    assert [C25] conn: conn == dialed
  on unlock session.container.mu(l)
    assert [C25] newer: l.hasNext != old(l.hasNext) ==> (l.gen > pubgen || pubgen == 9223372036854775807) && l.sess != nil && closed(old(l.hasNext))
    assert [C25] keep: l.hasNext == old(l.hasNext) ==> l.sess == old(l.sess) && l.gen == old(l.gen)
    set live = live || l.hasNext != old(l.hasNext)
    set pubgen = ite(l.hasNext != old(l.hasNext), l.gen, pubgen)
  on recv session.sessionErr(ch, v, ok)
    assert [C25] waiting: live
    set live = live && v.Generation != pubgen
  on recv int(ch, v, ok)
    set okgen = v
  on github.com/cenkalti/backoff/v4.BackOffContext.Reset(b)
    assert [C25] resetgen: okgen == pubgen && live
  loop relive(): !live || ctxdone(ctx)
  loop live(): live
  loop gen(g: int): g == pubgen
  loop fn(f: func()): f != nil
