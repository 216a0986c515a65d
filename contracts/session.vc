// ---- locks ----
lock session.container.mu (c)
  guards sess, gen, hasNext, errorHandlers
  // sgen(s) is by definition the generation under which the container published session s
  definition sgen: c.sess != nil ==> c.gen == sgen(c.sess)
  invariant [C25] nosess: c.sess == nil ==> c.gen == 0
  invariant [C25] next: c.hasNext != nil && !closed(c.hasNext)
  invariant [C23] handlers: forall i: int :: 0 <= i && i < len(c.errorHandlers) ==> c.errorHandlers[i] != nil

lock session.link.mu (l)
  guards closed, currGen, curr, rcvGen, rcv, sndGen, snd
  invariant [C25] pair: l.curr != nil ==> l.currGen == sgen(l.curr)
  invariant [C25] rcvpair: l.rcv != nil ==> rcvgen(l.rcv) == l.rcvGen
  invariant [C25] sndpair: l.snd != nil ==> sndgen(l.snd) == l.sndGen
  invariant [C24] closeddrop: l.closed ==> l.curr == nil && l.rcv == nil && l.snd == nil
  // a closed link stays closed
  history [C24] closedstays: old(l.closed) ==> l.closed

fun sgen(*amqp.Session) int
// generation of the session a receiver or sender was opened on
fun rcvgen(*amqp.Receiver) int
fun sndgen(*amqp.Sender) int

trusted amqp.SASLTypeExternal(resp)(r)
  ensures some: r != nil

// a link opened on a session belongs to that session
trusted (*amqp.Session).NewReceiver(s, ctx, source, opts)(rcv, err)
  requires s != nil
  ensures ok: err == nil ==> rcv != nil && rcvgen(rcv) == sgen(s)
  ensures bad: err != nil ==> rcv == nil

trusted (*amqp.Session).NewSender(s, ctx, target, opts)(snd, err)
  requires s != nil
  ensures ok: err == nil ==> snd != nil && sndgen(snd) == sgen(s)
  ensures bad: err != nil ==> snd == nil

trusted (*amqp.Receiver).Receive(r, ctx, opts)(msg, err)
  requires r != nil
  ensures ok: err == nil ==> msg != nil

trusted (*amqp.Receiver).AcceptMessage(r, ctx, msg)(err)
  requires r != nil

trusted (*amqp.Receiver).Close(r, ctx)(err)
  requires r != nil

trusted (*amqp.Sender).Send(s, ctx, msg, opts)(err)
  requires s != nil

// ---- C26 ----
unit (session.ReceiverOptions).get(o)(r)
  props C26
  // a link credit is a 32-bit quantity in AMQP
  requires o.Credit <= 2147483647
  ensures pos: o.Credit > 0 ==> r.Credit == o.Credit
  ensures none: o.Credit <= 0 ==> r.Credit == 0

unit (session.ContainerConfig).toAmqp(cfg)(r)
  props C26
  ensures id: r != nil && r.ContainerID == cfg.ContainerID
  ensures frame: r.MaxFrameSize == cfg.MaxFrameSize
  ensures tls: r.TLSConfig == cfg.TLSConfig
  ensures sasl: (r.SASLType != nil) == (cfg.SASLType == "EXTERNAL")

// ---- C24, C25: links ----
def linkok(l: *session.link) = l != nil && l.container != nil && l.sessionErrors != l.reportOK

// waiting for the session that follows generation prev
unit (*session.container).awaitNextSession(c, ctx, prev)(session, gen, err)
  use
  props C25
  config blocking
  requires c != nil && ctx != nil
  ensures next: err == nil ==> gen != prev && (session != nil ==> gen == sgen(session))
  ensures live: err == nil && gen != 0 ==> session != nil
  ensures stop: err != nil ==> err == ctxerr(ctx) && ctxdone(ctx) && session == nil

// ghost monitor of the operations on a link
//   opgen, opfail: session generation of the last AMQP call and whether it failed
//                  for a reason that must be reported and was not yet
//   dropped:       at the last release of the link's lock no link of that session was attached
//   lastclosed:    the link was closed at the last release of its lock
//   okgen, okcall: the last AMQP call succeeded on that generation
ghost opgen: int
ghost opfail: bool
ghost operr: error
ghost opdone: bool
ghost reported: bool
ghost dropped: bool
ghost lastclosed: bool
ghost okcall: bool
ghost oktried: bool


unit (*session.link).awaitSession(r, ctx)(err)
  use
  props C24 C25
  config init session
  config blocking
  requires linkok(r) && ctx != nil
  modifies dropped, lastclosed, r.closed
  on unlock session.link.mu(l)
    set dropped = dropped || l.currGen != opgen || l.curr == nil && l.rcv == nil && l.snd == nil
    set lastclosed = l.closed
  ensures [C25] ctx: err != nil ==> err == session.errLinkClosed || err == ctxerr(ctx) && ctxdone(ctx)
  ensures [C24] closed: entry(r.closed) ==> err == session.errLinkClosed
  ensures [C24] seen: lastclosed ==> err == session.errLinkClosed
  ensures [C24] sawclosed: err == session.errLinkClosed ==> r.closed
  ensures [C24] kept: old(r.closed) ==> r.closed
  ensures [C25] droppedkept: old(dropped) ==> dropped

unit (*session.link).Next(r, ctx)(msg, err)
  use
  props C24 C25
  config init session
  config blocking
  modifies opgen, opfail, operr, opdone, reported, dropped, lastclosed, okcall
  requires linkok(r) && ctx != nil
  requires !opfail
  requires operr == nil
  requires reported ==> dropped
  on (*amqp.Session).NewReceiver(s, _, source, opts, rcv, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: source == r.address
    assert [C26] credit: opts != nil && opts.Credit == r.receiverOpts.Credit
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Session).NewSender(s, _, target, opts, snd, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: target == r.address
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Receiver).Receive(rcv, rctx, _, m, e)
    assert [C25] ctx: rctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on (*amqp.Receiver).AcceptMessage(rcv, _, m, e)
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = false
    set operr = nil
    set okcall = e == nil
  on (*amqp.Sender).Send(snd, sctx, m, _, e)
    assert [C25] ctx: sctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = sndgen(snd)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on unlock session.link.mu(l)
    set dropped = dropped || l.currGen != opgen || l.curr == nil && l.rcv == nil && l.snd == nil
    set lastclosed = l.closed
  on send session.sessionErr(ch, v)
    assert [C25] report-generation: ch == r.sessionErrors && opfail ==> v.Generation == opgen
    assert [C25] report-failure: ch == r.sessionErrors ==> operr != nil && !(opdone && iserr(operr, ctxerr(ctx))) || iserr(v.Err, session.errSessionLost)
    assert [C25] report-cause: ch == r.sessionErrors ==> v.Err != nil
    assert [C24] report-closed: ch == r.sessionErrors ==> !lastclosed
    set reported = ch == r.sessionErrors || reported
    set opfail = opfail && ch != r.sessionErrors
    set operr = nil
    set dropped = dropped && ch != r.sessionErrors
    set opgen = ite(ch == r.sessionErrors, v.Generation, opgen)
  on trysend int(ch, v)
    assert [C25] ok-generation: ch == r.reportOK ==> okcall && v == opgen
    set oktried = oktried || ch == r.reportOK
  loop settled(): !opfail && operr == nil && (reported ==> dropped || lastclosed)
  ensures [C25] reported: opfail ==> iserr(err, session.errLinkClosed)
  ensures [C25] dropped: reported ==> dropped
  ensures [C24] closed: entry(r.closed) ==> iserr(err, session.errLinkClosed)
  ensures [C25] retry: err != nil ==> ctxdone(ctx) || iserr(err, session.errLinkClosed)
  ensures [C25] message: err == nil ==> msg != nil

unit (*session.link).Accept(r, ctx, msg)(err)
  props C24 C25
  config init session
  requires !oktried && !okcall
  requires linkok(r) && ctx != nil
  requires !opfail
  requires operr == nil
  requires reported ==> dropped
  on (*amqp.Session).NewReceiver(s, _, source, opts, rcv, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: source == r.address
    assert [C26] credit: opts != nil && opts.Credit == r.receiverOpts.Credit
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Session).NewSender(s, _, target, opts, snd, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: target == r.address
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Receiver).Receive(rcv, rctx, _, m, e)
    assert [C25] ctx: rctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on (*amqp.Receiver).AcceptMessage(rcv, _, m, e)
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = false
    set operr = nil
    set okcall = e == nil
  on (*amqp.Sender).Send(snd, sctx, m, _, e)
    assert [C25] ctx: sctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = sndgen(snd)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on unlock session.link.mu(l)
    set dropped = dropped || l.currGen != opgen || l.curr == nil && l.rcv == nil && l.snd == nil
    set lastclosed = l.closed
  on send session.sessionErr(ch, v)
    assert [C25] report-generation: ch == r.sessionErrors && opfail ==> v.Generation == opgen
    assert [C25] report-failure: ch == r.sessionErrors ==> operr != nil && !(opdone && iserr(operr, ctxerr(ctx))) || iserr(v.Err, session.errSessionLost)
    assert [C25] report-cause: ch == r.sessionErrors ==> v.Err != nil
    assert [C24] report-closed: ch == r.sessionErrors ==> !lastclosed
    set reported = ch == r.sessionErrors || reported
    set opfail = opfail && ch != r.sessionErrors
    set operr = nil
    set dropped = dropped && ch != r.sessionErrors
    set opgen = ite(ch == r.sessionErrors, v.Generation, opgen)
  on trysend int(ch, v)
    assert [C25] ok-generation: ch == r.reportOK ==> okcall && v == opgen
    set oktried = oktried || ch == r.reportOK
  loop settled(): !opfail && operr == nil && (reported ==> dropped || lastclosed)
  ensures [C25] reported: opfail ==> iserr(err, session.errLinkClosed)
  ensures [C25] dropped: reported ==> dropped
  ensures [C24] closed: entry(r.closed) ==> iserr(err, session.errLinkClosed)
  ensures [C25] success: err == nil ==> okcall && oktried

unit (*session.link).Send(r, ctx, msg)(err)
  props C24 C25
  config init session
  requires !oktried && !okcall
  requires linkok(r) && ctx != nil
  requires !opfail
  requires operr == nil
  requires reported ==> dropped
  on (*amqp.Session).NewReceiver(s, _, source, opts, rcv, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: source == r.address
    assert [C26] credit: opts != nil && opts.Credit == r.receiverOpts.Credit
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Session).NewSender(s, _, target, opts, snd, e)
    assert [C24] notclosed: !entry(r.closed)
    assert [C26] address: target == r.address
    set opgen = sgen(s)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = false
  on (*amqp.Receiver).Receive(rcv, rctx, _, m, e)
    assert [C25] ctx: rctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on (*amqp.Receiver).AcceptMessage(rcv, _, m, e)
    assert [C24] notclosed: !entry(r.closed)
    set opgen = rcvgen(rcv)
    set opfail = false
    set operr = nil
    set okcall = e == nil
  on (*amqp.Sender).Send(snd, sctx, m, _, e)
    assert [C25] ctx: sctx == ctx
    assert [C24] notclosed: !entry(r.closed)
    set opgen = sndgen(snd)
    set opfail = e != nil && !iserr(e, ctxerr(ctx))
    set operr = e
    set opdone = ctxdone(ctx)
    set reported = false
    set okcall = e == nil
  on unlock session.link.mu(l)
    set dropped = dropped || l.currGen != opgen || l.curr == nil && l.rcv == nil && l.snd == nil
    set lastclosed = l.closed
  on send session.sessionErr(ch, v)
    assert [C25] report-generation: ch == r.sessionErrors && opfail ==> v.Generation == opgen
    assert [C25] report-failure: ch == r.sessionErrors ==> operr != nil && !(opdone && iserr(operr, ctxerr(ctx))) || iserr(v.Err, session.errSessionLost)
    assert [C25] report-cause: ch == r.sessionErrors ==> v.Err != nil
    assert [C24] report-closed: ch == r.sessionErrors ==> !lastclosed
    set reported = ch == r.sessionErrors || reported
    set opfail = opfail && ch != r.sessionErrors
    set operr = nil
    set dropped = dropped && ch != r.sessionErrors
    set opgen = ite(ch == r.sessionErrors, v.Generation, opgen)
  on trysend int(ch, v)
    assert [C25] ok-generation: ch == r.reportOK ==> okcall && v == opgen
    set oktried = oktried || ch == r.reportOK
  loop settled(): !opfail && operr == nil && (reported ==> dropped || lastclosed)
  ensures [C25] reported: opfail ==> iserr(err, session.errLinkClosed)
  ensures [C25] dropped: reported ==> dropped
  ensures [C24] closed: entry(r.closed) ==> iserr(err, session.errLinkClosed)
  ensures [C25] success: err == nil ==> okcall && oktried
  ensures [C25] failure: !okcall ==> err != nil

ghost rcvclosed: *amqp.Receiver
unit (*session.link).Close(r, ctx)(err)
  props C24
  config init session
  requires linkok(r) && rcvclosed == nil
  on (*amqp.Receiver).Close(rcv, _, e)
    set rcvclosed = rcv
  on unlock session.link.mu(l)
    assert [C24] closed: l.closed
  ensures [C24] receiver: old(r.rcv) != nil ==> rcvclosed == old(r.rcv)
