From 53ff8d0e8023be85b11563096545ce5acafaa46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 01/21] fix: open receivers with the configured credit

ReceiverOptions.get inverted the condition, so a positive credit was ignored
and a negative one was passed to the AMQP layer (manual credit mode).
---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 52a6fcbe3c4601c5d83c6df550c123d8330001e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 02/21] fix: keep a closed link closed and failing promptly

Next recursed without end on a closed link, an operation racing Close could
re-attach the link to a session or dereference the dropped session, and the
failure of an operation interrupted by Close was reported to the container,
tearing down its session.
---
 session/container.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/session/container.go b/session/container.go
index 154bb0b..df4d49a 100644
--- a/session/container.go
+++ b/session/container.go
@@ -305,8 +305,11 @@ func (r *link) awaitSession(ctx context.Context) error {
 		return err
 	}
 	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.closed {
+		return errLinkClosed
+	}
 	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
 	return nil
 }
 
@@ -342,8 +345,11 @@ func (r *link) handleError(ctx context.Context, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
-	if errors.Is(err, errLinkClosed) {
-		return err
+	r.mu.Lock()
+	closed := r.closed
+	r.mu.Unlock()
+	if closed {
+		return errLinkClosed
 	}
 	r.sessionErrors <- sessionErr{
 		Generation: r.currGen,
@@ -358,6 +364,9 @@ func (r *link) handleError(ctx context.Context, err error) error {
 func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.closed {
+		return nil, 0, errLinkClosed
+	}
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
@@ -372,6 +381,9 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.closed {
+		return nil, 0, errLinkClosed
+	}
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
@@ -395,7 +407,7 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 		result = msg
 		return nil
 	})
-	if err != nil && ctx.Err() == nil {
+	if err != nil && ctx.Err() == nil && !errors.Is(err, errLinkClosed) {
 		return r.Next(ctx)
 	}
 	return result, err
-- 
2.43.0


From f846280ea959608cb5499e09e27913f7b0779ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 03/21] fix: report link failures for the session they happened
 on

handleError read the current generation without the lock, so a failure on an
old session could be reported for (and tear down) the session that replaced
it, and a session dropped by a concurrent operation was dereferenced as nil.
---
 session/container.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/session/container.go b/session/container.go
index df4d49a..5b02b96 100644
--- a/session/container.go
+++ b/session/container.go
@@ -288,7 +288,10 @@ type link struct {
 	snd     *amqp.Sender
 }
 
-var errLinkClosed = errors.New("link closed")
+var (
+	errLinkClosed  = errors.New("link closed")
+	errSessionLost = errors.New("session lost")
+)
 
 func (r *link) awaitSession(ctx context.Context) error {
 	r.mu.Lock()
@@ -315,33 +318,33 @@ func (r *link) awaitSession(ctx context.Context) error {
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return r.handleError(ctx, 0, fmt.Errorf("session await error: %w", err))
 	}
 	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
 	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return r.handleError(ctx, 0, fmt.Errorf("session await error: %w", err))
 	}
 	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
 	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
+func (r *link) handleError(ctx context.Context, generation int, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
@@ -352,12 +355,14 @@ func (r *link) handleError(ctx context.Context, err error) error {
 		return errLinkClosed
 	}
 	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
+		Generation: generation,
 		Err:        err,
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	if r.currGen == generation {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
 	return err
 }
 
@@ -370,9 +375,12 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
+	if r.curr == nil {
+		return nil, r.currGen, errSessionLost
+	}
 	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.rcv, r.rcvGen = rcv, r.currGen
 	return r.rcv, r.rcvGen, nil
@@ -387,9 +395,12 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
+	if r.curr == nil {
+		return nil, r.currGen, errSessionLost
+	}
 	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.snd, r.sndGen = snd, r.currGen
 	return r.snd, r.sndGen, nil
-- 
2.43.0


From a0d6c7ebeaa01b65ed77bea71eff6e59cd4d08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 04/21] fix: call session error handlers without holding the
 container lock

A handler that used the container (NewReceiver, OnSessionError) deadlocked.
---
 session/container.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/session/container.go b/session/container.go
index 5b02b96..36384bd 100644
--- a/session/container.go
+++ b/session/container.go
@@ -208,12 +208,7 @@ func (c *container) Start(ctx context.Context) {
 			},
 			b,
 			func(err error, d time.Duration) {
-				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.notifyError(errSessionRestart{Err: err, D: d})
 			},
 		)
 		defer prevSessionTeardown()
@@ -221,16 +216,21 @@ func (c *container) Start(ctx context.Context) {
 			if errors.Is(err, ctx.Err()) {
 				return
 			}
-			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.notifyError(fmt.Errorf("error caused contianer to close: %w", err))
 		}
 	}()
 }
 
+// notifyError calls the error handlers without holding the container's lock
+func (c *container) notifyError(err error) {
+	c.mu.Lock()
+	handlers := append([]func(error){}, c.errorHandlers...)
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
+}
+
 type errSessionRestart struct {
 	Err error
 	D   time.Duration
-- 
2.43.0


From 4eaa4b402cf82f0ce718c5d7212cc87864d6e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 05/21] fix: deliver mock messages without holding the topic
 lock

---
 session/mock.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..5a3e9ad 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -91,13 +91,13 @@ func newMulticast() *multicast {
 
 func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
 	m.mu.Lock()
-	update := m.update
+	receivers, update := m.receivers, m.update
+	m.mu.Unlock()
 	var sent bool
-	for _, r := range m.receivers {
+	for _, r := range receivers {
 		sent = true
 		r.send(msg)
 	}
-	m.mu.Unlock()
 	if !sent {
 		select {
 		case <-ctx.Done():
@@ -128,9 +128,13 @@ func (r *mockReceiver) send(msg *amqp.Message) {
 	case <-r.done:
 		return
 	default:
-		r.channel <- msg
+	}
+	select {
+	case <-r.done:
+	case r.channel <- msg:
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 0b9fb12555d8c75d7c0d968b16a54f4a7b174837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 06/21] fix: make the descending entry order a strict ordering

---
 store/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..f9fb7bb 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -114,7 +114,7 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		kj, _ := c.keyFunc(result.Entries[j])
 		delta := strings.Compare(ki, kj)
 		if sel.Ordering == Descending {
-			return delta >= 0
+			return delta > 0
 		}
 		return delta < 0
 	})
-- 
2.43.0


From 450c0d0a59d97e378dffd4bed7f6e833516fdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 07/21] fix: tolerate negative selector offsets

---
 store/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index f9fb7bb..487da1c 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -127,6 +127,9 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		}
 	}
 
+	if offset < 0 {
+		offset = 0
+	}
 	if offset >= len(result.Entries) {
 		result.Entries = result.Entries[0:0] // empty resultset
 	} else {
-- 
2.43.0


From 5c4034e5159aed23813f249c68ce792cdf687cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 08/21] fix: compute the accumulation key from the entry that
 is stored

---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index 487da1c..022d623 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Record:   partial,
+		Meta:     Metadata{Source: source},
+		TypeMeta: partial.GetTypeMeta(),
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From 782c53da93e6621382ffb14fd8fbd51e3f2e16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 09/21] fix: do not report a failed accumulation as an added
 entry

---
 store/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index 022d623..f4a0db9 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -88,13 +88,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
-- 
2.43.0


From 18637d8e73a6c25c9bdf829b7022cbe08bf0c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 10/21] fix: return an error when a merged record cannot be
 decoded

---
 store/patcher.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..1c1cb43 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -47,8 +47,15 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	if !changed {
 		return next, errNoChange
 	}
-	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record has unexpected type %T", rawOut)
+	}
+	entry.Meta.UpdatedAt = time.Now()
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From 970a938875455a2847525e18797b3afafa1ff1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 11/21] fix: never reuse an entry version after delete or
 replace

---
 store/internal/cache.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..a62bece 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,8 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version of the latest write, so that no entry ever repeats a version
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -57,7 +59,8 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +84,8 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +116,8 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		m.version++
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.version}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From 6980289fb8363df1b335dc6ac041b690dd110457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 12/21] fix: do not treat a failed receive as a flush request

listenFlushes went on after a receive error: it accepted a nil message and
queued a flush nobody asked for.
---
 eventsource/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..25dac65 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -316,6 +316,7 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From d179133fbda686d6026442c31c30b6f8a31cc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 13/21] fix: send beacons and heartbeats under their timeout

sendWithTimeout created a context with the timeout but sent with the parent
context, so a blocked send never timed out.
---
 eventsource/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 25dac65..222ec59 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -331,7 +331,7 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
+	err := sender.Send(requestCtx, msg)
 	if err != nil {
 		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
 			return errSendTimeoutExceeded
-- 
2.43.0


From 3b94d0b17c2af9174fb13dc4950afd951536d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 14/21] fix: stop retrying the initial beacon when the manager
 is stopped

With the context cancelled every send fails at once, so the loop never ended.
---
 eventsource/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 222ec59..879126f 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -262,6 +262,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	for {
 		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
 			slog.Error("error sending initial beacon message", slog.Any("error", err))
+			if ctx.Err() != nil {
+				return
+			}
 			continue
 		}
 		break
-- 
2.43.0


From 4d12d38d7165268d5f1158bb5baa74b030199171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:04 +0000
Subject: [PATCH 15/21] fix: closing a client waits for its listeners without
 holding the lock

Close held the client's lock while waiting for its listeners, which take that
lock for every message, and panicked when called a second time.
---
 eventsource/client.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..6f61b99 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -29,8 +29,7 @@ type Client struct {
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
-
-	wg sync.WaitGroup
+	listeners         []chan struct{}
 }
 
 type ClientOptions struct {
@@ -85,15 +84,16 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 // listener configuration until the context is cancelled or client.Close() is
 // called.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
 	listenerCtx, listenerCancel := context.WithCancel(ctx)
+	done := make(chan struct{})
 
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	c.cleanup = append(c.cleanup, listenerCancel)
+	c.listeners = append(c.listeners, done)
 
 	go func(ctx context.Context) {
-		defer c.wg.Done()
+		defer close(done)
 		cfg := attributes.Get(c.eventSource)
 		receiver := c.container.NewReceiver(cfg.Address, session.ReceiverOptions{
 			Credit: cfg.Credit,
@@ -139,11 +139,16 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 // Close stops all listeners
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	cleanup, listeners := c.cleanup, c.listeners
+	c.cleanup = nil
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
-	c.wg.Wait()
+	// wait without the lock: listeners need it to get their handlers
+	for _, done := range listeners {
+		<-done
+	}
 }
 
 // SendFlush sends a FlushMessage to the Event Source
-- 
2.43.0


From 670e46df23a0d24de6074d364b2527ad9c738daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 16/21] fix: discovery skips messages without properties or
 subject

---
 eventsource/discovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..a06f034 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,6 +61,10 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
+		if msg.Properties == nil || msg.Properties.Subject == nil {
+			slog.Info("received message without a subject from beacon source")
+			continue
+		}
 		if *msg.Properties.Subject != "BEACON" {
 			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
 			continue
-- 
2.43.0


From 76b14c0d80f9401f29cf51918f3c6fba55e816a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 17/21] fix: discovery announces sources without holding its
 lock

A full announcement queue blocked Add, Forget and observe while they held the
lock, so that a handler calling any method of the discovery never returned.
---
 eventsource/discovery.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a06f034..bd0b843 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -104,11 +104,12 @@ func (d *Discovery) Get(id string) (source Info, ok bool) {
 // Add an EventSource
 func (d *Discovery) Add(info Info) bool {
 	d.lock.Lock()
-	defer d.lock.Unlock()
 	if _, exists := d.state[info.ID]; exists {
+		d.lock.Unlock()
 		return false
 	}
 	d.state[info.ID] = info
+	d.lock.Unlock()
 	d.discovered <- info
 	return true
 }
@@ -120,9 +121,9 @@ func (d *Discovery) Forget(id string) bool {
 		forget bool
 	)
 	d.lock.Lock()
-	defer d.lock.Unlock()
 	state, forget = d.state[id]
 	delete(d.state, id)
+	d.lock.Unlock()
 	if forget {
 		d.forgotten <- state
 	}
@@ -267,7 +268,6 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 		discovered bool
 	)
 	d.lock.Lock()
-	defer d.lock.Unlock()
 	tObserved := time.Now()
 	state, ok := d.state[beacon.Identity]
 	if !ok {
@@ -283,6 +283,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	}
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
+	d.lock.Unlock()
 	if discovered {
 		d.discovered <- state
 	}
-- 
2.43.0


From 70f1dd08e6701d274b2cb0ad662479d3789cc406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 18/21] fix: encoding a nil record pointer is an error, not a
 panic

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..3c9a17d 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, fmt.Errorf("encode error: cannot encode nil record of type %T", record)
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From a0aa1474da4390caafce61eb477802533d87446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 19/21] fix: decoding a null attribute is an error, not a panic

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..b58ae09 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign null to type %s", v.Type())
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From a9e0be24edb954e54715300e1e044501fc2e1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:51 +0000
Subject: [PATCH 20/21] fix: fixture server ignores flows whose counterflow
 record is missing

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..b469c59 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -236,6 +236,10 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		}
 
 		for _, pair := range flowPairs {
+			if pair.Client.Record == nil {
+				slog.Warn("ignoring flow without counterflow record", slog.String("flow", pair.Server.Record.Identity()))
+				continue
+			}
 			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
-- 
2.43.0


From 51095255969aec452d69ab9df1ff47a5f78b184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 21/21] fix: fixture server refuses to replay a negative number
 of flows

---
 cmd/vanflow-tool/fixture.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index b469c59..99b8fd3 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -224,7 +224,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			Duration int `json:"duration"`
 		}
 		defer r.Body.Close()
-		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
+		err := json.NewDecoder(r.Body).Decode(&request)
+		if err == nil && request.Flows < 0 {
+			err = fmt.Errorf("flows must not be negative")
+		}
+		if err != nil {
 			rw.WriteHeader(http.StatusBadRequest)
 			fmt.Fprintf(rw, "Bad request: %s\n", err)
 			fmt.Fprintln(rw, "")
-- 
2.43.0

