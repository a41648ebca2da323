From b0ec0acd5f753339ce8643cd670d1c8985877b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 01/41] fix: WriteJSON truncates the file it overwrites

---
 utils/file/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file/file.go b/utils/file/file.go
index 022f103..b216e67 100644
--- a/utils/file/file.go
+++ b/utils/file/file.go
@@ -74,7 +74,7 @@ func SaveFile(dat []byte, fileName string) error {
 
 // WriteJSON 保存json文件
 func WriteJSON(path string, jsonByte []byte) {
-	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0755)
+	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	if err != nil {
 		log.Fatal(err)
 		return
-- 
2.43.0


From 1d491e34ed5f4340e3dfa3dd07465d2ed6597901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 02/41] fix: custom fields of type int8 and uint8 read back as
 zero

---
 router/msg/msg_custom_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..f5ccb99 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -115,6 +115,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
@@ -191,6 +199,14 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
-- 
2.43.0


From 3eb7250b19bc2967a7d42ba470f87912b9e66507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 03/41] fix: WithReqHeader drops the timestamp

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..54da592 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -93,6 +93,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.PrevActorType = h.PrevActorType
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 		b.wrapper.Req.Header.Custom = h.Custom
 	} else {
 		// If either header is nil, directly set the header
-- 
2.43.0


From 1f586fd4631c19aa1cdde63fcc6370cb175028a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 04/41] fix: NewBuilder ignores the options it is given

---
 router/msg/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index 54da592..f8397b2 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -51,6 +51,9 @@ func NewBuilder(ctx context.Context, opts ...WrapperOption) *MsgBuilder {
 		CustomMapSerialize: &CustomJsonSerialize{},
 		CustomObjSerialize: &CustomObjectSerialize{},
 	}
+	for _, opt := range opts {
+		opt(&parm)
+	}
 
 	if wc, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
 		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
-- 
2.43.0


From c1d34ba03239817afbf8a4f5c7aa2c072625771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/41] fix: stopping a timer before its first tick crashes,
 and a stopped timer still fires

The ticker only existed after the due time, so Stop, Reset, CancelTimer and
Exit hit a nil ticker before that, and the first tick came whatever had
happened to the timer. A tick waiting in the actor's channel was executed
although its timer had been cancelled, and resetting a stopped timer to the
interval it had left it stopped while reporting success.
---
 core/actor/actor_runtime_impl.go | 21 ++++++++--------
 core/actor/actor_timer.go        | 41 ++++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..264e63f 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -103,19 +103,19 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 
 	go func() {
 		//defer a.timerWg.Done()
-
-		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
-		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
-		}
-
-		info.ticker = time.NewTicker(info.interval)
+		defer info.ticker.Stop()
 
 		for {
 			select {
 			case <-info.ticker.C:
-				a.timerChan <- info
+				if !info.tick() {
+					continue
+				}
+				select {
+				case a.timerChan <- info:
+				case <-a.shutdownCh:
+					return
+				}
 			case <-a.shutdownCh:
 				return
 			}
@@ -303,7 +303,8 @@ func (a *Runtime) update() {
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			// the timer may have been cancelled while its tick was waiting
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
 			func() {
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..f37aaf9 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -16,9 +17,31 @@ type TimerInfo struct {
 	args     interface{}
 	active   atomic.Bool  // 使用原子操作保证线程安全
 	nextTick atomic.Value // 下次触发时间
+	mutex    sync.Mutex   // guards ticker and interval
+	delayed  bool         // the first tick (dueTime) is still to come
+}
+
+// tick accounts for a tick of the ticker and reports whether the callback is due
+func (t *TimerInfo) tick() bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	if !t.active.Load() {
+		return false
+	}
+
+	if t.delayed {
+		t.delayed = false
+		t.ticker.Reset(t.interval)
+	}
+	t.nextTick.Store(time.Now().Add(t.interval))
+	return true
 }
 
 func (t *TimerInfo) Stop() bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if !t.active.Load() {
 		return false
 	}
@@ -29,9 +52,12 @@ func (t *TimerInfo) Stop() bool {
 }
 
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
-		if t.interval == interval {
+		if t.interval == interval && t.active.Load() {
 			return true
 		}
 		t.interval = interval
@@ -41,6 +67,7 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	}
 
 	t.active.Store(true)
+	t.delayed = false
 	t.nextTick.Store(time.Now().Add(t.interval))
 
 	t.ticker.Reset(t.interval)
@@ -52,6 +79,8 @@ func (t *TimerInfo) IsActive() bool {
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
 	return t.interval
 }
 
@@ -76,11 +105,13 @@ func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) er
 	}
 	t.active.Store(true)
 
-	if dueTime != 0 {
-		t.nextTick.Store(time.Now().Add(dueTime))
-	} else {
-		t.nextTick.Store(time.Now().Add(interval))
+	first := interval
+	if dueTime > 0 {
+		first = dueTime
+		t.delayed = true
 	}
+	t.nextTick.Store(time.Now().Add(first))
+	t.ticker = time.NewTicker(first)
 
 	return t
 }
-- 
2.43.0


From dd0909059ce0906455db8b885855f8f12c8b351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 06/41] fix: a timer without interval crashes the process
 instead of firing once

---
 core/actor/actor_timer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index f37aaf9..05a0f2d 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -30,6 +30,12 @@ func (t *TimerInfo) tick() bool {
 		return false
 	}
 
+	if t.interval <= 0 {
+		t.ticker.Stop() // only once
+		t.nextTick.Store(time.Time{})
+		return true
+	}
+
 	if t.delayed {
 		t.delayed = false
 		t.ticker.Reset(t.interval)
@@ -92,6 +98,9 @@ func (t *TimerInfo) NextTrigger() time.Time {
 }
 
 func (t *TimerInfo) Execute() error {
+	if t.Interval() <= 0 {
+		t.active.Store(false) // only once
+	}
 	return t.callback(t.args)
 }
 
@@ -111,6 +120,9 @@ func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) er
 		t.delayed = true
 	}
 	t.nextTick.Store(time.Now().Add(first))
+	if first <= 0 {
+		first = 1 // at once
+	}
 	t.ticker = time.NewTicker(first)
 
 	return t
-- 
2.43.0


From 76435abf29302b51c7cbb4189d5fa325b6f9de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 07/41] fix: actor exit returns while its last callback is
 still running

A message that had been taken from the queue was not waited for, so Exit
returned, and callbacks touched the actor, while its handler was running. An
actor busy in a handler also went on accepting messages after Exit had begun,
the update loop spun on the closed shutdown channel while draining, and a
second or concurrent Exit panicked closing that channel again.
---
 core/actor/actor_runtime_impl.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 264e63f..9631f54 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -31,6 +31,7 @@ type Runtime struct {
 	closed       int32
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
+	exitedCh     chan struct{} // closed when the update loop has returned
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
@@ -55,6 +56,7 @@ func (a *Runtime) Init(ctx context.Context) {
 	atomic.StoreInt32(&a.closed, 0) // 初始化closed状态为0（未关闭）
 	a.closeCh = make(chan struct{})
 	a.shutdownCh = make(chan struct{})
+	a.exitedCh = make(chan struct{})
 	a.chains = make(map[string]core.IChain)
 	a.recovery = defaultRecovery
 	a.actorCtx = &actorContext{
@@ -278,6 +280,8 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 }
 
 func (a *Runtime) update() {
+	defer close(a.exitedCh)
+
 	checkClose := func() {
 		timeout := time.After(10 * time.Second)
 		ticker := time.NewTicker(10 * time.Millisecond)
@@ -300,7 +304,13 @@ func (a *Runtime) update() {
 		}
 	}
 
-	for {
+	go func() {
+		<-a.shutdownCh
+		log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
+		checkClose()
+	}()
+
+	for atomic.LoadInt32(&a.closed) != 2 {
 		select {
 		case timerInfo := <-a.timerChan:
 			// the timer may have been cancelled while its tick was waiting
@@ -352,11 +362,6 @@ func (a *Runtime) update() {
 				reenterMsg.action(reenterMsg.msg.(*msg.Wrapper))
 			}
 
-		case <-a.shutdownCh:
-			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
-				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
-				go checkClose()
-			}
 		case <-a.closeCh:
 			log.DebugF("[braid.actor] %s exiting closed", a.Id)
 			return
@@ -366,8 +371,12 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
+	if !atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
+		<-a.exitedCh // already exiting
+		return
+	}
 	close(a.shutdownCh) // 发送关闭信号
-	<-a.closeCh         // 等待所有消息处理完毕
+	<-a.exitedCh        // 等待所有消息处理完毕
 
 	for t := range a.timers {
 		a.CancelTimer(t)
-- 
2.43.0


From 6c0e29ba6ae23d3d27c60c4f51e9dfee3c752549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 08/41] fix: a continuation attached to a completed future
 returns a future that never completes

---
 core/actor/actor_reenter_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..51a2435 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -25,12 +25,16 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
+	newFuture := NewFuture()
+
 	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
+		go func() {
+			callback(f.result)
+			newFuture.Complete(f.result)
+		}()
+		return newFuture
 	}
 
-	newFuture := NewFuture()
 	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
-- 
2.43.0


From 253954bafc9e66bf4bf76b4b3de549706585d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 09/41] fix: WithOpt writes into the template shared by all
 builders of a type, and panics without one

---
 core/actor/actor_build_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..ec7bfd1 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,6 +31,11 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
+	options := make(map[string]string, len(p.Options)+1) // the map is shared with the constructor's template
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	p.Options = options
 	p.Options[key] = value
 	p.optionsMutex.Unlock()
 	return p
-- 
2.43.0


From 571db3638bc0c6f578a6dfea0ee7d95f50edd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 10/41] fix: publishing to a topic the node has not subscribed
 crashes

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..e40fe25 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -445,7 +445,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From 73f1e4c49bbbbfc1ec8b7c453f99fe6bcd559e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 11/41] fix: a subscription delivers before the chain of its
 channel is in place

---
 core/actor/actor_runtime_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 9631f54..282a387 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -151,10 +151,10 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
-	ch.Arrived(a.q)
-
 	a.OnEvent(channel, callback)
 
+	ch.Arrived(a.q)
+
 	return nil
 }
 
-- 
2.43.0


From cd705c19f63049b33a49ddfe4bc7ccef73e19c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 12/41] fix: registering events while a subscription already
 delivers crashes the process

---
 core/actor/actor_runtime_impl.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 282a387..5fc1845 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -33,6 +34,7 @@ type Runtime struct {
 	shutdownCh   chan struct{}
 	exitedCh     chan struct{} // closed when the update loop has returned
 	chains       map[string]core.IChain
+	chainsMu     sync.RWMutex // subscriptions deliver while Init still registers events
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
@@ -81,10 +83,17 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
-	if _, exists := a.chains[ev]; exists {
+	a.chainsMu.RLock()
+	_, exists := a.chains[ev]
+	a.chainsMu.RUnlock()
+	if exists {
 		return fmt.Errorf("actor: repeat register event %v", ev)
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	chain := chainFunc(a.actorCtx)
+
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
+	a.chains[ev] = chain
 	return nil
 }
 
@@ -346,7 +355,11 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				a.chainsMu.RLock()
+				chain, ok := a.chains[mw.Req.Header.Event]
+				a.chainsMu.RUnlock()
+
+				if ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From 7a934ecb2809a9b0ff6b3072cac2dad31ca57397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 13/41] fix: a closed topic is never created again by the node
 that closed it

---
 lib/pubsub/ps_mgr.go   | 10 ++++++++++
 lib/pubsub/ps_topic.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/lib/pubsub/ps_mgr.go b/lib/pubsub/ps_mgr.go
index 1037d80..7faeb27 100644
--- a/lib/pubsub/ps_mgr.go
+++ b/lib/pubsub/ps_mgr.go
@@ -58,3 +58,13 @@ func (nps *Pubsub) GetOrCreateTopic(name string, opts ...TopicOption) *Topic {
 	}
 	return nps.CreateTopic(name, opts...)
 }
+
+// removeTopic forgets a closed topic, so that the next request creates it anew
+func (nps *Pubsub) removeTopic(t *Topic) {
+	nps.Lock()
+	defer nps.Unlock()
+
+	if nps.topicMap[t.topic] == t {
+		delete(nps.topicMap, t.topic)
+	}
+}
diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 6c242b2..372be30 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -130,6 +130,10 @@ func (rt *Topic) Close() error {
 				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
 			}
 			log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
+
+			if rt.ps != nil {
+				rt.ps.removeTopic(rt)
+			}
 		} else {
 			log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
 		}
-- 
2.43.0


From 904a5355d5447377ccfc44fc9900a8aad284dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 14/41] fix: closing a topic loses a message published
 meanwhile

---
 lib/pubsub/ps_topic.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 372be30..c078821 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -2,6 +2,7 @@ package pubsub
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 	"sync"
@@ -103,6 +104,18 @@ func (rt *Topic) Sub(ctx context.Context, channel string, opts ...interface{}) (
 
 func (rt *Topic) Close() error {
 
+	// a message or channel that arrives between the checks and the removal keeps the topic
+	err := thdredis.GetClient().Watch(context.Background(), rt.closeUnused, rt.topic)
+	if errors.Is(err, redis.TxFailedErr) {
+		log.InfoF("[braid.pubsub] Topic %v not cleaned: in use", rt.topic)
+		return nil
+	}
+
+	return err
+}
+
+func (rt *Topic) closeUnused(tx *redis.Tx) error {
+
 	ctx := context.Background()
 	groups, err := thdredis.XInfoGroups(ctx, rt.topic).Result()
 	if err != nil && err != redis.Nil {
@@ -121,7 +134,7 @@ func (rt *Topic) Close() error {
 		}
 
 		if cnt == 0 {
-			cleanpipe := thdredis.Pipeline()
+			cleanpipe := tx.TxPipeline()
 			cleanpipe.Del(ctx, rt.topic)
 			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)
 
-- 
2.43.0


From f760bec54fd5b3cd96abf11592b75a062b11ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 15/41] fix: an actor's subscription drops the topic options it
 is given

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e40fe25..90499f6 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -449,7 +449,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From c79263420ae868543b978456ee1880cbb09d8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 16/41] fix: the low-load node pick pairs nodes with the loads
 of other nodes

---
 core/addressbook/addressbook_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..7872efe 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -253,7 +253,9 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	nodeIDs := make([]string, 0, len(nodeInfoMap)) // the order of the replies, a map has none
 	for nodeID := range nodeInfoMap {
+		nodeIDs = append(nodeIDs, nodeID)
 		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
@@ -263,7 +265,8 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	}
 
 	i := 0
-	for nodeID, nodeInfoJSON := range nodeInfoMap {
+	for _, nodeID := range nodeIDs {
+		nodeInfoJSON := nodeInfoMap[nodeID]
 		if i >= len(cmders) {
 			break
 		}
-- 
2.43.0


From 60fad34bd25d0581fe48d82a82cafeaa254d37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 17/41] fix: a cleared node still answers for the actors it no
 longer has

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 7872efe..1a9d68e 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -369,5 +369,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	ab.IDMap = make(map[string]bool)
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From e5fa9e37e37cbe08121b26e6da5f638b84770741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 18/41] fix: removing another node's record takes its weight
 off the removing node

---
 core/addressbook/addressbook_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a9d68e..7c98b91 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -118,8 +118,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From dac9cb475d1c51117e0d012b10d5276e5646da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 19/41] fix: a type without a cluster-wide limit is not kept
 unique per node

---
 core/node/system_impl.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 90499f6..4539b32 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -109,15 +109,15 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 	sys.Unlock()
 
-	if builder.GetGlobalQuantityLimit() != 0 {
-
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
+	if builder.GetNodeUnique() {
+		for _, v := range sys.actoridmap {
+			if v.Type() == builder.GetType() {
+				return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
 			}
 		}
+	}
+
+	if builder.GetGlobalQuantityLimit() != 0 {
 
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
-- 
2.43.0


From 2da7e42ef778afb1da777fb7aeb5cd40bedc3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 20/41] fix: a removal whose reply is lost leaves the id taken
 on its node

---
 core/addressbook/addressbook_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 7c98b91..79ec4d8 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -103,6 +103,11 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
+		if err == redis.Nil {
+			ab.Lock()
+			delete(ab.IDMap, id) // removed before, but the reply was lost
+			ab.Unlock()
+		}
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
-- 
2.43.0


From 13489c41b8ba27fef933d81b669c48be57a90e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 21/41] fix: a stale record of an unknown type crashes its
 caller, and the clean-up hits live actors

---
 core/addressbook/addressbook_impl.go | 35 ++++++++++++++++++++++++++++
 core/node/system_impl.go             | 16 +++++++++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 79ec4d8..c1c5038 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -136,6 +136,41 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	return err
 }
 
+// UnregisterStale removes the record of an actor that turned out not to be there.
+// If the id has been registered again since, only the old record under the type goes.
+func (ab *AddressBook) UnregisterStale(ctx context.Context, info core.AddressInfo, weight int) error {
+	var cur core.AddressInfo
+	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, info.ActorId).Result()
+	if err == nil {
+		err = json.Unmarshal([]byte(addrJSON), &cur)
+	}
+	if err != nil && err != redis.Nil {
+		return fmt.Errorf("addressbook.unregister stale id %s err %v", info.ActorId, err)
+	}
+	if info.ActorTy == "" { // answered from the local id cache
+		info.ActorTy = cur.ActorTy
+	}
+	if cur == info {
+		return ab.Unregister(ctx, info.ActorId, weight)
+	}
+
+	ab.Lock()
+	delete(ab.IDMap, info.ActorId)
+	ab.Unlock()
+
+	staleJSON, _ := json.Marshal(info)
+	removed, err := trdredis.GetClient().SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), staleJSON).Result()
+	if err != nil || removed == 0 {
+		return err
+	}
+
+	pipe := trdredis.Pipeline()
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
+	_, err = pipe.Exec(ctx)
+	return err
+}
+
 // GetByID get actor address by id
 func (ab *AddressBook) GetByID(ctx context.Context, id string) (core.AddressInfo, error) {
 
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 4539b32..6def595 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -262,7 +262,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.unregisterStale(mw.Ctx, info, actorType); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
@@ -274,6 +274,18 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	return sys.handleRemoteCall(mw.Ctx, info, mw)
 }
 
+func (sys *NormalSystem) unregisterStale(ctx context.Context, info core.AddressInfo, actorType string) error {
+	if info.ActorTy != "" { // the caller may have named another type
+		actorType = info.ActorTy
+	}
+
+	weight := 0
+	if ac := sys.factory.Get(actorType); ac != nil {
+		weight = ac.Weight
+	}
+	return sys.addressbook.UnregisterStale(ctx, info, weight)
+}
+
 func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string) (core.IActor, core.AddressInfo, error) {
 	sys.RLock()
 
@@ -426,7 +438,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.unregisterStale(mw.Ctx, info, actorType); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-- 
2.43.0


From ad79cc904ae366fdc0c54753a15f2c4c75ac3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 22/41] fix: a removal broken off half-way leaves a type entry
 that nothing removes

---
 core/addressbook/addressbook_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index c1c5038..75a22aa 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -119,8 +119,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 
 	// execute multiple redis operations using pipeline
 	pipe := trdredis.Pipeline()
-	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
+	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
 
 	// 更新节点记录
 	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
@@ -394,8 +394,8 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 			}
 			if actor.Node == ab.NodeID {
 				log.InfoF("addressbook clear node %v actor %v", ab.NodeID, actor.ActorId)
-				pipe.SRem(ctx, actorTypeKey, actorJSON)
 				pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
+				pipe.SRem(ctx, actorTypeKey, actorJSON)
 			}
 		}
 	}
-- 
2.43.0


From b5e88fd7b96ec1ac01cbf262ad59dbd5ec69c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 23/41] fix: listing or shutting down the actors during a
 registration crashes the process

---
 core/node/system_impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 6def595..fa8809f 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -110,7 +110,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	sys.Unlock()
 
 	if builder.GetNodeUnique() {
-		for _, v := range sys.actoridmap {
+		for _, v := range sys.Actors() {
 			if v.Type() == builder.GetType() {
 				return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
 			}
@@ -188,6 +188,8 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 
 func (sys *NormalSystem) Actors() []core.IActor {
 	actors := []core.IActor{}
+	sys.RLock()
+	defer sys.RUnlock()
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
 	}
@@ -486,7 +488,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From c685663947472bd263ca67da485d138d82481b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 24/41] fix: concurrent registrations and removals of one id
 leave records without actors and actors without records

---
 core/node/system_impl.go | 55 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index fa8809f..98b1946 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	changing    map[string]string // ids being registered (with their type) or removed
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		changing:    make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -107,15 +109,31 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		sys.Unlock()
 		return nil, core.ErrActorRegisterRepeat
 	}
-	sys.Unlock()
+	if _, ok := sys.changing[builder.GetID()]; ok {
+		sys.Unlock()
+		return nil, core.ErrActorRegisterRepeat
+	}
 
 	if builder.GetNodeUnique() {
-		for _, v := range sys.Actors() {
+		unique := true
+		for _, v := range sys.actoridmap {
 			if v.Type() == builder.GetType() {
-				return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+				unique = false
 			}
 		}
+		for _, ty := range sys.changing {
+			if ty == builder.GetType() {
+				unique = false
+			}
+		}
+		if !unique {
+			sys.Unlock()
+			return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+		}
 	}
+	sys.changing[builder.GetID()] = builder.GetType()
+	sys.Unlock()
+	defer sys.settle(builder.GetID())
 
 	if builder.GetGlobalQuantityLimit() != 0 {
 
@@ -155,9 +173,19 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
 
-	sys.RLock()
+	sys.Lock()
 	actor, exists := sys.actoridmap[id]
-	sys.RUnlock()
+	if _, ok := sys.changing[id]; ok {
+		sys.Unlock()
+		if exists { // being removed by somebody else
+			actor.Exit()
+			return nil
+		}
+		return fmt.Errorf("braid.system unregister actor id %v is being registered or removed", id)
+	}
+	sys.changing[id] = ""
+	sys.Unlock()
+	defer sys.settle(id)
 
 	if exists {
 		// Call Exit on the actor
@@ -186,6 +214,12 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	return nil
 }
 
+func (sys *NormalSystem) settle(id string) {
+	sys.Lock()
+	delete(sys.changing, id)
+	sys.Unlock()
+}
+
 func (sys *NormalSystem) Actors() []core.IActor {
 	actors := []core.IActor{}
 	sys.RLock()
@@ -277,6 +311,17 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) unregisterStale(ctx context.Context, info core.AddressInfo, actorType string) error {
+	sys.Lock()
+	_, live := sys.actoridmap[info.ActorId]
+	_, changing := sys.changing[info.ActorId]
+	if live || changing { // not stale, looked up before it was in place
+		sys.Unlock()
+		return nil
+	}
+	sys.changing[info.ActorId] = ""
+	sys.Unlock()
+	defer sys.settle(info.ActorId)
+
 	if info.ActorTy != "" { // the caller may have named another type
 		actorType = info.ActorTy
 	}
-- 
2.43.0


From 10bbca83d057ec1bc036384b050bd48f90e79e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 25/41] fix: a message accepted while its actor is shut down is
 lost

---
 core/actor/actor_runtime_impl.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 5fc1845..2795377 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -30,6 +30,7 @@ type Runtime struct {
 	q            *mpsc.Queue
 	reenterQueue *mpsc.Queue
 	closed       int32
+	acceptMu     sync.RWMutex // a message accepted before closing is queued before closing
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	exitedCh     chan struct{} // closed when the update loop has returned
@@ -188,6 +189,9 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	a.acceptMu.RLock()
+	defer a.acceptMu.RUnlock()
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -384,7 +388,10 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
-	if !atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
+	a.acceptMu.Lock()
+	closing := atomic.CompareAndSwapInt32(&a.closed, 0, 1)
+	a.acceptMu.Unlock()
+	if !closing {
 		<-a.exitedCh // already exiting
 		return
 	}
-- 
2.43.0


From 5d266fec8710c71c9e7d8efb742d1240d608c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 26/41] fix: an actor registered while its node shuts down
 survives it, a repeated removal fails, a stale record beside a live actor
 stays

---
 core/addressbook/addressbook_impl.go | 19 +++++++++++--
 core/node/system_impl.go             | 42 ++++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 75a22aa..85e4b5b 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -27,6 +27,8 @@ type AddressBook struct {
 
 	IDMap map[string]bool
 
+	change sync.Mutex // one change of this node's records at a time
+
 	sync.RWMutex
 }
 
@@ -48,6 +50,9 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		return fmt.Errorf("actor id or type is empty")
 	}
 
+	ab.change.Lock()
+	defer ab.change.Unlock()
+
 	ab.RLock()
 	if _, ok := ab.IDMap[id]; ok {
 		ab.RUnlock()
@@ -100,6 +105,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("actor id or type is empty")
 	}
 
+	ab.change.Lock()
+	defer ab.change.Unlock()
+
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
@@ -154,9 +162,11 @@ func (ab *AddressBook) UnregisterStale(ctx context.Context, info core.AddressInf
 		return ab.Unregister(ctx, info.ActorId, weight)
 	}
 
-	ab.Lock()
-	delete(ab.IDMap, info.ActorId)
-	ab.Unlock()
+	if cur.Node != ab.NodeID {
+		ab.Lock()
+		delete(ab.IDMap, info.ActorId)
+		ab.Unlock()
+	}
 
 	staleJSON, _ := json.Marshal(info)
 	removed, err := trdredis.GetClient().SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), staleJSON).Result()
@@ -359,6 +369,9 @@ func (ab *AddressBook) GetActorTypeCount(ctx context.Context, actorType string)
 }
 
 func (ab *AddressBook) Clear(ctx context.Context) error {
+	ab.change.Lock()
+	defer ab.change.Unlock()
+
 	mid, err := dismutex.Lock(ctx, ab.NodeID)
 	if err != nil {
 		return fmt.Errorf("addressbook.register get distributed mutex err %v", err.Error())
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 98b1946..97c932a 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -35,6 +35,8 @@ type NormalSystem struct {
 	nodeIP   string
 	nodePort int
 
+	exiting bool // no registration is accepted any more
+
 	callTimeout time.Duration // sync call timeout
 
 	trac tracer.ITracer
@@ -42,6 +44,8 @@ type NormalSystem struct {
 	sync.RWMutex
 }
 
+var ErrExiting = errors.New("[braid.system] node is shutting down")
+
 var ErrSelfCall = errors.New("cannot call self node through RPC")
 
 func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActorLoader, factory core.IActorFactory, trac tracer.ITracer) core.ISystem {
@@ -105,6 +109,10 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	sys.Lock()
+	if sys.exiting {
+		sys.Unlock()
+		return nil, ErrExiting
+	}
 	if _, ok := sys.actoridmap[builder.GetID()]; ok {
 		sys.Unlock()
 		return nil, core.ErrActorRegisterRepeat
@@ -133,7 +141,12 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 	sys.changing[builder.GetID()] = builder.GetType()
 	sys.Unlock()
-	defer sys.settle(builder.GetID())
+	registered := false
+	defer func() {
+		if !registered {
+			sys.settle(builder.GetID())
+		}
+	}()
 
 	if builder.GetGlobalQuantityLimit() != 0 {
 
@@ -162,7 +175,17 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	sys.Lock()
+	if sys.exiting {
+		sys.Unlock()
+		actor.Exit()
+		if err := sys.addressbook.Clear(ctx); err != nil {
+			log.WarnF("[braid.addressbook] clear err %v", err.Error())
+		}
+		return nil, ErrExiting
+	}
 	sys.actoridmap[builder.GetID()] = actor
+	delete(sys.changing, builder.GetID())
+	registered = true
 	sys.Unlock()
 
 	log.InfoF("braid.system node %v register %v %v succ", sys.addressbook.NodeID, builder.GetType(), builder.GetID())
@@ -175,13 +198,15 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 
 	sys.Lock()
 	actor, exists := sys.actoridmap[id]
-	if _, ok := sys.changing[id]; ok {
+	if changing, ok := sys.changing[id]; ok {
 		sys.Unlock()
+		if changing != "" {
+			return fmt.Errorf("braid.system unregister actor id %v is being registered", id)
+		}
 		if exists { // being removed by somebody else
 			actor.Exit()
-			return nil
 		}
-		return fmt.Errorf("braid.system unregister actor id %v is being registered or removed", id)
+		return nil
 	}
 	sys.changing[id] = ""
 	sys.Unlock()
@@ -312,7 +337,10 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 
 func (sys *NormalSystem) unregisterStale(ctx context.Context, info core.AddressInfo, actorType string) error {
 	sys.Lock()
-	_, live := sys.actoridmap[info.ActorId]
+	actor, live := sys.actoridmap[info.ActorId]
+	if live && info.ActorTy != "" { // a record left by another actor under this id
+		live = actor.Type() == info.ActorTy && info.Node == sys.nodeID
+	}
 	_, changing := sys.changing[info.ActorId]
 	if live || changing { // not stale, looked up before it was in place
 		sys.Unlock()
@@ -524,6 +552,10 @@ func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor,
 }
 
 func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
+	sys.Lock()
+	sys.exiting = true
+	sys.Unlock()
+
 	if sys.nodePort != 0 {
 		wait.Add(1)
 		if sys.acceptor != nil {
-- 
2.43.0


From 6ff04f418bbfc736a29f9678c90c61d83debf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 27/41] fix: a message sent to an actor on another node is
 reported as failed

---
 core/node/system_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 97c932a..361f4f0 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -524,11 +524,11 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	return sys.client.CallWait(mw.Ctx,
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{}) // We don't need the response for Send
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From 651c1364408b2461cd3df406218ff539689ba8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 28/41] fix: a failure at a remote actor reaches the caller as
 an empty success

---
 core/node/system_acceptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..4c9edbe 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -105,8 +105,12 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 		req.Msg.Header.TargetActorType,
 		req.Msg.Header.Event, routermsg)
 
+	if err == nil {
+		err = routermsg.Err // the handling did not finish in time
+	}
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From c86bf950cb5d530ad35c2618870915858dca964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:16 +0000
Subject: [PATCH 29/41] fix: an invalid call option crashes the waiting call
 path

---
 lib/grpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..89a905b 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -148,6 +148,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
 				fmt.Printf("[braid.client] call option type mismatch")
+				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From 748f9ad4dc58f98633e63822ded981b7567a2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 30/41] fix: a service timer whose run panics runs at double
 rate, or crashes if it was added by itself

---
 lib/timer/timer.go      | 1 +
 lib/timer/timer_tick.go | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..ae6088e 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -144,6 +144,7 @@ func (ts *TimerService) NewTickTask(taskID string, isRun bool, dueTime int64, in
 }
 
 func (service *TimerService) AddTask(t Timer) {
+	t.SetTimerService(service)
 	service.taskMutex.Lock()
 	service.taskMap[t.TimerID()] = t
 	service.taskMutex.Unlock()
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..89c5ff3 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -55,8 +55,7 @@ func startTickTask(task *TimerTask) {
 				if task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
+				// the loop goes on with the next tick
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
-- 
2.43.0


From 285dada4b04cb5722211b7307f20f12f608f33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:04 +0000
Subject: [PATCH 31/41] fix: stopping a service timer during its delay crashes,
 and a stopped or restarted one still runs

---
 lib/timer/timer.go      |  6 +++++-
 lib/timer/timer_tick.go | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index ae6088e..13fce6f 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -48,6 +48,7 @@ type TimerInfo struct {
 	taskService *TimerService
 	mutex       sync.RWMutex
 	TimeTicker  *time.Ticker
+	quit        chan struct{} // closed by the stop that ends the running loop
 	TaskType    string
 	handler     TimerHandleFunc
 	context     *TimerContext
@@ -60,8 +61,11 @@ func (task *TimerInfo) stop() {
 	if !task.isRun {
 		return
 	}
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.quit)
 		task.State = Timer_state_stop
 	}
 }
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index 89c5ff3..d2ceaf2 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -21,6 +21,7 @@ func (tt *TimerTask) start() {
 
 	if tt.State == Timer_state_init || tt.State == Timer_state_stop {
 		tt.State = Timer_state_run
+		tt.quit = make(chan struct{})
 		startTickTask(tt)
 	}
 }
@@ -75,11 +76,32 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
+	quit := task.quit
 	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		task.mutex.Lock()
+		select {
+		case <-quit: // stopped during the delay
+			task.mutex.Unlock()
+			return
+		default:
+		}
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		task.TimeTicker = ticker
+		task.mutex.Unlock()
+		defer ticker.Stop()
+
 		handler()
 		for {
-			<-task.TimeTicker.C
+			select {
+			case <-quit:
+				return
+			case <-ticker.C:
+			}
+			select {
+			case <-quit: // both were ready
+				return
+			default:
+			}
 			handler()
 		}
 	}
-- 
2.43.0


From 8b1da187a17b4ebc04d988b206c41e285ad2f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:22 +0000
Subject: [PATCH 32/41] fix: using the timer service from several goroutines
 crashes

---
 lib/timer/timer.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 13fce6f..07fe933 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -125,14 +125,35 @@ func Init() *TimerService {
 	return service
 }
 
+// task looks a task up
+func (ts *TimerService) task(taskID string) (Timer, bool) {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	t, ok := ts.taskMap[taskID]
+	return t, ok
+}
+
+// tasks returns the tasks of the moment
+func (ts *TimerService) tasks() []Timer {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	lst := make([]Timer, 0, len(ts.taskMap))
+	for _, t := range ts.taskMap {
+		lst = append(lst, t)
+	}
+	return lst
+}
+
 func (ts *TimerService) StartAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.stop()
 	}
 }
@@ -161,22 +182,24 @@ func (service *TimerService) RemoveTask(taskID string) {
 }
 
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
+	t, ok := ts.task(taskID)
+	if !ok {
 		return
 	}
-	ts.taskMap[taskID].stop()
+	t.stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
+	t, ok := ts.task(taskID)
+	if !ok {
 		return
 	}
-	ts.taskMap[taskID].start()
+	t.start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.task(name); ok {
 		v.stop()
 		return nil
 	}
-- 
2.43.0


From 6525e4779e41285c7dfae3fa6da8c26953e4cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 33/41] fix: options given to one store client apply to every
 client built later

---
 3rd/redis/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index 38af08a..799f3ad 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -24,10 +24,11 @@ var (
 
 func BuildClientWithOption(opts ...Option) *redis.Client {
 
+	p := *defaultClientConfig // the defaults stay as they are
 	for _, opt := range opts {
-		opt(defaultClientConfig)
+		opt(&p)
 	}
-	return new(defaultClientConfig)
+	return new(&p)
 }
 
 func new(p *Parm) *redis.Client {
-- 
2.43.0


From 3273642a6e3f5d657994187d4de2b5cd2611f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 34/41] fix: a field read over a store connection ignores the
 caller's context

---
 3rd/redis/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index 799f3ad..071f095 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -86,7 +86,7 @@ func ConnHGet(conn *redis.Conn, ctx context.Context, key, field string) (string,
 		defer span.End(ctx)
 	}
 
-	cmd := conn.HGet(context.TODO(), key, field)
+	cmd := conn.HGet(ctx, key, field)
 	return cmd.Val(), cmd.Err()
 }
 
-- 
2.43.0


From 3d3184ec4b976ddd76627655b216dab5432a3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 35/41] fix: decoding the results of a pipeline hides the error
 of the one that failed

---
 3rd/redis/client_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..7fb83c4 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -10,10 +10,11 @@ import (
 
 func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var bts [][]byte
+	var bytes []byte
 	var err error
 	for _, cmder := range cmds {
 		cmd := cmder.(*redis.StringCmd)
-		bytes, err := cmd.Bytes()
+		bytes, err = cmd.Bytes()
 		if err != nil {
 			goto EXT
 		}
-- 
2.43.0


From 4883517005edd01790692fabadeaa8ed44572098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:13 +0000
Subject: [PATCH 36/41] fix: a registration or removal waits while a stale
 record of its id is removed

---
 core/node/system_impl.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 361f4f0..9751fc5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,7 +24,8 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
-	changing    map[string]string // ids being registered (with their type) or removed
+	changing    map[string]string        // ids being registered (with their type) or removed
+	cleaning    map[string]chan struct{} // ids a stale record is being removed of, closed when that is over
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -54,6 +55,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
 		changing:    make(map[string]string),
+		cleaning:    make(map[string]chan struct{}),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -108,7 +110,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
-	sys.Lock()
+	sys.lockCleaned(builder.GetID())
 	if sys.exiting {
 		sys.Unlock()
 		return nil, ErrExiting
@@ -196,7 +198,7 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
 
-	sys.Lock()
+	sys.lockCleaned(id)
 	actor, exists := sys.actoridmap[id]
 	if changing, ok := sys.changing[id]; ok {
 		sys.Unlock()
@@ -239,6 +241,20 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	return nil
 }
 
+// lockCleaned locks the system while no stale record of the id is being removed.
+func (sys *NormalSystem) lockCleaned(id string) {
+	sys.Lock()
+	for {
+		done, ok := sys.cleaning[id]
+		if !ok {
+			return
+		}
+		sys.Unlock()
+		<-done
+		sys.Lock()
+	}
+}
+
 func (sys *NormalSystem) settle(id string) {
 	sys.Lock()
 	delete(sys.changing, id)
@@ -342,13 +358,20 @@ func (sys *NormalSystem) unregisterStale(ctx context.Context, info core.AddressI
 		live = actor.Type() == info.ActorTy && info.Node == sys.nodeID
 	}
 	_, changing := sys.changing[info.ActorId]
-	if live || changing { // not stale, looked up before it was in place
+	_, cleaning := sys.cleaning[info.ActorId]
+	if live || changing || cleaning { // not stale, looked up before it was in place
 		sys.Unlock()
 		return nil
 	}
-	sys.changing[info.ActorId] = ""
+	done := make(chan struct{})
+	sys.cleaning[info.ActorId] = done
 	sys.Unlock()
-	defer sys.settle(info.ActorId)
+	defer func() {
+		sys.Lock()
+		delete(sys.cleaning, info.ActorId)
+		sys.Unlock()
+		close(done)
+	}()
 
 	if info.ActorTy != "" { // the caller may have named another type
 		actorType = info.ActorTy
-- 
2.43.0


From 0abfed42e0d7393f4cbe01ff2ed867964ef6d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 37/41] fix: timers set while another timer of the actor fires
 crash the process

---
 core/actor/actor_runtime_impl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 2795377..79e595b 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -38,6 +38,7 @@ type Runtime struct {
 	chainsMu     sync.RWMutex // subscriptions deliver while Init still registers events
 	recovery     RecoveryFunc
 
+	timersMu  sync.Mutex // guards timers: Init may still add some while others fire
 	timers    map[core.ITimer]struct{}
 	timerChan chan core.ITimer
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
@@ -110,7 +111,9 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		time.Duration(interval)*time.Millisecond,
 		f, args)
 
+	a.timersMu.Lock()
 	a.timers[info] = struct{}{}
+	a.timersMu.Unlock()
 	//a.timerWg.Add(1)
 
 	go func() {
@@ -145,7 +148,9 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 	log.InfoF("[braid.timer] %v timer cancel", a.Id)
 
 	t.Stop()
+	a.timersMu.Lock()
 	delete(a.timers, t)
+	a.timersMu.Unlock()
 }
 
 // Sub subscribes to a message
@@ -398,7 +403,13 @@ func (a *Runtime) Exit() {
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.exitedCh        // 等待所有消息处理完毕
 
+	a.timersMu.Lock()
+	timers := make([]core.ITimer, 0, len(a.timers))
 	for t := range a.timers {
+		timers = append(timers, t)
+	}
+	a.timersMu.Unlock()
+	for _, t := range timers {
 		a.CancelTimer(t)
 	}
 	//a.timerWg.Wait()
-- 
2.43.0


From aa066ade9bd345906ce41f6d950b59fa8b915747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:17 +0000
Subject: [PATCH 38/41] fix: a message used again after a refused call crashes
 the process

---
 core/node/system_impl.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 9751fc5..1eb18af 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -405,10 +405,16 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 	root := mw.GetWg().Count() == 0
 	if root {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
-		mw.Done = make(chan struct{})
+		done := make(chan struct{}) // of this call, the message may be used for another one
+		mw.Done = done
 		ready := make(chan struct{})
+		refused := false
 		go func() {
 			<-ready // Wait for Received to complete
+			if refused {
+				close(done)
+				return
+			}
 
 			waitCh := make(chan struct{})
 			go func() {
@@ -427,17 +433,18 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 				}
 			}
 
-			close(mw.Done)
+			close(done)
 		}()
 
 		if err := actorp.Received(mw); err != nil {
+			refused = true
 			close(ready) // Ensure the ready channel is closed even in case of an error
 			return err
 		}
 		close(ready) // Notify the goroutine that Received has completed
 
 		select {
-		case <-mw.Done:
+		case <-done:
 			return nil
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
-- 
2.43.0


From 07f38fe9bf826699503613238a245d0e4082526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:39 +0000
Subject: [PATCH 39/41] fix: the function option of the logger's caller has no
 effect

---
 lib/log/options.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/log/options.go b/lib/log/options.go
index b6a23c5..516db88 100644
--- a/lib/log/options.go
+++ b/lib/log/options.go
@@ -247,14 +247,7 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 		}
 	}
 
-	core := zapcore.NewCore(
-		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
-		ws,                                  // 输出方式
-		zap.NewAtomicLevelAt(options.Level), // 日志级别
-	)
-
-	var logger *zap.Logger
-	if options.Caller {
+	if options.Caller { // before the encoder is made, which copies the config
 		if options.CallerFunc {
 			options.EncoderConf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
 				enc.AppendString(fmt.Sprintf("%s:%d %s()", path.Base(caller.File), caller.Line, funcShortName(caller.Function)))
@@ -265,6 +258,16 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 			}
 		}
 		options.EncoderConf.FunctionKey = zapcore.OmitKey
+	}
+
+	core := zapcore.NewCore(
+		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
+		ws,                                  // 输出方式
+		zap.NewAtomicLevelAt(options.Level), // 日志级别
+	)
+
+	var logger *zap.Logger
+	if options.Caller {
 		logger = zap.New(core, zap.AddCallerSkip(options.CallerSkip), zap.AddCaller())
 	} else {
 		logger = zap.New(core)
-- 
2.43.0


From 30c9ad161f001f5660dfacf248e9db117c9175e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:40 +0000
Subject: [PATCH 40/41] fix: a topic named like a node keeps the node from
 leaving the address book

---
 core/addressbook/addressbook_impl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 85e4b5b..4a99c7b 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -45,6 +45,11 @@ func makeNodeKey(nodid string) string {
 	return fmt.Sprintf("{node:%s}", nodid)
 }
 
+// makeLockKey keeps the mutex of a node apart from other keys, such as a topic named like the node
+func makeLockKey(nodid string) string {
+	return fmt.Sprintf("{lock:%s}", nodid)
+}
+
 func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int) error {
 	if id == "" || ty == "" {
 		return fmt.Errorf("actor id or type is empty")
@@ -372,11 +377,12 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 	ab.change.Lock()
 	defer ab.change.Unlock()
 
-	mid, err := dismutex.Lock(ctx, ab.NodeID)
+	lockKey := makeLockKey(ab.NodeID)
+	mid, err := dismutex.Lock(ctx, lockKey)
 	if err != nil {
 		return fmt.Errorf("addressbook.register get distributed mutex err %v", err.Error())
 	}
-	defer dismutex.Unlock(ctx, ab.NodeID, mid)
+	defer dismutex.Unlock(ctx, lockKey, mid)
 
 	// 获取该节点的所有 actor 信息
 	nodeKey := makeNodeKey(ab.NodeID)
-- 
2.43.0


From 20bf0d227aef9d0c419f953b113cb37bdd8f2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:50 +0000
Subject: [PATCH 41/41] fix: custom fields written with a serializer of the
 user's own cannot be read back

---
 router/msg/msg_custom_map.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f5ccb99..e2e6517 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -72,16 +72,24 @@ func (b *MsgBuilder) WithResCustomFieldsMap(data map[string]any) *MsgBuilder {
 	return b
 }
 
+// decodeCustomMap decodes custom fields with the serializer they were written with
+func (mw *Wrapper) decodeCustomMap(byt []byte, data *map[string]any) error {
+	if mw.parm.CustomMapSerialize == nil { // not made by a builder
+		return json.Unmarshal(byt, data)
+	}
+	return mw.parm.CustomMapSerialize.Decode(byt, data)
+}
+
 // GetReqCustomMap gets the custom fields map from the message
 //
-// Note: The custom map is serialized using JSON, all value types need to be carefully converted
+// Note: The custom map is serialized using JSON (unless the message was built with another serializer), all value types need to be carefully converted
 // (e.g., numeric types like int will be serialized to float64 and need to be converted back manually)
 func (mw *Wrapper) GetReqCustomMap() (map[string]any, error) {
 	if len(mw.Req.Header.Custom) == 0 {
 		return nil, fmt.Errorf("empty request body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Req.Header.Custom, &data)
+	err := mw.decodeCustomMap(mw.Req.Header.Custom, &data)
 	return data, err
 }
 
@@ -159,14 +167,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 
 // GetResCustomMap gets the custom fields map from the message
 //
-// Note: The custom map is serialized using JSON, all value types need to be carefully converted
+// Note: The custom map is serialized using JSON (unless the message was built with another serializer), all value types need to be carefully converted
 // (e.g., numeric types like int will be serialized to float64 and need to be converted back manually)
 func (mw *Wrapper) GetResCustomMap() (map[string]any, error) {
 	if len(mw.Res.Header.Custom) == 0 {
 		return nil, fmt.Errorf("empty resuest body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Res.Header.Custom, &data)
+	err := mw.decodeCustomMap(mw.Res.Header.Custom, &data)
 	return data, err
 }
 
-- 
2.43.0

