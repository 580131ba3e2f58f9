From bba4a140db5da9f14fbaf1a8430d8e73770cfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 01/43] fix: leaky and token buckets keep the sub-second
 remainder of elapsed time

Resetting lastTime to now discarded up to a second of credit per call, so a
bucket polled every 1.5s ran at two thirds of its configured rate.
---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 3 ++-
 common/limiter/token_bucket/token_bucket.go         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 3f10122..6485b0d 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -33,7 +33,8 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
 		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
-		l.lastTime = now
+		// 只前进整秒，不满一秒的时间留到下次
+		l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)
 	}
 
 	// 若到达最高水位，请求失败
diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..e1226f4 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -33,7 +33,8 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
 		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
-		l.lastTime = now
+		// 只前进整秒，不满一秒的时间留到下次
+		l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)
 	}
 
 	// 如果没有令牌，请求失败
-- 
2.43.0


From 216c62473296955e47c0918defd48a34e77d4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 02/43] fix: sliding log limiter copies its strategies

Only the slice was copied; the number of small windows was written into the
caller's strategy objects, so a second limiter built from the same objects with
another slot size changed the window of the first.
---
 common/limiter/sliding_log/sliding_log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..7f5bf10 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -43,6 +43,10 @@ type SlidingLogLimiter struct {
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
 	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	for i, strategy := range strategies {
+		copied := *strategy
+		strategies[i] = &copied
+	}
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From 2514b3ec981f108f06d98f64a5e082abf72a14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 03/43] fix: n-ary heap compares all n children when sifting
 down

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..18e2df3 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1-k < h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From 3f8dd9323e10c4a75824acbcd2aa6fdd6f2d940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 04/43] fix: zero value of List is ready to use

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..128fab8 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -58,6 +58,13 @@ func (l *List[T]) Clear() *List[T] {
 	return l
 }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // New returns an initialized list.
 func New[T any]() *List[T] { return new(List[T]).Clear() }
 
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 84deea5f0743f3b901285ea29faea9601860d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 05/43] fix: math.Split of zero or huge n, math.Log2 of large
 integers

---
 common/math/math.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..d57da94 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,13 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	per := n / m
+	if n%m != 0 {
+		per++
+	}
+	if per == 0 { // n为0，没有可分的
+		return 0, 0
+	}
 	last := n % per
 	if last == 0 {
 		last = per
@@ -45,6 +51,10 @@ func Abs[T constraints.Float | constraints.Signed](a T) T {
 // Log2
 // 修改更加高效算法
 func Log2[T constraints.Integer | constraints.Float](a T) T {
+	// 整数类型：float64无法精确表示大整数，a略小于2的整数次幂时会被进位
+	if T(1)/2 == 0 && a > 0 {
+		return T(bits.Len64(uint64(a)) - 1)
+	}
 	return T(math.Log2(float64(a)))
 }
 
-- 
2.43.0


From bbb0e4bd60d5526cb4194e21bb3bbcc1d1351c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 06/43] fix: round ring checks the size before rounding it up

---
 common/container/ringbuffer/round/roud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..ca30c23 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -19,10 +19,10 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
-- 
2.43.0


From ab576dddd47fca29d36279e3160f86587250d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 07/43] fix: MPopCopy on an unbounded ring without capacity

---
 common/container/ringbuffer/unbounded/unbounded.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..625746b 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,8 +90,11 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
-	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
+	if len(dst) == 0 {
+		return
+	}
+	out := r.out % r.size
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
 	r.out += uint64(copied)
-- 
2.43.0


From a35fdc8c319165ff77bfcbc341adf5880264ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 08/43] fix: bounded rings publish their indexes atomically,
 data first

---
 common/container/ringbuffer/fix/fix.go    | 31 +++++++++----------
 common/container/ringbuffer/round/roud.go | 36 +++++++++++++----------
 2 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..084a375 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -42,9 +43,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	elem := r.data[r.out%r.size]
+	atomic.AddUint64(&r.out, 1)
+	return elem
 }
 
 // 队头元素
@@ -60,17 +61,17 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in % r.size
-	r.in++
-	r.data[in] = e
+	r.data[r.in%r.size] = e
+	// 先写数据，再发布写索引
+	atomic.AddUint64(&r.in, 1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -79,13 +80,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in % r.size
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if length := r.Len(); size > length {
+		size = length
 	}
 	if size == 0 {
 		return nil
@@ -94,7 +95,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -104,7 +105,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +122,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -131,7 +132,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return atomic.LoadUint64(&r.in) == atomic.LoadUint64(&r.out)
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index ca30c23..ffab41e 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -36,9 +40,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	elem := r.data[r.out&r.mask]
+	atomic.AddUint64(&r.out, 1)
+	return elem
 }
 
 // 队头元素
@@ -54,17 +58,17 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in & r.mask
-	r.in++
-	r.data[in] = e
+	r.data[r.in&r.mask] = e
+	// 先写数据，再发布写索引
+	atomic.AddUint64(&r.in, 1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -73,13 +77,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in & r.mask
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if length := r.Len(); size > length {
+		size = length
 	}
 	if size == 0 {
 		return nil
@@ -88,7 +92,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -98,7 +102,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -115,7 +119,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -125,7 +129,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return atomic.LoadUint64(&r.in) == atomic.LoadUint64(&r.out)
 }
 
 // 是否满了
-- 
2.43.0


From 530e68b5e9bb40858171bda4de27ffc1ef6b6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 09/43] fix: delay queue wakes every waiting Take and never
 blocks Push

---
 common/timer/delayqueue/delayqueue.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..dd77b27 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -18,9 +17,7 @@ type entry[T any] struct {
 type DelayQueue[T any] struct {
 	h     *heap.Heap[*entry[T]]
 	mutex sync.Mutex //保证并发安全
-	// 0 表示take 没在等待 1 表示在等待
-	sleeping int32
-	// 唤醒通道
+	// 唤醒通道，队头变化时关闭并换新，从而唤醒所有等待的take
 	wakeup chan struct{}
 }
 
@@ -58,10 +55,8 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	// 唤醒等待的take
 
 	if q.h.Peek() == entry {
-		// 把sleep 从1修改成0
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 
 }
@@ -82,7 +77,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 		if !q.h.Empty() {
 			entry := q.h.Peek()
 			now := time.Now()
-			if now.After(entry.expiration) {
+			if !now.Before(entry.expiration) {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry.value, true
@@ -92,17 +87,14 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			timer = time.NewTimer(entry.expiration.Sub(now))
 		}
 
-		atomic.StoreInt32(&q.sleeping, 1)
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		if timer != nil {
 			select {
-			case <-q.wakeup:
+			case <-wakeup:
 				timer.Stop()
 			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
 			case <-ctx.Done():
 				timer.Stop()
 				var t T
@@ -111,7 +103,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			}
 		} else {
 			select {
-			case <-q.wakeup: //
+			case <-wakeup: //
 			case <-ctx.Done(): // 被关闭
 				var t T
 				return t, false
-- 
2.43.0


From 608bc7b8e5f520bfd33bb6a60066dda927f9388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 10/43] fix: timing wheel waits for the due time, wakes
 reliably and stops without leaking

---
 common/timer/timingwheel/delayqueue.go | 36 ++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..a9334a5 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -4,15 +4,13 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 type delayQueue struct {
-	h        *heap.Heap[*bucket]
-	mutex    sync.Mutex
-	sleeping int32         //
-	wakeup   chan struct{} //唤醒通道
+	h      *heap.Heap[*bucket]
+	mutex  sync.Mutex
+	wakeup chan struct{} //唤醒通道，队头变化时关闭并换新
 }
 
 // newDelayQueue
@@ -43,9 +41,8 @@ func (q *delayQueue) push(b *bucket) {
 	q.h.Push(b)
 
 	if q.h.Peek() == b {
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 }
 
@@ -67,35 +64,31 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			entry := q.h.Peek()
 			expiration := entry.getExpiration()
 			now := nowF()
-			if now > expiration {
+			if now >= expiration {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
-		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
-		atomic.StoreInt32(&q.sleeping, 1)
+		// 走到这里表示需要等待了，Push()在有新的队头元素时会关闭它
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
 		if t != nil {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 				t.Stop()
 			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
 				return nil
 			}
 		} else {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 			case <-ctx.Done(): // 被关闭
 				return nil
 			}
@@ -121,7 +114,12 @@ func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <
 				close(out)
 				return
 			}
-			out <- entry
+			select {
+			case out <- entry:
+			case <-ctx.Done(): // 被关闭，避免协程泄露
+				close(out)
+				return
+			}
 		}
 	}()
 	return out
-- 
2.43.0


From 5fb0697e77f4ff519e63c21e715b27b368dbd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 11/43] fix: stopping a running timing wheel cannot hit a nil
 bucket

---
 common/timer/timingwheel/timing_wheel.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..be26406 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -54,9 +54,12 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 	})
 	for {
 		select {
-		case b := <-bucketChan: // 桶到期
+		case b, ok := <-bucketChan: // 桶到期
+			if !ok { // 被关闭
+				return
+			}
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
 		case <-ctx.Done(): // 被关闭
-- 
2.43.0


From 9a3c3b3d3f5002b6ce827e3e7f87da6f4e327139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 12/43] fix: AfterFunc with a delay below one tick runs its
 task

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index be26406..0e64cce 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -81,7 +81,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From 85f2059e9dd3e92cf3d227132671d29293722fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 13/43] fix: Stop cannot miss a timer that is moving between
 wheels

---
 common/timer/timingwheel/bucket.go       | 5 +----
 common/timer/timingwheel/timing_wheel.go | 1 +
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 0ef049b..0f43587 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -75,10 +75,7 @@ func (b *bucket) flush(addOrRun func(t *Timer)) {
 	for elem := b.timers.Front(); elem != nil; {
 		next := elem.Next()
 		t := elem.Value
-		if t.getBucket() == b {
-			t.setBucket(nil)
-			t.elem = nil
-		}
+		// 这里不清空t所属的桶：迁移过程中Stop()要等待b的锁，再到新的桶里移除
 		addOrRun(t)
 		elem = next
 	}
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 0e64cce..cb442d1 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -156,6 +156,7 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
 	if !tw.add(t) {
+		t.setBucket(nil)
 		go t.task()
 	}
 }
-- 
2.43.0


From d552c1161fc8dc81f4a49dec5b756b00cd23a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 14/43] fix: timing wheel advances and redistributes atomically
 with respect to additions

---
 common/timer/timingwheel/delayqueue.go   | 78 ++++++++----------------
 common/timer/timingwheel/timing_wheel.go | 31 ++++++----
 2 files changed, 44 insertions(+), 65 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index a9334a5..0aa00eb 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -46,81 +46,55 @@ func (q *delayQueue) push(b *bucket) {
 	}
 }
 
-// take
-//  @Description:  等待直到有元素到期
+// wait
+//  @Description:  等待直到队头元素到期，不弹出元素
 //  @receiver q
 //  @param ctx
 //  @param nowF
-//  @return *bucket
-//  @Author  ahKevinXy
-//  @Date2023-03-29 18:24:19
-func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
-	for {
+//  @return bool false表示被关闭
+func (q *delayQueue) wait(ctx context.Context, nowF func() int64) bool {
+	for ctx.Err() == nil {
+		var timeout <-chan time.Time
 		var t *time.Timer
 		q.mutex.Lock()
 		// 有元素
 		if !q.h.Empty() {
-			// 获取元素
-			entry := q.h.Peek()
-			expiration := entry.getExpiration()
+			expiration := q.h.Peek().getExpiration()
 			now := nowF()
 			if now >= expiration {
-				q.h.Pop()
 				q.mutex.Unlock()
-				return entry
+				return true
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
 			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
+			timeout = t.C
 		}
 		// 走到这里表示需要等待了，Push()在有新的队头元素时会关闭它
 		wakeup := q.wakeup
 		q.mutex.Unlock()
 
-		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
+		select {
+		case <-wakeup: // 新的更快到期元素
+		case <-timeout: // 首元素到期
+		case <-ctx.Done(): // 被关闭
+		}
 		if t != nil {
-			select {
-			case <-wakeup: // 新的更快到期元素
-				t.Stop()
-			case <-t.C: // 首元素到期
-			case <-ctx.Done(): // 被关闭
-				t.Stop()
-				return nil
-			}
-		} else {
-			select {
-			case <-wakeup: // 新的更快到期元素
-			case <-ctx.Done(): // 被关闭
-				return nil
-			}
+			t.Stop()
 		}
 	}
+	return false
 }
 
-// channel
-//  @Description:  返回一个通道，输出到期元素
+// pop
+//  @Description:  弹出到期的队头元素，没有则返回nil
 //  @receiver q
-//  @param ctx
-//  @param size
 //  @param nowF
-//  @return <-chan
-//  @Author  ahKevinXy
-//  @Date2023-03-29 18:24:27
-func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <-chan *bucket {
-	out := make(chan *bucket, size)
-	go func() {
-		for {
-			entry := q.take(ctx, nowF)
-			if entry == nil {
-				close(out)
-				return
-			}
-			select {
-			case out <- entry:
-			case <-ctx.Done(): // 被关闭，避免协程泄露
-				close(out)
-				return
-			}
-		}
-	}()
-	return out
+//  @return *bucket
+func (q *delayQueue) pop(nowF func() int64) *bucket {
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
+	if q.h.Empty() || q.h.Peek().getExpiration() > nowF() {
+		return nil
+	}
+	return q.h.Pop()
 }
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index cb442d1..83c28bb 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -2,13 +2,12 @@ package timingwheel
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 	"unsafe"
 )
 
-const delayQueueBufferSize = 10 // 延迟队列缓冲区大小
-
 // TimingWheel
 //  @Description:   基于https://github.com/RussellLuo/timingwheel的实现
 //  @Author  ahKevinXy
@@ -21,6 +20,9 @@ type TimingWheel struct {
 	buckets       []*bucket      // 时间轮的每个桶
 	queue         *delayQueue    //桶延迟队列
 	overflowWheel unsafe.Pointer // 下一个时间轮
+	// 处理到期桶（弹出、前进时间、迁移）时持有写锁，添加定时器时持有读锁，
+	// 否则定时器可能按旧的当前时间加入到下一圈也在使用的桶里。只使用最底层时间轮的锁
+	mutex sync.RWMutex
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
@@ -49,22 +51,18 @@ func New(tick, wheelSize int64) *TimingWheel {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:27:09
 func (tw *TimingWheel) Run(ctx context.Context) {
-	bucketChan := tw.queue.channel(ctx, delayQueueBufferSize, func() int64 {
+	nowF := func() int64 {
 		return time.Now().UnixMilli()
-	})
-	for {
-		select {
-		case b, ok := <-bucketChan: // 桶到期
-			if !ok { // 被关闭
-				return
-			}
+	}
+	for tw.queue.wait(ctx, nowF) {
+		tw.mutex.Lock()
+		if b := tw.queue.pop(nowF); b != nil { // 桶到期
 			// 前进当前时间
 			tw.advance(b.getExpiration())
 			// 处理桶
-			b.flush(tw.addOrRun)
-		case <-ctx.Done(): // 被关闭
-			return
+			b.flush(tw.addOrRunLocked)
 		}
+		tw.mutex.Unlock()
 	}
 }
 
@@ -155,6 +153,13 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
+	tw.mutex.RLock()
+	defer tw.mutex.RUnlock()
+	tw.addOrRunLocked(t)
+}
+
+// 添加任务或运行，需要持有锁
+func (tw *TimingWheel) addOrRunLocked(t *Timer) {
 	if !tw.add(t) {
 		t.setBucket(nil)
 		go t.task()
-- 
2.43.0


From 20c42d1743ba74c32f4afddb1f3a1806932a6d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 15/43] fix: bloom filter mixes hash and seed so that its
 false-positive rate is the configured one

---
 common/filter/bloom/bloom.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index 6f4207d..7be77ce 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -99,7 +99,7 @@ func (f *Filter) Len() uint64 {
 // 获取对应元素下标和偏移
 func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	// 按照位计算的偏移
-	bitsIndex := (h ^ seed) % f.bitCnt
+	bitsIndex := mix(h^seed) % f.bitCnt
 	// 因为一个元素64位，因此需要转换
 	index := bitsIndex / uint64Bits
 	// 在一个元素里面的偏移
@@ -107,6 +107,17 @@ func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	return index, offset
 }
 
+// 打散哈希值（MurmurHash3的fmix64）
+// 如果只是和种子异或，不同种子得到的位置高度相关，误判率远高于设定值
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 // 计算哈希值
 func (f *Filter) hash(b []byte) uint64 {
 	fnvHash := fnv.New64()
-- 
2.43.0


From e944c139ab70957e4ea3a063d255bfb556d8dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 16/43] fix: batch inserts write every column of every record,
 not only those of the first

---
 gorm_tools/gorm.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..1bb25bd 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,16 +103,25 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
-	if err != nil {
-		return err
+	// 获取所有record的字段
+	fields := make(map[string]struct{})
+	for _, item := range records {
+		recordMap, err := dumpStructToMapForInsert(item, table)
+		if err != nil {
+			return err
+		}
+		for key := range recordMap {
+			fields[key] = struct{}{}
+		}
 	}
-	if len(recordMap) == 0 {
+	if len(fields) == 0 {
 		return nil
 	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000 / len(fields)
+	if maxInsertLen == 0 {
+		maxInsertLen = 1
+	}
 
 	for len(records) != 0 {
 		insertLen := len(records)
@@ -146,10 +155,16 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		recordMap[index] = recordMapItem
 	}
 
-	//以一定的顺序收集字段名字
+	//以一定的顺序收集所有记录的字段名字(omitempty等情况下各记录的字段可能不同)
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	collected := make(map[string]struct{}, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if _, ok := collected[key]; !ok {
+				collected[key] = struct{}{}
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
 
 	//按上面收集到的字段名字顺序，查找对应的value
-- 
2.43.0


From 241e17d468da78ba8f5bf8f2f9ff64a36c908865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 17/43] fix: batch update refuses records with extra fields
 instead of dropping them

---
 gorm_tools/update.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..6261781 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -53,6 +53,13 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		break
 	}
 
+	// 每条记录的更新字段必须一致,多余的字段不能被丢弃
+	for _, updateMap := range idUpdateMap {
+		if len(updateMap) != len(updateField) {
+			return fmt.Errorf("update field must equal")
+		}
+	}
+
 	caseSQL, beginSQL := "", "update "+tableName+" set "
 
 	args, allID := make([]interface{}, 0, len(idUpdateMap)*2), make([]int64, 0, len(idUpdateMap))
-- 
2.43.0


From 6fb58cd8a49ba594905018c7554bf0e8127cc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 18/43] fix: split update keeps every statement within the
 placeholder limit

---
 gorm_tools/update.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 6261781..269870d 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -12,6 +12,15 @@ import (
 // @Date 2023-03-29 12:01:28
 func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUpdateMap map[int64]map[string]interface{}) error {
 	maxUpdateLen := 500
+	// 由于数据库占位符长度限制,字段较多时需要减少每批的条数
+	for _, updateMap := range idUpdateMap {
+		if limit := 65000 / (2*len(updateMap) + 1); limit < maxUpdateLen {
+			maxUpdateLen = limit
+		}
+	}
+	if maxUpdateLen == 0 {
+		maxUpdateLen = 1
+	}
 
 	index, totalNum := 0, 0
 	sliceUpdate := make([]map[int64]map[string]interface{}, 0, len(idUpdateMap)/maxUpdateLen+1)
-- 
2.43.0


From baac67b9172dcbee0edbfb980ac5a6d2f865f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 19/43] fix: MakeFile rebuilds the file from its own chunks and
 refuses gaps

---
 help/utils/breakpoint_continue.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..65196e7 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,11 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -63,15 +65,30 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 	if err != nil {
 		return finishDir + fileName, err
 	}
+	// 只统计属于该文件的切片,并确认切片连续
+	chunks := make(map[int]bool, len(rd))
+	for _, info := range rd {
+		suffix := strings.TrimPrefix(info.Name(), fileName+"_")
+		if number, err := strconv.Atoi(suffix); err == nil && info.Name() == fileName+"_"+strconv.Itoa(number) {
+			chunks[number] = true
+		}
+	}
+	for k := 0; k < len(chunks); k++ {
+		if !chunks[k] {
+			return finishDir + fileName, fmt.Errorf("chunk %d of %s is missing", k, fileName)
+		}
+	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
+	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
 		return finishDir + fileName, err
 	}
 	defer fd.Close()
-	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
+	for k := 0; k < len(chunks); k++ {
+		content, err := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
+		if err == nil {
+			_, err = fd.Write(content)
+		}
 		if err != nil {
 			_ = os.Remove(finishDir + fileName)
 			return finishDir + fileName, err
-- 
2.43.0


From a8da468d303f90b18e712b20618ca89cb8d33aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 20/43] fix: chunked uploads cannot leave the upload
 directories

---
 help/utils/breakpoint_continue.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 65196e7..24d32b8 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,11 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -15,6 +17,13 @@ const (
 	finishDir     = "./fileDir/"
 )
 
+var errIllegalName = errors.New("illegal file name or md5")
+
+// isPlainName 文件名和md5来自客户端,不允许借助它们离开上传目录
+func isPlainName(name string) bool {
+	return name != "" && name != "." && name != ".." && filepath.Base(name) == name
+}
+
 // BreakPointContinue
 //  @Description:  断点续传
 //  @param content
@@ -27,6 +36,9 @@ const (
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:50:35
 func BreakPointContinue(content []byte, fileName string, contentNumber int, contentTotal int, fileMd5 string) (string, error) {
+	if !isPlainName(fileName) || !isPlainName(fileMd5) {
+		return "", errIllegalName
+	}
 	path := breakpointDir + fileMd5 + "/"
 	err := os.MkdirAll(path, os.ModePerm)
 	if err != nil {
@@ -61,6 +73,9 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
+	if !isPlainName(fileName) || !isPlainName(FileMd5) {
+		return "", errIllegalName
+	}
 	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
 	if err != nil {
 		return finishDir + fileName, err
@@ -98,6 +113,9 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 }
 
 func RemoveChunk(FileMd5 string) error {
+	if !isPlainName(FileMd5) {
+		return errIllegalName
+	}
 	err := os.RemoveAll(breakpointDir + FileMd5)
 	return err
 }
-- 
2.43.0


From b448f6c71041704eefed15e921f1a540eafd8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 21/43] fix: Unzip stays inside its destination and closes each
 file

---
 help/utils/zip.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..c0aac2c 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"fmt"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,28 +27,21 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 压缩包中的路径不允许离开目标目录
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return []string{}, fmt.Errorf("illegal file path in zip: %s", f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
-		} else {
-			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
 				return []string{}, err
 			}
-
-			inFile, err := f.Open()
-			if err != nil {
+		} else {
+			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
 			}
-			defer inFile.Close()
-
-			outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
-			if err != nil {
-				return []string{}, err
-			}
-			defer outFile.Close()
-
-			_, err = io.Copy(outFile, inFile)
-			if err != nil {
+			if err = unzipFile(f, fpath); err != nil {
 				return []string{}, err
 			}
 		}
@@ -55,6 +49,25 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 	return paths, nil
 }
 
+// unzipFile 解压单个文件,解压后立即关闭
+func unzipFile(f *zip.File, fpath string) error {
+	inFile, err := f.Open()
+	if err != nil {
+		return err
+	}
+	defer inFile.Close()
+
+	outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(outFile, inFile)
+	if closeErr := outFile.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
 // ZipFiles
 //  @Description:  压缩文件
 //  @param filename
-- 
2.43.0


From bd7ec39b95099fe6a9eb240cc46b8c5e3112cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 22/43] fix: ZipFiles reports errors of closing the archive

---
 help/utils/zip.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index c0aac2c..089f447 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -77,18 +77,23 @@ func unzipFile(f *zip.File, fpath string) error {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:46:02
-func ZipFiles(filename string, files []string, oldForm, newForm string) error {
+func ZipFiles(filename string, files []string, oldForm, newForm string) (err error) {
 	newZipFile, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		_ = newZipFile.Close()
+		if closeErr := newZipFile.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
+	// 目录区在Close时才写入,其错误不能忽略
 	zipWriter := zip.NewWriter(newZipFile)
 	defer func() {
-		_ = zipWriter.Close()
+		if closeErr := zipWriter.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// 把files添加到zip中
-- 
2.43.0


From c280624e409a6bfbb40fcf0234d3230aab7f54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 23/43] fix: WriteCsv writes the given row and reports errors;
 no file leaks on a failed chunk

---
 help/utils/breakpoint_continue.go | 8 ++------
 help/utils/csv.go                 | 5 ++---
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 24d32b8..b95eb38 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -62,14 +62,10 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 	f, err := os.Create(path)
 	if err != nil {
 		return path, err
-	} else {
-		_, err = f.Write(content)
-		if err != nil {
-			return path, err
-		}
 	}
 	defer f.Close()
-	return path, nil
+	_, err = f.Write(content)
+	return path, err
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..aaf0252 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -50,13 +50,12 @@ func WriteCsv(path string, content []string) error {
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
 
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From 3b177c23e1b088a4a4b12e4833aff7b2bb01503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 24/43] fix: CopyFile cuts off what a longer destination held
 before

---
 help/utils/files.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..b4126c4 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -208,7 +208,15 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 	}
 
 	defer dst.Close()
-	return io.Copy(dst, src)
+	written, err = io.Copy(dst, src)
+	if err != nil {
+		return
+	}
+	// 目标文件可能比源文件长
+	if info, statErr := dst.Stat(); statErr == nil && info.Mode().IsRegular() {
+		err = dst.Truncate(written)
+	}
+	return
 }
 
 // ImageFileToBase64  图片文件转 base64
-- 
2.43.0


From cd7f7ff5135b57ad57f3a885bcc10e9c17e13d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 25/43] fix: IsFile is false for a path that does not exist

---
 help/utils/files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index b4126c4..06e61e2 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -247,7 +247,8 @@ func IsDir(path string) bool {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:47:47
 func IsFile(path string) bool {
-	return !IsDir(path)
+	info, err := os.Stat(path)
+	return err == nil && !info.IsDir()
 }
 
 // MkDir
-- 
2.43.0


From 6b1343e6e598d7035119fd7e76e26477d380a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 26/43] fix: AesEncrypt does not write padding into the
 caller's buffer

---
 help/utils/md5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..7a7d613 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -75,7 +75,8 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 不能写到调用者切片的剩余容量里
+	return append(data[:len(data):len(data)], padText...)
 }
 
 func pkcs7UnPadding(data []byte) ([]byte, error) {
-- 
2.43.0


From aae35dd4f0333ede71530e6ea6e13fe5fbcfe8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 27/43] fix: AesDecrypt refuses what is not a padded ciphertext
 instead of panicking

---
 help/utils/md5.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 7a7d613..789d0de 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -62,6 +62,9 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("decrypt error: not a whole number of blocks")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
@@ -85,5 +88,9 @@ func pkcs7UnPadding(data []byte) ([]byte, error) {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding == 0 || unPadding > aes.BlockSize || unPadding > length ||
+		!bytes.Equal(data[length-unPadding:], bytes.Repeat(data[length-1:], unPadding)) {
+		return nil, errors.New("decrypt error: bad padding")
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From 588982651fc0c6e88992a27706821dc0a2b8cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 28/43] fix: MD5V does not write behind the caller's prefix

---
 help/utils/breakpoint_continue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index b95eb38..1934ef8 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -123,5 +123,5 @@ func RemoveChunk(FileMd5 string) error {
 func MD5V(str []byte, b ...byte) string {
 	h := md5.New()
 	h.Write(str)
-	return hex.EncodeToString(h.Sum(b))
+	return hex.EncodeToString(h.Sum(b[:len(b):len(b)])) // 不写调用者切片的剩余容量
 }
-- 
2.43.0


From e01897f690a56c2b4a7cd8407a7dd2358c8e8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 29/43] fix: MaskCustomerName counts characters, not bytes

---
 help/utils/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..74a99c7 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -136,11 +136,11 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
-	} else if len(name) < 1 {
+	} else if len(_name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else if len(_name) <= 4 {
 		name = string(_name[:1]) + "***"
 	}
 
-- 
2.43.0


From ee9747c27b71201ee1024dde3f625b339485f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 30/43] fix: HideStar counts the characters of an address, not
 its bytes

---
 help/utils/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 74a99c7..fbeda9f 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -66,7 +66,7 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		if len([]rune(res[0])) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-- 
2.43.0


From cb3454d350803f15da9fe74cdd1573164c66940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 31/43] fix: Round rounds negative numbers to the nearest

---
 help/utils/math.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/help/utils/math.go b/help/utils/math.go
index 1f12410..8fa71ca 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -4,6 +4,9 @@ import "math"
 
 // Round 四舍五入
 func Round(f float64, n int) float64 {
+	if f < 0 { // Trunc向零取整，负数按绝对值四舍五入
+		return -Round(-f, n)
+	}
 	pow10_n := math.Pow10(n)
 	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n
 }
-- 
2.43.0


From 4144d71d0c7e0d02824be8540da716443770cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 32/43] fix: FormatByte shows the size it is given, in its unit

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 06e61e2..1acf76c 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -157,10 +157,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for i = 0; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From 7f26d1352e53baa7b2bcda936359d5e459aba334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 33/43] fix: RandStr seeds once, so calls at one instant differ

---
 help/utils/rand.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/rand.go b/help/utils/rand.go
index ef27ac7..a08458d 100644
--- a/help/utils/rand.go
+++ b/help/utils/rand.go
@@ -5,6 +5,11 @@ import (
 	"time"
 )
 
+// 只设置一次种子，每次调用都设置会让同一时刻的调用得到相同的字符串
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 // RandStr
 //  @Description:  获取随机数
 //  @param size
@@ -18,7 +23,6 @@ func RandStr(size int, kind int) string {
 
 	isAll := kind > 2 || kind < 0
 
-	rand.Seed(time.Now().UnixNano())
 	for i := 0; i < size; i++ {
 		if isAll {
 			ikind = rand.Intn(3)
-- 
2.43.0


From 8c21cc18e3c55bc39a0a87a648f777cf595df033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 34/43] fix: IsSameSiteURLPath refuses tabs and line breaks,
 which browsers drop

---
 help/utils/files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 1acf76c..1e2cc7f 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -319,8 +319,9 @@ func humanateBytes(s uint64, base float64, sizes []string) string {
 // IsSameSiteURLPath returns true if the URL path belongs to the same site, false otherwise.
 // False: //url, http://url, /\url
 // True: /url
+// Browsers drop tabs and line breaks, so that "/\t/url" is "//url" to them.
 func IsSameSiteURLPath(url string) bool {
-	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\'
+	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\' && !strings.ContainsAny(url, "\t\n\r")
 }
 
 func IsMaliciousPath(path string) bool {
-- 
2.43.0


From 2c5645139bdc02bd58d73f11e23d21cef43cc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 35/43] fix: BuildUrl without a prefix does not start with two
 slashes

---
 help/utils/url.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/url.go b/help/utils/url.go
index cadf737..1de4ab0 100644
--- a/help/utils/url.go
+++ b/help/utils/url.go
@@ -18,7 +18,11 @@ func BuildUrl(prefix string, params ...interface{}) string {
 		linkUrl []string
 	)
 
-	linkUrl = append(linkUrl, "/"+strings.Trim(prefix, "/"))
+	prefix = strings.Trim(prefix, "/")
+	if prefix != "" { // 空前缀不能产生以"//"开头的链接
+		prefix = "/" + prefix
+	}
+	linkUrl = append(linkUrl, prefix)
 	l = len(params)
 	if l != (l/2)*2 {
 		l = (l / 2) * 2
-- 
2.43.0


From cca72efb2a56037eb82cb4cfb1f0b6b1e05df3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 36/43] fix: UpperFirst returns the text with its first letter
 in upper case

---
 help/utils/strings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index fbeda9f..4a015ad 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -48,11 +50,12 @@ func StringToInt64(s string) int64 {
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
-	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
 
-	return s
+	return string(unicode.ToUpper(r)) + s[size:]
 }
 
 // HideStar
-- 
2.43.0


From 70240e13c16678c802dfa2eb0b27c77a4ec98f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 37/43] fix: bucket limiters do not overflow on high rates and
 long idle times

---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 6 +++++-
 common/limiter/token_bucket/token_bucket.go         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 6485b0d..0fea6bc 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -32,7 +32,11 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
-		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
+		if seconds := int(interval / time.Second); l.currentVelocity > 0 && seconds > l.currentLevel/l.currentVelocity {
+			l.currentLevel = 0 // 漏得完，不再相乘，避免溢出
+		} else {
+			l.currentLevel = maxInt(0, l.currentLevel-seconds*l.currentVelocity)
+		}
 		// 只前进整秒，不满一秒的时间留到下次
 		l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)
 	}
diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index e1226f4..ea19e27 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -32,7 +32,11 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
-		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
+		if seconds := int(interval / time.Second); l.rate > 0 && seconds > (l.capacity-l.currentTokens)/l.rate {
+			l.currentTokens = l.capacity // 装得满，不再相乘，避免溢出
+		} else {
+			l.currentTokens = minInt(l.capacity, l.currentTokens+seconds*l.rate)
+		}
 		// 只前进整秒，不满一秒的时间留到下次
 		l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)
 	}
-- 
2.43.0


From 6c4b65cc9cb1e0b2d933ca67bb5e5abead01fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 38/43] fix: number masks count characters, not bytes

---
 help/utils/strings.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 4a015ad..40c3a27 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -109,16 +109,17 @@ func HideStar(str string) (result string) {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:40:59
 func MaskMobile(mobile string, maskNumber int) string {
+	_mobile := []rune(mobile)
 	offset := 3
-	if len(mobile) > 11 {
+	if len(_mobile) > 11 {
 		offset += 2
 	}
 	maskNumber += offset
 
 	ret := mobile
-	if len(mobile) > maskNumber {
-		_cardNo := make([]rune, len(mobile))
-		for index, _c := range mobile {
+	if len(_mobile) > maskNumber {
+		_cardNo := make([]rune, len(_mobile))
+		for index, _c := range _mobile {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -155,13 +156,14 @@ func MaskCustomerName(name string) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:18
 func MaskIDCard(idcard string, maskNumber int) string {
+	_idcard := []rune(idcard)
 	offset := 4
 	maskNumber += offset
 
 	ret := idcard
-	if len(idcard) > maskNumber {
-		_cardNo := make([]rune, len(idcard))
-		for index, _c := range idcard {
+	if len(_idcard) > maskNumber {
+		_cardNo := make([]rune, len(_idcard))
+		for index, _c := range _idcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -180,16 +182,17 @@ func MaskIDCard(idcard string, maskNumber int) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:25
 func MaskBackCard(bankcard string, maskNumber int) string {
+	_bankcard := []rune(bankcard)
 	offset := 4
 	maskNumber += offset
-	if len(bankcard) > 16 {
-		maskNumber += len(bankcard) - 16
+	if len(_bankcard) > 16 {
+		maskNumber += len(_bankcard) - 16
 	}
 
 	ret := bankcard
-	if len(bankcard) > maskNumber {
-		_cardNo := make([]rune, len(bankcard))
-		for index, _c := range bankcard {
+	if len(_bankcard) > maskNumber {
+		_cardNo := make([]rune, len(_bankcard))
+		for index, _c := range _bankcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
-- 
2.43.0


From b0b5ba8cafba1bd02c7aa3dec38ee23cc7e0305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 39/43] fix: elements of a cleared list are not in it any more

---
 common/container/list/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index 128fab8..6525962 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -52,6 +52,11 @@ type List[T any] struct {
 
 // Clear clears list l.
 func (l *List[T]) Clear() *List[T] {
+	for e := l.Front(); e != nil; { // the elements are not in the list any more
+		next := e.Next()
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 3ca8f0ad3126b35156e29b713a9a3f2e7436b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 40/43] fix: a CSV row is not appended to an unterminated last
 line

---
 help/utils/csv.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index aaf0252..22f2e95 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -45,7 +45,19 @@ func WriteCsv(path string, content []string) error {
 	}
 	defer nfs.Close()
 
-	nfs.Seek(0, io.SeekEnd)
+	size, _ := nfs.Seek(0, io.SeekEnd)
+	// 原文件最后一行没有换行时,先补上换行,避免新行接在其后面
+	last := make([]byte, 1)
+	if size > 0 {
+		if _, err = nfs.ReadAt(last, size-1); err != nil {
+			return err
+		}
+		if last[0] != '\n' {
+			if _, err = nfs.WriteString("\r\n"); err != nil {
+				return err
+			}
+		}
+	}
 
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
-- 
2.43.0


From 1560cfb1e8d0583b10d74f5d41265d2d6cd0d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 41/43] fix: a timing wheel of one slot no longer overflows
 into ever the same wheel

---
 common/timer/timingwheel/timing_wheel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 83c28bb..ff11972 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -26,6 +26,9 @@ type TimingWheel struct {
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
+	if wheelSize == 1 {
+		wheelSize = 2 // 只有一格时，上层时间轮与本层一样，会无限递归
+	}
 	tw := &TimingWheel{
 		tick:        tick,
 		wheelSize:   wheelSize,
-- 
2.43.0


From 98d4a8881187c47885b7da99f3cc0a0a833b0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:33 +0000
Subject: [PATCH 42/43] fix: a CSV row of one empty field is written as a row,
 not as an empty line

---
 help/utils/csv.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index 22f2e95..2e0a693 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -59,6 +59,12 @@ func WriteCsv(path string, content []string) error {
 		}
 	}
 
+	// 只有一个空字段的行会被写成空行,而读取时空行被跳过
+	if len(content) == 1 && content[0] == "" {
+		_, err = nfs.WriteString("\"\"\r\n")
+		return err
+	}
+
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-- 
2.43.0


From 676374361da0f4d09b55fd7a772028cf0cd06ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:23 +0000
Subject: [PATCH 43/43] fix: lists and objects in inserted records are stored
 whole, as JSON

---
 gorm_tools/gorm.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 1bb25bd..a4f36ae 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -218,5 +218,17 @@ func dumpStructToMapForInsert(dbStruct interface{}, table string) (map[string]in
 		return nil, fmt.Errorf("DumpStructToMap failed to json.Unmarshal, err:%v", err)
 	}
 
+	// 列表和对象以JSON文本写入,否则占位符会展开列表
+	for key, value := range result {
+		switch value.(type) {
+		case []interface{}, map[string]interface{}:
+			text, err := json.Marshal(value)
+			if err != nil {
+				return nil, fmt.Errorf("DumpStructToMap failed to json.Marshal %s, err:%v", key, err)
+			}
+			result[key] = string(text)
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0

