From 44f0dc9177a2e83be58ac730f4ffe73eaf2a201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 01/38] fix: AsyncSingleSubject blocked the event loop or its
 producers after dispose

---
 aioreactive/subject.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..031e4cd 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -44,6 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
             log.debug("AsyncSingleStream:asend:awaiting:done")
+            self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -51,10 +52,11 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             await self._observer.athrow(error)
             self._is_stopped = True
@@ -62,11 +64,12 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             await self._observer.aclose()
@@ -78,6 +81,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Wake up any producers so they can fail instead of waiting forever.
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From 9f8f4663b62ed45bc52f625b6a3dbbfeb9a88dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 02/38] fix: AsyncSingleSubject accepted more events while its
 terminal was being delivered

---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 031e4cd..2382ea4 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -58,8 +58,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             self.check_disposed()
 
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
@@ -72,8 +72,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From 361f163d5a5879970f99bec91c1f6b3949c7180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 03/38] fix: AsyncMultiSubject delivered to observers that
 unsubscribed, or after its terminal, during a slow delivery

---
 aioreactive/subject.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 2382ea4..32af208 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -127,7 +127,11 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
 
         for obv in list(self._observers):
-            await obv.asend(value)
+            # The subject may have stopped, or the observer unsubscribed, while awaiting a previous observer.
+            if self._is_stopped:
+                return
+            if obv in self._observers:
+                await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         self.check_disposed()
@@ -137,7 +141,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.athrow(error)
+            if obv in self._observers:
+                await obv.athrow(error)
 
     async def aclose(self) -> None:
         self.check_disposed()
@@ -147,7 +152,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.aclose()
+            if obv in self._observers:
+                await obv.aclose()
 
     async def subscribe_async(
         self,
-- 
2.43.0


From 2cb347fe9a354745b840d119a1fff0d67399727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 04/38] fix: AsyncIteratorObserver blocked its producers
 forever after the iteration ended

---
 aioreactive/observers.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..fed8c72 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -30,25 +30,31 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: AsyncDisposable | None = None
         self._source = source
         self._busy = False
+        self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
         self._push.set_result(value)
         await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow()", error)
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
+        self._is_stopped = True
         self._push.set_exception(error)
         await self._wait_for_pull()
 
     async def aclose(self) -> None:
-        await self._serialize_access()
+        if not await self._serialize_access():
+            return
 
+        self._is_stopped = True
         self._push.set_exception(StopAsyncIteration)
         await self._wait_for_pull()
 
@@ -57,21 +63,36 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pull = Future()
         self._busy = False
 
-    async def _serialize_access(self) -> None:
-        # Serialize producer event to the iterator
-        while self._busy:
+    async def _serialize_access(self) -> bool:
+        # Serialize producer event to the iterator. Returns false if the event should be dropped because a previous
+        # event has stopped the iterator.
+        while self._busy and not self._is_stopped:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
             await fut
             self._awaiters.remove(fut)
 
+        if self._is_stopped:
+            return False
+
         self._busy = True
+        return True
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        try:
+            value = await self._push
+        except Exception:
+            # Stopped. Keep the exception for later pulls, and release every producer.
+            if not self._pull.done():
+                self._pull.set_result(True)
+            for awaiter in self._awaiters:
+                if not awaiter.done():
+                    awaiter.set_result(True)
+            raise
+
         self._push = Future()
         self._pull.set_result(True)
 
-- 
2.43.0


From 732bf71dc5d95acec01dcc92b8f0feae73739a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 05/38] fix: AsyncIteratorObserver was unusable after a
 cancelled (timed out) pull

---
 aioreactive/observers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index fed8c72..b5978f6 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import CancelledError, Future, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -84,6 +84,11 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
         try:
             value = await self._push
+        except CancelledError:
+            # The consumer gave up waiting. Don't fail the producer, but keep its event for the next pull.
+            if self._push.cancelled():
+                self._push = Future()
+            raise
         except Exception:
             # Stopped. Keep the exception for later pulls, and release every producer.
             if not self._pull.done():
-- 
2.43.0


From d823ea6d2b86f1f157a3241acccb4cfb14766197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 06/38] fix: auto_detach_observer never detached, and queued
 events were delivered after unsubscribing

---
 aioreactive/create.py    | 11 ++++---
 aioreactive/observers.py | 69 +++++++++++++++++++---------------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..591cf33 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -13,7 +13,7 @@ from expression.system import (
 )
 
 from .observables import AsyncAnonymousObservable
-from .observers import AsyncObserver, safe_observer
+from .observers import AsyncObserver, auto_detach_observer, safe_observer
 from .types import AsyncObservable
 
 
@@ -48,10 +48,13 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        safe_obv, auto_detach = auto_detach_observer(aobv)
 
-        aiotools.start(worker(safe_obv, token), token)
-        return disposable
+        async def start() -> AsyncDisposable:
+            aiotools.start(worker(safe_obv, token), token)
+            return disposable
+
+        return await auto_detach(start())
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index b5978f6..1a7c884 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -3,10 +3,9 @@ from asyncio import CancelledError, Future, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
-from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.core import MailboxProcessor
+from expression.system import AsyncDisposable, CancellationToken, CancellationTokenSource, Disposable
 
-from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
 from .types import AsyncObservable, AsyncObserver
 from .utils import anoop
@@ -174,7 +173,11 @@ def noop() -> AsyncObserver[Any]:
     return AsyncAnonymousObserver(anoop, anoop, anoop)
 
 
-def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) -> AsyncObserver[_TSource]:
+def safe_observer(
+    obv: AsyncObserver[_TSource],
+    disposable: AsyncDisposable,
+    token: CancellationToken | None = None,
+) -> AsyncObserver[_TSource]:
     """Safe observer that wraps the given observer.
 
     Makes sure that
@@ -188,25 +191,31 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
     Args:
         obv: Observer to serialize access to
         disposable: Disposable to dispose when the observer closes.
+        token: Optional token that is cancelled when the observer has
+            unsubscribed, i.e. should not be notified any more.
     """
 
+    def is_unsubscribed() -> bool:
+        return token is not None and token.is_cancellation_requested
+
     async def worker(inbox: MailboxProcessor[Notification[_TSource]]) -> None:
         async def message_loop(running: bool) -> None:
             while running:
                 msg = await inbox.receive()
+                if is_unsubscribed():
+                    return
+
                 if msg.kind == MsgKind.ON_NEXT:
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
-                        await obv.athrow(ex)
+                        if not is_unsubscribed():
+                            await obv.athrow(ex)
                         running = False
-                elif msg.kind == MsgKind.ON_ERROR:
-                    await disposable.dispose_async()
-                    await msg.accept_observer(obv)
-                    running = False
                 else:
                     await disposable.dispose_async()
-                    await obv.aclose()
+                    if not is_unsubscribed():
+                        await msg.accept_observer(obv)
                     running = False
 
         await message_loop(running=True)
@@ -232,42 +241,30 @@ def auto_detach_observer(
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
     cts = CancellationTokenSource()
-    token = cts.token
-
-    async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
-        @tailrec_async
-        async def message_loop(
-            disposables: list[AsyncDisposable],
-        ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
-            cmd = await inbox.receive()
-            match cmd:
-                case Msg(tag="disposable", disposable=disposable):
-                    disposables.append(disposable)
-                case _:
-                    for disp in disposables:
-                        await disp.dispose_async()
-                    return
-            return TailCall[list[AsyncDisposable]](disposables)
+    disposables: list[AsyncDisposable] = []
+    is_detached = False
 
-        await message_loop([])
+    async def detach() -> None:
+        nonlocal is_detached
+        is_detached = True
 
-    agent = MailboxProcessor.start(worker, token)
+        while disposables:
+            await disposables.pop(0).dispose_async()
 
     async def cancel() -> None:
         cts.cancel()
-        agent.post(Msg(dispose=True))
+        await detach()
 
-    canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+    safe_obv = safe_observer(obv, AsyncDisposable.create(detach), cts.token)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
-        return disposable
+        disposables.append(disposable)
+        if is_detached:
+            await detach()
+
+        return AsyncDisposable.create(cancel)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From 73a9ec5d3840746fd14fa0e57b6a29b57f354fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 07/38] fix: safe_observer kept the source subscribed after the
 observer failed

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 1a7c884..11bab4a 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -209,6 +209,7 @@ def safe_observer(
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         if not is_unsubscribed():
                             await obv.athrow(ex)
                         running = False
-- 
2.43.0


From 27830e8951c180eeb7d7df6260e91503331a8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 08/38] fix: an error raised by the iterable of
 from_iterable/from_async_iterable was lost

---
 aioreactive/create.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 591cf33..cae4b64 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -90,15 +90,13 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
-
-            await observer.aclose()
-            tasks.remove(task)
+            except Exception as ex:
+                await observer.athrow(ex)
+            else:
+                await observer.aclose()
 
         try:
             task = asyncio.create_task(worker())
@@ -107,6 +105,7 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             await observer.athrow(ex)
         else:
             tasks.add(task)
+            task.add_done_callback(tasks.discard)
         return sub
 
     return AsyncAnonymousObservable(subscribe_async)
@@ -170,16 +169,16 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
+        try:
+            for x in xs:
+                token.throw_if_cancellation_requested()
+                log.debug("of_seq:asend(%s)", x)
 
-            try:
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
-
-        await obv.aclose()
+        except Exception as ex:
+            await obv.athrow(ex)
+        else:
+            await obv.aclose()
 
     return of_async_worker(worker)
 
-- 
2.43.0


From 48616a11c5a25a8314a3e5c22fd36b4c1663bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 09/38] fix: skip_last dropped values that are None

---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..ad0a548 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From 0912fcbf92beced08878322296fbdbcce995ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:54 +0000
Subject: [PATCH 10/38] fix: take(0) never completed unless its source did

---
 aioreactive/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index ad0a548..1c1d413 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -249,6 +249,9 @@ def take(
                     if not remaining:
                         await safe_obv.aclose()
 
+            if not remaining:
+                await safe_obv.aclose()
+
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
 
-- 
2.43.0


From 6066b1eecac669ad26dd9904145e67a9569afd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:45 +0000
Subject: [PATCH 11/38] fix: slices with stop 0 or stop < start, and the index
 [-1], gave wrong results or raised

---
 aioreactive/__init__.py  | 3 ++-
 aioreactive/filtering.py | 7 ++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/aioreactive/__init__.py b/aioreactive/__init__.py
index a91330f..50bc427 100644
--- a/aioreactive/__init__.py
+++ b/aioreactive/__init__.py
@@ -117,7 +117,8 @@ class AsyncRx(AsyncObservable[_TSource]):
         if isinstance(key, slice):
             start, stop, step = key.start, key.stop, key.step
         else:
-            start, stop, step = key, key + 1, 1
+            # The element after the last one (-1) is the end of the stream
+            start, stop, step = key, key + 1 if key != -1 else None, 1
 
         return AsyncRx(pipe(self, _slice(start, stop, step or 1)))
 
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 1c1d413..29f1f5f 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -364,8 +364,6 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
         if start is not None:
             if start < 0:
                 source = pipe(source, take_last(abs(start)))
@@ -373,9 +371,8 @@ def slice(
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop >= 0:
+                source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From 12a6885a6a54dc7c89f423c381de758fac1e7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:48 +0000
Subject: [PATCH 12/38] fix: switch_latest did not complete with its last
 inner, forwarded replaced inners and leaked the last one

---
 aioreactive/transform.py | 55 ++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..4c63ef3 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -263,13 +263,16 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        current_id = 0
 
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == current_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == current_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -282,37 +285,41 @@ def switch_latest(
         async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
             @tailrec_async
             async def message_loop(
-                current: Option[AsyncDisposable], is_stopped: bool, current_id: int
-            ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                current: Option[AsyncDisposable], is_stopped: bool
+            ) -> TailCallResult[None, [Option[AsyncDisposable], bool]]:
+                nonlocal current_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        current_id += 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
-                        current, current_id = Some(inner), next_id
+                        inner = await xs.subscribe_async(obv(inbox, current_id))
+                        current = Some(inner)
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
                     case Msg(tag="dispose"):
-                        if current.is_some():
-                            await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        for disp in current.to_list():
+                            await disp.dispose_async()
+                        return None
+
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
-                return TailCall[Option[AsyncDisposable], bool, int](current, is_stopped, current_id)
+                return TailCall[Option[AsyncDisposable], bool](current, is_stopped)
 
-            await message_loop(Nothing, False, 0)
+            await message_loop(Nothing, False)
 
         inner_agent = MailboxProcessor.start(worker)
 
@@ -329,17 +336,17 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 0553c59cc4a3f79ed27ff444389ce32be0c1c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 13/38] fix: merge_inner left the other inner observables
 subscribed after an inner error

---
 aioreactive/combine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..7d49073 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -144,13 +144,17 @@ def merge_inner(
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+
+                async def cancel() -> None:
+                    await dispose.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
 
-            return AsyncDisposable.create(cancel)
+            return await auto_detach(subscribe())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 7714fd650754ddf611101a912df580b5a8891cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:53 +0000
Subject: [PATCH 14/38] fix: merge_inner lost the error and hung when
 subscribing to an inner observable failed

---
 aioreactive/combine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7d49073..3f7962e 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -123,7 +123,10 @@ def merge_inner(
                 async def message_loop(model: Model[_TSource]) -> None:
                     while True:
                         msg = await inbox.receive()
-                        model = await update(msg, model)
+                        try:
+                            model = await update(msg, model)
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
 
                         if model.is_stopped and not model.subscriptions:
                             break
-- 
2.43.0


From f199ee6b31f7d68089a3c9483656934bf1a28aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 15/38] fix: switch_latest lost the error and hung when
 subscribing to an inner observable failed

---
 aioreactive/transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 4c63ef3..dca59de 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -295,8 +295,13 @@ def switch_latest(
                         current_id += 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, current_id))
-                        current = Some(inner)
+                        current = Nothing
+                        try:
+                            inner = await xs.subscribe_async(obv(inbox, current_id))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
+                        else:
+                            current = Some(inner)
 
                     case Msg(tag="inner_completed", inner_completed=idx):
                         if idx == current_id:
-- 
2.43.0


From 2b2afa0161801c764579c777bb69a6c40f8b2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 16/38] fix: catch could not unsubscribe from the handler's
 observable, and lost errors of the handler

---
 aioreactive/transform.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index dca59de..9d2c420 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -412,16 +412,26 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_disposed = False
+            attempts = 0
 
             async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+                nonlocal disposable, attempts
+                attempts += 1
+                attempt = attempts
 
                 async def asend(value: _TSource) -> None:
                     await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
-                    await action(next_source)
+                    if is_disposed:
+                        return
+                    try:
+                        next_source = handler(error)
+                    except Exception as ex:
+                        await aobv.athrow(ex)
+                    else:
+                        await action(next_source)
 
                 async def aclose() -> None:
                     await aobv.aclose()
@@ -429,12 +439,23 @@ def catch(
                 _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
                 await disposable.dispose_async()
+                if is_disposed:
+                    return
                 subscription = await source.subscribe_async(_obv)
-                disposable = subscription
+                if is_disposed or attempt != attempts:
+                    # Disposed, or the source failed and was replaced, while we were subscribing to it
+                    await subscription.dispose_async()
+                else:
+                    disposable = subscription
 
             await action(source)
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            async def dispose() -> None:
+                nonlocal is_disposed
+                is_disposed = True
+                await disposable.dispose_async()
+
+            return AsyncDisposable.create(dispose)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 0ee8caa50450426952bb973fd730dba3ba059137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 17/38] fix: retry only retried once for all subscribers, then
 looped forever instead of failing

---
 aioreactive/transform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 9d2c420..654b3d0 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,7 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
+from .create import defer
 from .msg import (
     Key,
     Msg,
@@ -466,18 +466,21 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
+        def factory() -> AsyncObservable[_TSource]:
+            count = retry_count
 
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
+            def handler(exn: Exception) -> AsyncObservable[_TSource]:
+                nonlocal count
 
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
+                if count <= 0:
+                    raise exn
+
+                count -= 1
                 return source
 
-        return pipe(source, catch(factory))
+            return pipe(source, catch(handler))
+
+        return defer(factory)
 
     return _retry
 
-- 
2.43.0


From 38e8335a8ae2006476d4f61aed8c79708b940ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 18/38] fix: scan went on after its accumulator had failed

---
 aioreactive/transform.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 654b3d0..bc02f3f 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -493,13 +493,19 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
+                    await disposable.dispose_async()
                     await observer.athrow(ex)
                 else:
                     current = intermediate
@@ -507,15 +513,19 @@ def _scan(
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                # The accumulator failed while we were subscribing
+                await disposable.dispose_async()
 
-            return disposable
+            return AsyncDisposable.create(disposable.dispose_async)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 8141d69c021be80e39a85137aa564aabba6fc15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 19/38] fix: disposing one subscription of delay stopped the
 delay for all its subscribers

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From e4b6d237ae3fe76781eb0b739a38a6d04ee9fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 20/38] fix: delay lost an error of its observer, stalling the
 stream

---
 aioreactive/timeshift.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..c5089d3 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -49,6 +49,7 @@ def delay(
     """
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        safe_obv, auto_detach = auto_detach_observer(aobv)
         cts = CancellationTokenSource()
         token = cts.token
 
@@ -68,13 +69,13 @@ def delay(
                 async def matcher() -> None:
                     match ns:
                         case OnNext(value=x):
-                            await aobv.asend(x)
+                            await safe_obv.asend(x)
                             return
                         case OnError(exception=err):
-                            await aobv.athrow(err)
+                            await safe_obv.athrow(err)
                             return
                         case _:
-                            await aobv.aclose()
+                            await safe_obv.aclose()
                             return
 
                 await matcher()
@@ -89,14 +90,18 @@ def delay(
             agent.post((ns, due_time))
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
 
-        async def cancel() -> None:
-            log.debug("delay:cancel()")
-            cts.cancel()
-            await subscription.dispose_async()
+        async def subscribe() -> AsyncDisposable:
+            subscription = await source.subscribe_async(obv)
+
+            async def cancel() -> None:
+                log.debug("delay:cancel()")
+                cts.cancel()
+                await subscription.dispose_async()
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From c452315290ac56a43081d17c4b7bf4998f997119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 21/38] fix: debounce lost the last value when its source
 completed

---
 aioreactive/timeshift.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index c5089d3..e3a1fc9 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -8,6 +8,9 @@ from expression import curry_flipped
 from expression.collections import seq
 from expression.core import (
     MailboxProcessor,
+    Nothing,
+    Option,
+    Some,
     TailCall,
     TailCallResult,
     aiotools,
@@ -118,7 +121,8 @@ def debounce(
                 @tailrec_async
                 async def message_loop(
                     current_index: int,
-                ) -> "TailCallResult[NoReturn, [int]]":
+                    pending: Option[_TSource],
+                ) -> "TailCallResult[NoReturn, [int, Option[_TSource]]]":
                     n, index = await inbox.receive()
 
                     match n:
@@ -126,19 +130,22 @@ def debounce(
                             log.debug("debounce: %s, %d, %d", n, index, current_index)
                             if index == current_index:
                                 await safe_obv.asend(x)
-                                current_index = index
+                                pending = Nothing
                             elif index > current_index:
-                                current_index = index
+                                current_index, pending = index, Some(x)
 
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
                         case _:
+                            # No value can follow the pending one
+                            for value in pending.to_list():
+                                await safe_obv.asend(value)
                             await safe_obv.aclose()
 
-                    return TailCall[int](current_index)
+                    return TailCall[int, Option[_TSource]](current_index, pending)
 
-                await message_loop(-1)
+                await message_loop(-1, Nothing)
 
             agent = MailboxProcessor.start(worker)
 
-- 
2.43.0


From e788a522569643b20c988c8df1cff1387869406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:31 +0000
Subject: [PATCH 22/38] fix: debounce completed its observer when unsubscribing

---
 aioreactive/timeshift.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index e3a1fc9..6c71706 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -22,7 +22,7 @@ from expression.system import CancellationTokenSource
 
 from .combine import with_latest_from
 from .create import interval
-from .notification import Notification, OnCompleted, OnError, OnNext
+from .notification import Notification, OnError, OnNext
 from .observables import AsyncAnonymousObservable
 from .observers import AsyncNotificationObserver, auto_detach_observer
 from .transform import map
@@ -163,13 +163,7 @@ def debounce(
                 aiotools.start(worker())
 
             obv_: AsyncObserver[_TSource] = AsyncNotificationObserver(obv)
-            dispose = await pipe(obv_, source.subscribe_async, auto_detach)
-
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post((OnCompleted, 0))
-
-            return AsyncDisposable.create(cancel)
+            return await pipe(obv_, source.subscribe_async, auto_detach)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 1a834bd2ee0a200a16f819795082f28f09805c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 23/38] fix: interval lost an error of its observer

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index cae4b64..be3004e 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -215,7 +215,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            try:
+                await aobv.asend(next)
+            except Exception as ex:
+                await aobv.athrow(ex)
+                return None
 
             if not period:
                 await aobv.aclose()
-- 
2.43.0


From 70991f8398a1087229b937224482ce036378c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 24/38] fix: take_until left the other observable subscribed
 after the source ended

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 29f1f5f..145da32 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -321,7 +321,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From 4f7b70cf21e1ac6139364dc6f8b1008fbf4c1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 25/38] fix: to_observable leaked the subscription when
 disposed early, and raised KeyError in the event loop

---
 aioreactive/leave.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..1e4267f 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -49,16 +50,20 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            if is_disposed:
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
             if subscription:
                 task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(task)
+                task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From ca8cd06c33ad2e0176dc77bc6c93cdfb9c0fcb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:45 +0000
Subject: [PATCH 26/38] fix: AsyncAwaitableObserver raised InvalidStateError
 when it ended after being cancelled

---
 aioreactive/observers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 11bab4a..18d76e4 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -318,7 +318,8 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -330,10 +331,11 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
-            self.set_result(self._last_value)
-        else:
-            self.cancel()
+        if not self.done():
+            if self._has_value:
+                self.set_result(self._last_value)
+            else:
+                self.cancel()
         await self._aclose()
 
     def dispose(self) -> None:
-- 
2.43.0


From 08a80a0a00ffbeb7fcae180f6dfd43e16e5cd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 27/38] fix: catch delivered events of a replacement that was
 still being subscribed when it was disposed

---
 aioreactive/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index bc02f3f..0fdb59d 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -421,6 +421,8 @@ def catch(
                 attempt = attempts
 
                 async def asend(value: _TSource) -> None:
+                    if is_disposed:
+                        return
                     await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
@@ -434,6 +436,8 @@ def catch(
                         await action(next_source)
 
                 async def aclose() -> None:
+                    if is_disposed:
+                        return
                     await aobv.aclose()
 
                 _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-- 
2.43.0


From 6dcab3e660a7c025667d5d98c599abb993e33a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:13 +0000
Subject: [PATCH 28/38] fix: from_async_iterable went on when its observer
 unsubscribed inside a notification

---
 aioreactive/create.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index be3004e..a629357 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -83,7 +83,11 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
     tasks: set[Task[Any]] = set()
 
     async def subscribe_async(observer: AsyncObserver[TSource]) -> AsyncDisposable:
+        is_disposed = False
+
         async def cancel() -> None:
+            nonlocal is_disposed
+            is_disposed = True
             if task:
                 task.cancel()
 
@@ -92,11 +96,16 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         async def worker() -> None:
             try:
                 async for value in iterable:
+                    # The cancellation is not seen before the worker suspends, if disposed by the observer itself
+                    if is_disposed:
+                        return
                     await observer.asend(value)
             except Exception as ex:
-                await observer.athrow(ex)
+                if not is_disposed:
+                    await observer.athrow(ex)
             else:
-                await observer.aclose()
+                if not is_disposed:
+                    await observer.aclose()
 
         try:
             task = asyncio.create_task(worker())
-- 
2.43.0


From 6163e4799d3510ffea618d1311dfb656f1515c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:47 +0000
Subject: [PATCH 29/38] fix: AsyncIteratorObserver failed a producer that sends
 while the consumer is giving up a pull

---
 aioreactive/observers.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 18d76e4..0b7d7f2 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import CancelledError, Future, iscoroutinefunction
+from asyncio import Future, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -82,12 +82,8 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             self._subscription = await self._source.subscribe_async(self)
 
         try:
-            value = await self._push
-        except CancelledError:
-            # The consumer gave up waiting. Don't fail the producer, but keep its event for the next pull.
-            if self._push.cancelled():
-                self._push = Future()
-            raise
+            # If the consumer gives up waiting, then don't fail the producer, but keep its event for the next pull.
+            value = await shield(self._push)
         except Exception:
             # Stopped. Keep the exception for later pulls, and release every producer.
             if not self._pull.done():
-- 
2.43.0


From 6e9c376774acd8a468af2ebb948140dc470d4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:06 +0000
Subject: [PATCH 30/38] fix: AsyncIteratorObserver could leave a producer
 waiting forever (lost wake-up)

---
 aioreactive/observers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 0b7d7f2..17c8b30 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -62,6 +62,12 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pull = Future()
         self._busy = False
 
+        # Wake up the next producer, if any
+        for awaiter in self._awaiters:
+            if not awaiter.done():
+                awaiter.set_result(True)
+                break
+
     async def _serialize_access(self) -> bool:
         # Serialize producer event to the iterator. Returns false if the event should be dropped because a previous
         # event has stopped the iterator.
@@ -95,10 +101,6 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
         self._push = Future()
         self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
         return value
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From d7fba3afa068f232410c844f05385ac243ee8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:19 +0000
Subject: [PATCH 31/38] fix: timer completed an observer that had unsubscribed
 inside its tick

---
 aioreactive/create.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index a629357..b72ec66 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -230,6 +230,10 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
                 await aobv.athrow(ex)
                 return None
 
+            # The cancellation is not seen before the next suspension, if disposed by the observer itself
+            if token.is_cancellation_requested:
+                return None
+
             if not period:
                 await aobv.aclose()
                 return None
-- 
2.43.0


From 4693054986d3e4f59fe9b65964bab289d0e4f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:36 +0000
Subject: [PATCH 32/38] fix: AsyncSingleSubject let later events overtake, or
 discard, the ones waiting for a subscriber

---
 aioreactive/subject.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 32af208..1ad0f90 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, Lock
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -26,6 +26,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         super().__init__()
 
         self._wait: Future[bool] = Future()
+        self._lock = Lock()  # Keeps the order of the waiting events
         self._observer: AsyncObserver[_TSource] | None = None
         self._is_disposed = False
         self._is_stopped = False
@@ -40,11 +41,12 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
 
         # AsyncSingleStreams are cold and will await a sink.
-        while self._observer is None:
-            log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
-            log.debug("AsyncSingleStream:asend:awaiting:done")
-            self.check_disposed()
+        async with self._lock:
+            while self._observer is None:
+                log.debug("AsyncSingleStream:asend:awaiting start")
+                await self._wait
+                log.debug("AsyncSingleStream:asend:awaiting:done")
+                self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -53,9 +55,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         log.debug("AsyncSingleStream:athrow()")
 
         self.check_disposed()
-        while self._observer is None:
-            await self._wait
-            self.check_disposed()
+        async with self._lock:
+            while self._observer is None:
+                await self._wait
+                self.check_disposed()
 
         if not self._is_stopped:
             self._is_stopped = True
@@ -65,10 +68,11 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         log.debug("AsyncSingleStream:aclose()")
 
         self.check_disposed()
-        while self._observer is None:
-            log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
-            self.check_disposed()
+        async with self._lock:
+            while self._observer is None:
+                log.debug("AsyncSingleStream:aclose:awaiting start")
+                await self._wait
+                self.check_disposed()
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-- 
2.43.0


From 96818a4cc7078e923bf6e4312c607777eca7911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 33/38] fix: a producer that gave up waiting broke
 AsyncSingleSubject for the other waiting producers

---
 aioreactive/subject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 1ad0f90..6261459 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, Lock
+from asyncio import Future, Lock, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -44,7 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         async with self._lock:
             while self._observer is None:
                 log.debug("AsyncSingleStream:asend:awaiting start")
-                await self._wait
+                await shield(self._wait)
                 log.debug("AsyncSingleStream:asend:awaiting:done")
                 self.check_disposed()
 
@@ -57,7 +57,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
         async with self._lock:
             while self._observer is None:
-                await self._wait
+                await shield(self._wait)
                 self.check_disposed()
 
         if not self._is_stopped:
@@ -71,7 +71,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         async with self._lock:
             while self._observer is None:
                 log.debug("AsyncSingleStream:aclose:awaiting start")
-                await self._wait
+                await shield(self._wait)
                 self.check_disposed()
 
         if not self._is_stopped:
-- 
2.43.0


From 643e39033a95038dabcd065c5d6a741378e7826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 34/38] fix: a producer that gave up sending broke the async
 iteration, and waiting producers could be overtaken

---
 aioreactive/observers.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 17c8b30..5fc469f 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction, shield
+from asyncio import CancelledError, Future, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -58,24 +58,36 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
+        # If the producer gives up, then its event stays for the next pull.
         await self._pull
+
+    def _release(self) -> None:
+        # Release the producer of the pulled event (if it still waits), and let the next one in.
+        if not self._pull.done():
+            self._pull.set_result(True)
         self._pull = Future()
-        self._busy = False
+        self._next()
 
-        # Wake up the next producer, if any
-        for awaiter in self._awaiters:
+    def _next(self) -> None:
+        self._busy = False
+        while self._awaiters and not self._busy:
+            awaiter = self._awaiters.pop(0)
             if not awaiter.done():
                 awaiter.set_result(True)
-                break
+                self._busy = not self._is_stopped
 
     async def _serialize_access(self) -> bool:
-        # Serialize producer event to the iterator. Returns false if the event should be dropped because a previous
-        # event has stopped the iterator.
-        while self._busy and not self._is_stopped:
+        # Serialize producer event to the iterator, in order. Returns false if the event should be dropped because a
+        # previous event has stopped the iterator.
+        if self._busy and not self._is_stopped:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
+            try:
+                await fut
+            except CancelledError:
+                if not fut.cancelled():
+                    self._next()
+                raise
 
         if self._is_stopped:
             return False
@@ -92,15 +104,11 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             value = await shield(self._push)
         except Exception:
             # Stopped. Keep the exception for later pulls, and release every producer.
-            if not self._pull.done():
-                self._pull.set_result(True)
-            for awaiter in self._awaiters:
-                if not awaiter.done():
-                    awaiter.set_result(True)
+            self._release()
             raise
 
         self._push = Future()
-        self._pull.set_result(True)
+        self._release()
         return value
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From fda0370d1e90a4b30eedc2659214659cf3ed8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:47 +0000
Subject: [PATCH 35/38] fix: unsubscribing from a subject could detach another
 observer that compares equal

---
 aioreactive/subject.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 6261459..74cd0fa 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -124,6 +124,10 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         if self._is_disposed:
             raise ObjectDisposedException()
 
+    def _is_subscribed(self, observer: AsyncObserver[_TSource]) -> bool:
+        # By identity, since different observers may compare equal
+        return any(obv is observer for obv in self._observers)
+
     async def asend(self, value: _TSource) -> None:
         self.check_disposed()
 
@@ -134,7 +138,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             # The subject may have stopped, or the observer unsubscribed, while awaiting a previous observer.
             if self._is_stopped:
                 return
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -145,7 +149,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.athrow(error)
 
     async def aclose(self) -> None:
@@ -156,7 +160,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.aclose()
 
     async def subscribe_async(
@@ -174,8 +178,10 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            for i, obv in enumerate(self._observers):
+                if obv is observer:
+                    del self._observers[i]
+                    break
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From e2447ec981841c45b35cc9ec40ca3d63c61eac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:34 +0000
Subject: [PATCH 36/38] fix: distinct_until_changed stalled when comparing two
 values raised

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 145da32..c8ee14a 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From 48af49e7774b66947d58345794b50a369d934950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 37/38] fix: disposing an async iterator left its consumer and
 its producers blocked forever

---
 aioreactive/observers.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 5fc469f..ade6a93 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -30,6 +30,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._source = source
         self._busy = False
         self._is_stopped = False
+        self._is_disposed = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
@@ -96,22 +97,37 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         return True
 
     async def wait_for_push(self) -> _TSource:
-        if self._subscription is None:
+        if self._subscription is None and not self._is_disposed:
             self._subscription = await self._source.subscribe_async(self)
+            if self._is_disposed:
+                await self.dispose_async()
 
+        push = self._push
         try:
             # If the consumer gives up waiting, then don't fail the producer, but keep its event for the next pull.
-            value = await shield(self._push)
+            value = await shield(push)
         except Exception:
             # Stopped. Keep the exception for later pulls, and release every producer.
             self._release()
             raise
 
-        self._push = Future()
+        if self._push is push:  # I.e. not disposed meanwhile
+            self._push = Future()
         self._release()
         return value
 
     async def dispose_async(self) -> None:
+        if not self._is_disposed:
+            # End the iteration, and release every producer.
+            self._is_disposed = True
+            if not self._is_stopped:
+                self._is_stopped = True
+                if self._push.done():
+                    self._push = Future()
+                self._push.set_exception(StopAsyncIteration)
+                self._push.exception()  # It's fine if nobody pulls any more
+            self._release()
+
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
-- 
2.43.0


From 504594c4edb9e101cdf9220a436efe25c267e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:21 +0000
Subject: [PATCH 38/38] fix: run replaced a given observer that counts as false

---
 aioreactive/subscription.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/subscription.py b/aioreactive/subscription.py
index 904a086..8212830 100644
--- a/aioreactive/subscription.py
+++ b/aioreactive/subscription.py
@@ -38,7 +38,7 @@ async def run(
     """
     # For run we need a noopobserver if no observer is specified to avoid
     # blocking the last single stream in the chain.
-    obv: AsyncAwaitableObserver[_TSource] = observer or AsyncAwaitableObserver()
+    obv: AsyncAwaitableObserver[_TSource] = observer if observer is not None else AsyncAwaitableObserver()
     async with await source.subscribe_async(obv):
         log.debug("run(): waiting for observer ...")
         return await asyncio.wait_for(obv, timeout)
-- 
2.43.0

